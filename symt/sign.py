"""Signs of terms, derived bottom-up: every step (the operator of one node, what is known
of its operands) is a z3 query over all values of the operands."""
import time

import z3

from . import solve as S
from . import term as T

POS, NN, NZ = "pos", "nn", "nz"
_lemmas = {}  # shape -> flags


def _holds(claim, facts):
    s = z3.Solver()
    s.set("timeout", 5000)
    s.add(*facts)
    s.add(z3.Not(claim))
    t = time.time()
    r = s.check()
    S.STATS.q(r, time.time() - t)
    return r == z3.unsat


def _have(x, flags):
    return {POS: x > 0, NN: x >= 0, NZ: x != 0}[flags] if flags else z3.BoolVal(True)


def _derive(key):
    """strongest of pos, nn, nz, None for a node of this shape"""
    if key in _lemmas:
        return _lemmas[key]
    op, items = key
    facts = []
    r = z3.Real("r")

    def child(i, fl):
        x = z3.Real(f"x{i}")
        facts.append(_have(x, fl))
        return x

    if op == "+":
        e = z3.RealVal(items[0])
        for i, (sgn, fl) in enumerate(items[1]):
            e = e + sgn * child(i, fl)
        facts.append(r == e)
    elif op == "*":
        e = z3.RealVal(1)
        for i, (odd, fl) in enumerate(items):
            x = child(i, fl)
            e = e * (x if odd else x * x)
        facts.append(r == e)
    elif op == "rec":
        facts.append(r * child(0, items[0]) == 1)
    elif op == "sqrt":
        facts += [r >= 0, r * r == child(0, items[0])]
    elif op == "abs":
        x = child(0, items[0])
        facts.append(r == z3.If(x >= 0, x, -x))
    elif op == "max":
        x, y = child(0, items[0]), child(1, items[1])
        facts.append(r == z3.If(x >= y, x, y))
    elif op == "min":
        x, y = child(0, items[0]), child(1, items[1])
        facts.append(r == z3.If(x <= y, x, y))
    elif op == "ite":
        facts.append(r == z3.If(z3.Bool("c"), child(0, items[0]), child(1, items[1])))
    elif op == "fn":
        if items in ("exp", "sigmoid"):
            facts.append(r > 0)  # axiom
        elif items in T.NONNEG_FN:
            facts.append(r >= 0)
        else:
            _lemmas[key] = None
            return None
    out = None
    if _holds(r > 0, facts):
        out = POS
    elif _holds(r >= 0, facts):
        out = NN
    elif _holds(r != 0, facts):
        out = NZ
    _lemmas[key] = out
    return out


def flag(n, memo):
    """what holds of the term for every input: pos, nn, nz or None"""
    if n in memo:
        return memo[n]
    stack = [n]
    while stack:
        m = stack[-1]
        if m in memo:
            stack.pop()
            continue
        ch = children(m)
        todo = [c for c in ch if c not in memo]
        if todo:
            stack += todo
            continue
        stack.pop()
        memo[m] = step(m, memo)
    return memo[n]


def children(n):
    if n.op == "+":
        return [k for k, _ in n.args[1]]
    if n.op == "*":
        return [k for k, _ in n.args]
    if n.op in ("rec", "sqrt", "abs"):
        return [n.args[0]]
    if n.op in ("max", "min"):
        return list(n.args)
    if n.op == "ite":
        return list(n.args[1:])
    return []


def step(n, memo):
    f = memo.get
    if n.op == "c":
        return POS if n.args > 0 else NN if n.args == 0 else NZ
    if n.op == "+":
        c = n.args[0]
        kinds = sorted({(1 if v > 0 else -1, f(k)) for k, v in n.args[1]}, key=str)
        return _derive(("+", ((c > 0) - (c < 0), tuple(kinds))))
    if n.op == "*":
        cnt = {}
        for k, e in n.args:
            t = (e % 2 == 1, f(k))
            cnt[t] = cnt.get(t, 0) + 1
        # three and more factors of a kind are signed like two or one of them
        items = sorted((t for t, m in cnt.items() for _ in range(m if m < 3 else 2 - m % 2)), key=str)
        return _product(items)
    if n.op in ("rec", "sqrt", "abs"):
        return _derive((n.op, (f(n.args[0]),)))
    if n.op in ("max", "min"):
        r = f(n.args[0])
        if len(n.args) == 1:
            return r
        for k in n.args[1:]:
            r = _derive((n.op, (r, f(k))))
        return r
    if n.op == "ite":
        return _derive(("ite", (f(n.args[1]), f(n.args[2]))))
    if n.op == "fn":
        return _derive(("fn", n.args[0]))
    return None


def _product(items):
    """fold: two factors at a time"""
    r = None
    first = True
    for odd, fl in items:
        g = fl if odd else _derive(("*", ((False, fl),)))
        r = g if first else _derive(("*", ((True, r), (True, g))))
        first = False
    return r


def positive(n, memo):
    return flag(n, memo) == POS


def nonneg(n, memo):
    return flag(n, memo) in (POS, NN)


def nonzero(n, memo):
    return flag(n, memo) in (POS, NZ) or flag(-n, memo) in (POS, NZ)


_gram = {}


def definite(n):
    """x^H (sum_k w_k v_k v_k^H + D) x > 0 for x != 0 when w >= 0 and D > 0: each |v_k^H x|^2 and |x_i|^2
    is a nonnegative number, not all of the latter zero"""
    if n not in _gram:
        s, w = z3.Reals("s w")
        x, d = [z3.Real(f"x{i}") for i in range(n)], [z3.Real(f"d{i}") for i in range(n)]
        facts = [s >= 0, w >= 0] + [v >= 0 for v in x] + [v > 0 for v in d] + [z3.Or(*[v > 0 for v in x])]
        _gram[n] = _holds(w * s + sum(a * b for a, b in zip(x, d)) > 0, facts)
    return _gram[n]


def chosen(A, memo):
    """(|z| < e ? A : |z|^2) != 0 for A > 0, e > 0"""
    if not positive(A, memo):
        return False
    if "chosen" not in _lemmas:
        a, s, e, p = z3.Reals("a s e p")
        _lemmas["chosen"] = _holds(z3.If(s < e, a, p) != 0, [a > 0, e > 0, s >= 0, s * s == p])
    return _lemmas["chosen"]
