"""Deciding the proof obligations with z3.

An equality obligation a == b over the reals goes through a ladder of encodings,
each of which is a *sound* abstraction of the previous one's negation: "unsat"
on any rung shows that the equality holds for every value of the free variables.

  id      the two terms are the same node of the term DAG
  poly    non-polynomial atoms (1/x, sqrt, max, ite, fn) are free variables;
          nlsat decides the polynomial identity
  sweep   first merge atoms whose arguments nlsat proves equal (SAT sweeping;
          candidates come from the GF(p) fingerprints), then as `poly`
  clear   multiply out the reciprocals (arguments are non-zero: recorded
          definedness facts) and reduce sqrt(x)^2 = x, then nlsat
  full    definitions of all atoms, assumptions, path condition and LAPACK
          contracts are asserted too
  slice   as above with all but a few inputs fixed to rationals (narrower bound,
          reported as such)

A refutation is a model of the pinned/sliced encoding that the caller replays on
the real code.
"""
import itertools
import math
import sys
import time
from decimal import Decimal
from fractions import Fraction

_P = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if _P not in sys.path:
    sys.path.append(_P)
import z3  # noqa: E402

from . import term as T  # noqa: E402
from .term import Node  # noqa: E402

ATOMS = ("rec", "sqrt", "abs", "max", "ite", "fn")


class Stats:
    def __init__(self):
        self.queries = 0
        self.time = 0.0
        self.rungs = {}
        self.by = {}

    def q(self, res, dt):
        self.queries += 1
        self.time += dt
        r = str(res)
        self.by[r] = self.by.get(r, 0) + 1

    def rung(self, r, n=1):
        self.rungs[r] = self.rungs.get(r, 0) + n

    def as_dict(self):
        return dict(queries=self.queries, solver_time_s=round(self.time, 3), verdicts=self.by, rungs=self.rungs)


STATS = Stats()


def zval(f):
    return z3.RealVal(f"{f.numerator}/{f.denominator}") if f.denominator != 1 else z3.RealVal(f.numerator)


class Enc:
    """term -> z3 expression; `cut` nodes and (unless defs) atoms are variables"""

    def __init__(self, cut=(), define=False):
        self.cut = set(cut)
        self.memo = {}
        self.define = define
        self.defs = []
        self.vars = {}
        self.ufs = {}

    def _fresh(self, n, b=False):
        v = z3.Bool(f"b{n.id}") if b else z3.Real(f"n{n.id}")
        self.vars[n] = v
        return v

    def __call__(self, root):
        m = self.memo
        if root in m:
            return m[root]
        stack = [root]
        while stack:
            n = stack[-1]
            if n in m:
                stack.pop()
                continue
            if n in self.cut:
                m[n] = self._fresh(n, n.isbool)
                stack.pop()
                continue
            op = n.op
            if op == "c":
                m[n] = zval(n.args)
            elif op == "v":
                m[n] = self._fresh(n)
            elif op == "bv":
                m[n] = self._fresh(n, True)
            elif op == "true":
                m[n] = z3.BoolVal(True)
            elif op == "false":
                m[n] = z3.BoolVal(False)
            elif not self.define and op in ATOMS:
                rs = _root_of_rec(n) if op == "rec" else None
                if rs is not None:
                    # 1/x = (1/sqrt(x))^2
                    if rs not in m:
                        m[rs] = self._fresh(rs)
                    m[n] = m[rs] * m[rs]
                else:
                    m[n] = self._fresh(n)
            else:
                todo = [k for k in T.children(n) if k not in m]
                if todo:
                    stack.extend(todo)
                    continue
                m[n] = self._op(n)
            stack.pop()
        return m[root]

    def _op(self, n):
        m = self.memo
        op = n.op
        if op == "+":
            c, t = n.args
            xs = [m[k] if v == 1 else zval(v) * m[k] for k, v in t]
            if c != 0:
                xs.append(zval(c))
            return z3.Sum(xs) if len(xs) > 1 else xs[0]
        if op == "*":
            xs = []
            for k, e in n.args:
                xs += [m[k]] * e
            r = xs[0]
            for x in xs[1:]:
                r = r * x
            return r
        if op == "rec":
            v = self._fresh(n)
            self.defs.append(v * m[n.args[0]] == 1)
            return v
        if op == "sqrt":
            v = self._fresh(n)
            self.defs += [v >= 0, v * v == m[n.args[0]]]
            return v
        if op == "abs":
            x = m[n.args[0]]
            return z3.If(x >= 0, x, -x)
        if op == "max":
            a, b = m[n.args[0]], m[n.args[1]]
            return z3.If(a >= b, a, b)
        if op == "ite":
            return z3.If(*[m[k] for k in n.args])
        if op == "fn":
            return self._fn(n)
        if op == "lt":
            return m[n.args[0]] < m[n.args[1]]
        if op == "le":
            return m[n.args[0]] <= m[n.args[1]]
        if op == "eq":
            return m[n.args[0]] == m[n.args[1]]
        if op == "not":
            return z3.Not(m[n.args[0]])
        if op == "and":
            return z3.And([m[k] for k in n.args])
        raise AssertionError(op)

    def _fn(self, n):
        v = self._fresh(n)
        name = n.args[0]
        a = [self.memo[k] for k in n.args[2:]]
        if name == "sigmoid":
            self.defs += [v > 0, v < 1]
        elif name == "tanh":
            self.defs += [v > -1, v < 1]
        elif name in ("exp",):
            self.defs += [v > 0]
        elif name == "rpow":
            self.defs += [v >= 0]
        elif name.startswith("round"):
            # relative rounding error of the lower precision
            u = zval(Fraction(1, 2 ** int(name[5:])))
            x = a[0]
            self.defs += [v - x <= u * z3.If(x >= 0, x, -x), x - v <= u * z3.If(x >= 0, x, -x)]
        return v


def _root_of_rec(n):
    s = T.Ctx.table.get(("sqrt", (n.args[0],)))
    return T.Ctx.table.get(("rec", (s,))) if s is not None else None


def _check(solver, *extra, timeout=None):
    if timeout is not None:
        solver.set("timeout", int(timeout * 1000))
    t0 = time.time()
    try:
        r = solver.check(*extra)
    except z3.Z3Exception:
        r = z3.unknown
    STATS.q(r, time.time() - t0)
    return r


def poly_solver():
    return z3.Tactic("qfnra-nlsat").solver()


def est(n, cut, memo, limit=1 << 40):
    """upper bound of the number of monomials of n over atoms/cut nodes"""
    for x in T.topo([n]):
        if x in memo:
            continue
        if x in cut or x.op in ATOMS or x.op == "v" or x.op == "c":
            memo[x] = 1
        elif x.op == "+":
            memo[x] = min(limit, sum(memo[k] for k, _ in x.args[1]) + (1 if x.args[0] else 0))
        elif x.op == "*":
            r = 1
            for k, e in x.args:
                b = memo[k]
                r *= math.comb(b + e - 1, e) if b < 10**6 else b**e
                if r > limit:
                    r = limit
                    break
            memo[x] = r
        else:
            memo[x] = 1
    return memo[n]


MONO_LIMIT = 3_000_000


def poly_identity(a, b, cut=(), timeout=20, limit=MONO_LIMIT):
    """True iff nlsat shows a == b with atoms (and cut nodes) as free variables"""
    if a is b:
        return True
    cut = set(cut) - {a, b}
    memo = {}
    if est(a, cut, memo) + est(b, cut, memo) > limit:
        return None
    e = Enc(cut)
    s = poly_solver()
    s.add(e(a) != e(b))
    r = _check(s, timeout=timeout)
    if r == z3.unsat:
        return True
    if r == z3.sat:
        return False
    return None


def _subs(n):
    return set(T.topo([n]))


def _levels(root):
    """smallest number of '+' nodes between the root and each '+' node"""
    lev = {root: 0}
    todo = [root]
    while todo:
        nxt = []
        for n in todo:
            if n.op in ATOMS and n is not root:
                continue
            for k in T.children(n):
                l = lev[n] + (1 if k.op == "+" else 0)
                if k not in lev or l < lev[k]:
                    lev[k] = l
                    nxt.append(k)
        todo = nxt
    return lev


_FIELD = (1 << 61) - 1


def _poly_part(roots):
    """the nodes that the roots are polynomials of, children first"""
    out, seen, stack = [], set(), [(r, False) for r in roots]
    while stack:
        n, done = stack.pop()
        if done:
            out.append(n)
            continue
        if n in seen:
            continue
        seen.add(n)
        stack.append((n, True))
        if n.op in "+*":
            stack.extend((k, False) for k in T.children(n) if k not in seen)
        elif n.op == "rec":
            rs = _root_of_rec(n)
            if rs is not None:
                stack.append((rs, False))
    return out


def _value(order, cut):
    """the roots' polynomials at a random point of a prime field"""
    m = {}
    for n in order:
        if n in cut or n.op not in "+*c":
            rs = _root_of_rec(n) if n.op == "rec" and n not in cut else None
            m[n] = m[rs] * m[rs] % _FIELD if rs is not None else hash((n.id, 0x51ED)) * 0x9E3779B97F4A7C15 % _FIELD
        elif n.op == "c":
            m[n] = n.args.numerator % _FIELD * pow(n.args.denominator, -1, _FIELD) % _FIELD
        elif n.op == "+":
            v = Fraction(n.args[0])
            t = v.numerator * pow(v.denominator, -1, _FIELD) if v.denominator != 1 else v.numerator
            for k, c in n.args[1]:
                t += m[k] * (c.numerator if c.denominator == 1 else c.numerator * pow(c.denominator, -1, _FIELD))
            m[n] = t % _FIELD
        else:
            t = 1
            for k, e in n.args:
                t = t * (m[k] if e == 1 else pow(m[k], e, _FIELD)) % _FIELD
            m[n] = t
    return m


def choose_cut(a, b):
    """shared sums that can be variables without losing the identity (judged at a random point; the
    solver decides afterwards); None when a and b differ as polynomials of their atoms"""
    order = _poly_part([a, b])
    m = _value(order, ())
    if m[a] != m[b]:
        return None
    inb = set(_poly_part([b]))
    cand = [x for x in _poly_part([a]) if x.op == "+" and x in inb and x is not a and x is not b]
    cand.reverse()
    cut = set()
    budget = [4_000_000]

    def add(c):
        if not c or budget[0] <= 0:
            return
        budget[0] -= len(order)
        m = _value(order, cut | set(c))
        if m[a] == m[b]:
            cut.update(c)
        elif len(c) > 1:
            h = len(c) // 2
            add(c[:h])
            add(c[h:])

    add(cand)
    return cut


def identical(a, b, timeout=20, limit=None):
    """polynomial identity; sums occurring on both sides are first abstracted by
    variables, then expanded level by level down to the atoms"""
    if a is b:
        return True
    if a.fp != b.fp:
        return False
    limit = limit or MONO_LIMIT
    cut = choose_cut(a, b)
    if cut is None:
        return False
    if poly_identity(a, b, cut, timeout, limit) is True:
        return True
    la, lb = _levels(a), _levels(b)
    shared = {x: min(la[x], lb[x]) for x in la if x in lb and x.op == "+"}
    last = None
    top = max(shared.values(), default=0)
    prev = None
    for d in range(0, top + 1):
        cut = frozenset(x for x, l in shared.items() if l > d)
        if cut == prev:
            continue
        prev = cut
        r = poly_identity(a, b, cut, timeout, limit)
        if r is True:
            return True
        last = r
        if r is None:
            return None
    if not shared or prev:
        last = poly_identity(a, b, (), timeout, limit)
    return last


class Sweeper:
    """bottom-up merging of provably equal nodes"""

    def __init__(self, deadline=None, factor=False):
        self.factor = factor
        self.rep = {}  # node -> representative (memo of rebuild)
        self.byfp = {}
        self.bymant = {}
        self.merged = 0
        self.tried = set()
        self.deadline = deadline

    def run(self, roots):
        for n in T.topo(roots):
            if n in self.rep:
                continue
            r = T._re1(n, self.rep)
            # constructing r may create new sub-nodes; register only r
            r = self._canon(self._factor(r) if self.factor else r)
            self.rep[n] = r
        return [self.rep[r] for r in roots]

    def _factor(self, r):
        """pull the factors shared by all the terms out of a sum"""
        if r.op != "+" or r.args[0] != 0 or len(r.args[1]) < 2:
            return r
        com = None
        fs = []
        for k, v in r.args[1]:
            f = dict(k.args) if k.op == "*" else {k: 1}
            fs.append((f, v))
            if com is None:
                com = dict(f)
            else:
                com = {x: min(e, f[x]) for x, e in com.items() if x in f}
            if not com:
                return r
        inner = []
        for f, v in fs:
            m = T.ONE
            for x, e in f.items():
                e -= com.get(x, 0)
                if e:
                    m = T.mul(m, T.power(x, e))
            inner.append(T.scale(m, v))
        out = self._canon(T.addn(inner))
        for x, e in com.items():
            out = T.mul(out, T.power(x, e))
        return out

    def _canon(self, r):
        if r.op in ("c", "v", "bv", "true", "false"):
            return r
        lst = self.byfp.setdefault(r.fp, [])
        for q in lst:
            if q is r:
                return r
        if self.deadline and time.time() > self.deadline:
            lst.append(r)
            return r
        for q in lst:
            if self._same(q, r):
                self.merged += 1
                return q
        if r.op == "+":
            q = self._multiple(r)
            if q is not None:
                self.merged += 1
                return q
        lst.append(r)
        return r

    def _multiple(self, r):
        """a representative that equals r up to a power of two or a sign"""
        m = abs(r.hp)
        f = float(m)
        if not (1e-200 < f < 1e200):
            return None
        key = T.hkey(m / Decimal(2) ** math.floor(math.log2(f)))
        lst = self.bymant.setdefault(key, [])
        for q in lst:
            if q.fp == r.fp:
                continue
            k = Fraction(2) ** round(math.log2(float(abs(r.hp / q.hp))))
            if r.hp * q.hp < 0:
                k = -k
            if identical(T.scale(q, k), r, 10, 300_000) is True:
                return T.scale(q, k)
        lst.append(r)
        return None

    def _same(self, q, r):
        if q.isbool != r.isbool:
            return False
        if q.op in "+*" or r.op in "+*":
            if q.isbool:
                return False
            return identical(q, r, 10, 300_000) is True
        if q.op != r.op:
            if not q.isbool and q.op in ATOMS and r.op in ATOMS:
                return False
            return False
        ka, kb = T.children(q), T.children(r)
        if len(ka) != len(kb):
            return False
        if q.op == "fn" and q.args[:2] != r.args[:2]:
            return False
        if q.op in ("lt", "le", "eq"):
            return identical(q.args[1] - q.args[0], r.args[1] - r.args[0], 10) is True
        if q.op == "max" or q.op == "and":
            ka = sorted(ka, key=lambda k: k.fp)
            kb = sorted(kb, key=lambda k: k.fp)
        if q.op == "abs":
            x, y = ka[0], kb[0]
            return identical(x, y, 10) is True or identical(x, -y, 10) is True
        for x, y in zip(ka, kb):
            if x is y:
                continue
            if x.isbool:
                return False
            if identical(x, y, 10) is not True:
                return False
        return True


# ------------------------------------------------------------ clearing denominators
class TooBig(Exception):
    pass


def clear(n, memo, is_zero=lambda x: False):
    """n == num/den with den a product {base: exponent}; bases are assumed != 0"""
    for x in T.topo([n]):
        if x in memo:
            continue
        op = x.op
        if op == "rec":
            memo[x] = _clear_rec(x, memo)
        elif op == "*":
            num, den = T.ONE, {}
            for k, e in x.args:
                kn, kd = memo[k]
                num = T.mul(num, T.power(kn, e))
                for b, f in kd.items():
                    den[b] = den.get(b, 0) + e * f
            memo[x] = _cancel(num, den)
        elif op == "+":
            c, t = x.args
            den = {}
            for k, _ in t:
                for b, f in memo[k][1].items():
                    den[b] = max(den.get(b, 0), f)
            parts = []
            if c:
                parts.append(T.scale(_prod(den), c))
            for k, v in t:
                kn, kd = memo[k]
                co = {b: f - kd.get(b, 0) for b, f in den.items()}
                parts.append(T.scale(T.mul(kn, _prod(co)), v))
            memo[x] = _cancel(T.addn(parts), den)
        else:
            memo[x] = (x, {})
    return memo[n]


def _clear_rec(x, memo):
    base = x.args[0]
    bn, bd = memo[base] if base in memo else clear(base, memo)
    # 1/(bn/bd) = bd/bn
    num = _prod(bd)
    if bn.op == "c":
        return (T.scale(num, 1 / bn.args), {})
    c, core = T._prim(bn)
    den = {}
    if core.op == "*":
        for k, e in core.args:
            den[k] = den.get(k, 0) + e
    else:
        den[core] = 1
    return _cancel(T.scale(num, 1 / c), den)


def _prod(d):
    r = T.ONE
    for k, e in d.items():
        if e:
            r = T.mul(r, T.power(k, e))
    return r


def _cancel(num, den):
    """cancel syntactic common factors"""
    c, core = T._prim(num)
    if core.op != "*" and core not in den:
        return num, den
    items = dict(core.args) if core.op == "*" else {core: 1}
    den = dict(den)
    hit = False
    for k in list(items):
        if k in den:
            m = min(items[k], den[k])
            items[k] -= m
            den[k] -= m
            if not den[k]:
                del den[k]
            hit = True
    if not hit:
        return num, den
    return T.scale(_prod(items), c), den


def reduce_sqrt(n, limit=4000):
    """n as {frozenset(sqrt atoms): coefficient}; n == sum coef * prod(atoms)"""
    memo = {}
    for x in T.topo([n]):
        if x.op == "+":
            acc = {}
            c, t = x.args
            if c:
                acc[frozenset()] = [T.const(c)]
            for k, v in t:
                for s, co in memo[k].items():
                    acc.setdefault(s, []).append(T.scale(co, v))
            memo[x] = {s: T.addn(l) for s, l in acc.items()}
        elif x.op == "*":
            cur = {frozenset(): T.ONE}
            for k, e in x.args:
                for _ in range(e):
                    nxt = {}
                    for s, co in cur.items():
                        for s2, co2 in memo[k].items():
                            p = T.mul(co, co2)
                            for a in s & s2:
                                p = T.mul(p, a.args[0] if a.op == "sqrt" else T.mul(a.args[0], a.args[0]))
                            nxt.setdefault(s ^ s2, []).append(p)
                    cur = {s: T.addn(l) for s, l in nxt.items()}
                    if len(cur) > limit:
                        raise TooBig()
            memo[x] = cur
        elif x.op in ("sqrt", "abs"):
            memo[x] = {frozenset([x]): T.ONE}
        else:
            memo[x] = {frozenset(): x}
    return memo[n]


def cleared_zero(d, timeout=20, rounds=4):
    """decide d == 0 modulo x*rec(x)=1, sqrt(x)^2=x"""
    todo = [d]
    for _ in range(rounds):
        nxt = []
        for x in todo:
            num, den = clear(x, {})
            if num.op == "c":
                if num.args != 0:
                    return False
                continue
            parts = reduce_sqrt(num)
            for p in parts.values():
                r = poly_identity(p, T.ZERO, (), timeout)
                if r is True:
                    continue
                # new reciprocals may have appeared from sqrt bases
                if any(y.op == "rec" for y in T.topo([p])) or r is None:
                    nxt.append(p)
                else:
                    return False
        if not nxt:
            return True
        todo = nxt
    return None


# ------------------------------------------------------------ evaluation
def evaluate(roots, env):
    """float values of nodes under {var node: value}"""
    m = {}
    for x in T.topo(roots):
        op = x.op
        try:
            if op == "c":
                v = float(x.args)
            elif op in ("v", "bv"):
                v = env.get(x, x.val)
            elif op == "+":
                v = float(x.args[0])
                for k, c in x.args[1]:
                    v += float(c) * m[k]
            elif op == "*":
                v = 1.0
                for k, e in x.args:
                    v *= m[k] ** e
            elif op == "rec":
                v = 1.0 / m[x.args[0]]
            elif op == "sqrt":
                q = m[x.args[0]]
                v = math.sqrt(q) if q >= 0 else (0.0 if q > -1e-12 else float("nan"))
            elif op == "abs":
                v = abs(m[x.args[0]])
            elif op == "max":
                v = max(m[x.args[0]], m[x.args[1]])
            elif op == "ite":
                v = m[x.args[1]] if m[x.args[0]] else m[x.args[2]]
            elif op == "fn":
                v = _fnval(x, [m[k] for k in x.args[2:]])
            elif op == "lt":
                v = m[x.args[0]] < m[x.args[1]]
            elif op == "le":
                v = m[x.args[0]] <= m[x.args[1]]
            elif op == "eq":
                v = abs(m[x.args[0]] - m[x.args[1]]) < 1e-12
            elif op == "not":
                v = not m[x.args[0]]
            elif op == "and":
                v = all(m[k] for k in x.args)
            elif op == "true":
                v = True
            else:
                v = False
        except (ZeroDivisionError, OverflowError, ValueError):
            v = float("nan")
        m[x] = v
    return m


_FN = {
    "exp": math.exp,
    "log": math.log,
    "sigmoid": lambda x: 1 / (1 + math.exp(-x)) if x > -700 else 0.0,
    "tanh": math.tanh,
    "sin": math.sin,
    "cos": math.cos,
    "atan2": math.atan2,
    "rpow": lambda a, b: abs(a) ** b,
}


def _fnval(x, a):
    f = _FN.get(x.args[0])
    if f is not None:
        return f(*a)
    if x.args[0].startswith("round"):
        return a[0]
    return x.val  # opaque


# ------------------------------------------------------------ models
def frac_of(m, v):
    r = m.eval(v, model_completion=True)
    if z3.is_algebraic_value(r):
        r = r.approx(20)
    try:
        return Fraction(r.numerator_as_long(), r.denominator_as_long())
    except Exception:
        return None


def shallow_query(goal_neg, depth, timeout):
    """satisfiability of goal_neg with everything below `depth` abstracted to
    unconstrained values (non-negative where the term is, syntactically): only
    `unsat` means something"""
    level = {goal_neg: 0}
    queue = [goal_neg]
    cut = set()
    for n in queue:
        if level[n] >= depth and not n.isbool and n.op != "c":
            cut.add(n)
            continue
        for k in T.children(n):
            if k not in level:
                level[k] = level[n] + 1
                queue.append(k)
    e = Enc(cut, define=True)
    f = e(goal_neg)
    s = z3.Solver()
    for n, v in e.vars.items():
        if n in cut and T.nonneg(n):
            s.add(v >= 0)
    s.add(*e.defs)
    s.add(f)
    return _check(s, timeout=timeout)


def linear_query(goal_neg, facts, timeout=10):
    """goal and facts with every product and atom as a variable: an unsatisfiable
    linear problem proves the goal"""
    order = T.topo([goal_neg] + list(facts))
    if len(order) > 40000:
        return z3.unknown
    e = Enc({x for x in order if x.op == "*"})
    s = z3.SolverFor("QF_LRA")
    s.add(e(goal_neg), *[e(x) for x in facts])
    return _check(s, timeout=timeout)


def full_query(goal_neg, facts, free, timeout=20, keep=None):
    """satisfiability of facts & goal_neg with full atom definitions.
    goal_neg, facts: Boolean term nodes. Returns (result, {var: Fraction})"""
    memo = {}
    order = T.topo([goal_neg] + list(facts))
    if len(order) > 4000:
        return z3.unknown, None
    tot = 0
    for x in order:
        if x.op == "+" or x.op == "*":
            tot += est(x, (), memo)
            if tot > 400_000:
                return z3.unknown, None
    e = Enc((), define=True)
    f = [e(goal_neg)] + [e(x) for x in facts]
    s = z3.Solver()
    s.add(*e.defs)
    s.add(*f)
    r = _check(s, timeout=timeout)
    if r == z3.sat:
        m = s.model()
        return r, {n: frac_of(m, v) for n, v in e.vars.items() if n.op == "v"}
    return r, None
