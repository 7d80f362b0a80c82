"""Running one property check: symbolic jobs, solver ladder, replay, evidence."""
import argparse
import fnmatch
import hashlib
import importlib
import json
import math
import os
import pickle
import random
import signal
import sys
import time
import traceback
import zlib
from fractions import Fraction

os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("MKL_NUM_THREADS", "1")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.dont_write_bytecode = True
if REPO not in sys.path:
    sys.path.insert(0, REPO)

import numpy as np  # noqa: E402
import torch  # noqa: E402

torch.set_num_threads(1)
torch.set_default_dtype(torch.float64)

from . import ops as O  # noqa: E402
from . import solve as S  # noqa: E402
from . import term as T  # noqa: E402
from .shadow import rng_id, EncodingError, Shadow, Unsupported, _lift_np, omap, RANDOM, is_cplx  # noqa: E402
from .term import Cx, Node  # noqa: E402
from torch.utils._python_dispatch import TorchDispatchMode  # noqa: E402


def numeric(a):
    """a tensor, an array of numbers or terms, or a number (what the code under test returned)"""
    if isinstance(a, torch.Tensor):
        return True
    if a is None or isinstance(a, (str, bytes)):
        return False
    try:
        return np.asarray(a).dtype.kind in "biufcO" and not callable(a)
    except Exception:  # noqa: BLE001
        return False


class Stop(Exception):
    pass


class Violated(Exception):
    """raised by a check where the code under test did not do what it must"""


class Goal:
    __slots__ = ("label", "kind", "a", "b", "tol")

    def __init__(self, label, kind, a, b, tol):
        self.label, self.kind, self.a, self.b, self.tol = label, kind, a, b, tol


class Base:
    symbolic = False

    def __init__(self, seed, cfg):
        self.cfg = cfg
        self.rng = random.Random(seed)
        self.info = {}
        self.extra = {}
        f = os.environ.get("VERIF_LAYOUT")
        self.strided = int(f) if f else zlib.crc32(cfg["name"].encode()) % 3

    def layout(self, t):
        """in half of the configurations inputs are views of permuted, interleaved memory: what a
        function computes does not depend on how its arguments are laid out"""
        if not self.strided or t.ndim == 0:
            return t
        if self.strided == 2:
            return torch.conj(t.conj().resolve_conj()) if t.is_complex() else t
        d = tuple(range(t.ndim))[::-1]
        u = t.permute(d).contiguous()
        return torch.stack((u, u), dim=-1)[..., 0].permute(d)

    def _seedval(self, name, lo, hi):
        """a dyadic rational, reproducible per name"""
        h = int(hashlib.sha256(f"{self.seed}:{name}".encode()).hexdigest()[:12], 16)
        n = 64
        k = h % (int((hi - lo) * n) + 1)
        v = Fraction(int(math.floor(lo * n)) + k, n)
        if v == 0:
            v = Fraction(3, n) if hi > 0 else Fraction(-3, n)
        return v


class SymCtx(Base):
    symbolic = True

    def __init__(self, seed, cfg, values=None):
        super().__init__(seed, cfg)
        self.seed = seed
        self.sh = Shadow()
        self.goals = []
        self.assumptions = []
        self.boxes = {}
        self.values = values or {}  # name -> Fraction overriding the seed
        self.names = []
        self.randoms = []  # terms of the random tensors drawn so far
        self.sh.on_random = self._on_random

    def _on_random(self, tag, name, o, arr):
        self.randoms.append(arr)
        return arr

    def reseed(self):
        """restart the random source: the next draws repeat the first ones"""
        torch.manual_seed(self.seed)

    # inputs
    def _var(self, name, lo, hi, seed_lo=None, seed_hi=None):
        v = self.values.get(name)
        if v is None:
            v = self._seedval(name, -2 if lo is None else lo, 2 if hi is None else hi)
        n = T.var(name, float(v))
        if name not in self.boxes:
            self.boxes[name] = (lo, hi)
            self.names.append(name)
            if lo is not None:
                self.assumptions.append(T.le(T.const(lo), n))
            if hi is not None:
                self.assumptions.append(T.le(n, T.const(hi)))
        return n

    def real(self, name, shape, lo=None, hi=None, dtype=torch.float64):
        a = np.empty(shape, dtype=object)
        for i in np.ndindex(*shape):
            a[i] = self._var(f"{name}[{','.join(map(str, i))}]", lo, hi)
        return self.layout(self.tensor(a, dtype))

    def cpx(self, name, shape, dtype=torch.complex128, box=None):
        lo, hi = (None, None) if box is None else (-box, box)
        a = np.empty(shape, dtype=object)
        for i in np.ndindex(*shape):
            s = f"[{','.join(map(str, i))}]"
            a[i] = Cx(self._var(name + "r" + s, lo, hi), self._var(name + "i" + s, lo, hi))
        return self.layout(self.tensor(a, dtype))

    def tensor(self, a, dtype=None):
        """tensor holding the given terms"""
        a = np.asarray(a, dtype=object)
        if dtype is None:
            dtype = torch.complex128 if any(isinstance(x, Cx) for x in a.reshape(-1)) else torch.float64
        v = np.empty(a.shape, dtype=complex)
        for i in np.ndindex(*a.shape):
            v[i] = complex(a[i].val)
        t = torch.from_numpy(v.copy())
        with torch._C._DisableTorchDispatch():
            t = t.to(dtype) if dtype.is_complex else t.real.to(dtype).contiguous()
            t = t.clone()
        self.sh.new_input(t, a)
        return t

    def arr(self, t):
        if isinstance(t, torch.Tensor):
            return self.sh.terms(t)
        a = np.asarray(t)
        return a if a.dtype == object else _lift_np(a)

    def consts(self, a):
        return _lift_np(np.asarray(a))

    # obligations
    def eq(self, label, a, b, tol=1e-6):
        if not numeric(a):
            self.fail(label, f"got {type(a).__name__}, expected numbers")
            return
        a, b = self.arr(a), self.arr(b)
        if a.shape != b.shape:
            if a.ndim == 0 or b.ndim == 0 or a.size == 1 and b.size == 1:
                a, b = np.broadcast_arrays(a, b)
            else:
                self.fail(label, f"shape {a.shape} instead of {b.shape}")
                return
        for i in np.ndindex(*a.shape):
            x, y = a[i], b[i]
            s = label + (f"[{','.join(map(str, i))}]" if i else "")
            if isinstance(x, Cx) or isinstance(y, Cx):
                x, y = T.cx(x), T.cx(y)
                self.goals.append(Goal(s + ".re", "eq", x.real, y.real, tol))
                self.goals.append(Goal(s + ".im", "eq", x.imag, y.imag, tol))
            else:
                self.goals.append(Goal(s, "eq", _n(x), _n(y), tol))

    def near(self, label, a, b, tol=1e-9):
        """|a-b| <= tol for every input in the declared boxes (rounded constants)"""
        n0 = len(self.goals)
        self.eq(label, a, b, tol)
        for g in self.goals[n0:]:
            if g.kind == "eq":
                g.kind = "near"

    def true(self, label, c, tol=0):
        """Boolean obligation"""
        if isinstance(c, (bool, np.bool_)):
            if not c:
                self.fail(label, "is false")
            else:
                self.goals.append(Goal(label, "bool", T.TRUE, None, tol))
            return
        self.goals.append(Goal(label, "bool", c, None, tol))

    def le(self, label, a, b, tol=1e-9):
        a, b = np.broadcast_arrays(self.arr(a), self.arr(b))
        for i in np.ndindex(*a.shape):
            s = label + (f"[{','.join(map(str, i))}]" if i else "")
            self.goals.append(Goal(s, "bool", T.le(_re(a[i]), _re(b[i])), None, tol))

    def lt(self, label, a, b, tol=1e-9):
        a, b = np.broadcast_arrays(self.arr(a), self.arr(b))
        for i in np.ndindex(*a.shape):
            s = label + (f"[{','.join(map(str, i))}]" if i else "")
            self.goals.append(Goal(s, "bool", T.lt(_re(a[i]), _re(b[i])), None, tol))

    def same(self, label, a, b):
        """equality of plain Python values (sizes, names, flags)"""
        if a == b:
            self.goals.append(Goal(label, "bool", T.TRUE, None, 0))
        else:
            self.fail(label, f"got {a!r}, expected {b!r}")

    def fail(self, label, why):
        self.goals.append(Goal(label + ": " + why, "bool", T.FALSE, None, 0))

    def assume(self, c):
        if c is T.TRUE:
            return
        self.assumptions.append(c)
        if not c.val:
            raise Stop("seed does not satisfy an assumption")

    def raises(self, label, exc, f):
        try:
            f()
        except exc:
            self.goals.append(Goal(label, "bool", T.TRUE, None, 0))
            return
        self.fail(label, f"no {getattr(exc, '__name__', exc)} raised")


def _n(x):
    if isinstance(x, Node) and x.isbool:
        return T.ite(x, T.ONE, T.ZERO)
    return T.lift(x)


def _re(x):
    return x.real if isinstance(x, Cx) else x


class Feeder(TorchDispatchMode):
    """replay: random sources return the values of the counterexample"""

    def __init__(self, values, log=None):
        super().__init__()
        self.values = values
        self.log = [] if log is None else log

    def __torch_dispatch__(self, func, types, args=(), kwargs=None):
        state = rng_id(kwargs) if func._schema.name.split("::")[1] in RANDOM else None
        out = func(*args, **(kwargs or {}))
        name = func._schema.name.split("::")[1]
        if name in RANDOM and name not in ("native_dropout", "bernoulli", "bernoulli_", "randperm", "randint", "multinomial"):
            o = out[0] if isinstance(out, (tuple, list)) else out
            if o.dtype.is_floating_point or is_cplx(o):
                tag = f"{state}s{'x'.join(map(str, o.shape))}"
                if o.dtype not in (torch.float64, torch.complex128):
                    tag += str(o.dtype)[6:]
                flat = o.detach().reshape(-1).clone()
                for i in range(flat.numel()):
                    if is_cplx(o):
                        r = self.values.get(f"rnd{tag}_{i}r")
                        m = self.values.get(f"rnd{tag}_{i}i")
                        if r is not None:
                            flat[i] = complex(float(r), float(m if m is not None else 0))
                    else:
                        r = self.values.get(f"rnd{tag}_{i}")
                        if r is not None:
                            flat[i] = float(r)
                o.detach().copy_(flat.reshape(o.shape))
                self.log.append(o.detach().numpy().copy())
        return out


class ConCtx(Base):
    """the same check on plain numbers and the unmodified code"""

    def __init__(self, seed, cfg, values=None):
        super().__init__(seed, cfg)
        self.seed = seed
        self.values = values or {}
        self.bad = []
        self.n = 0
        self.jitter = 0.0
        self.pairs = {}
        self.randoms = []
        self.feeder = None

    def reseed(self):
        torch.manual_seed(self.seed)

    def _val(self, name, lo, hi):
        v = self.values.get(name)
        if v is None:
            v = self._seedval(name, -2 if lo is None else lo, 2 if hi is None else hi)
        v = float(v)
        if self.jitter:
            v *= 1 + self.jitter * (1 if zlib.crc32(name.encode()) & 16 else -1)
            v = v if lo is None else max(v, float(lo))
            v = v if hi is None else min(v, float(hi))
        return v

    def real(self, name, shape, lo=None, hi=None, dtype=torch.float64):
        a = np.empty(shape)
        for i in np.ndindex(*shape):
            a[i] = self._val(f"{name}[{','.join(map(str, i))}]", lo, hi)
        return self.layout(torch.from_numpy(a).to(dtype).clone())

    def cpx(self, name, shape, dtype=torch.complex128, box=None):
        lo, hi = (None, None) if box is None else (-box, box)
        a = np.empty(shape, dtype=complex)
        for i in np.ndindex(*shape):
            s = f"[{','.join(map(str, i))}]"
            a[i] = complex(self._val(name + "r" + s, lo, hi), self._val(name + "i" + s, lo, hi))
        return self.layout(torch.from_numpy(a).to(dtype).clone())

    def tensor(self, a, dtype=None):
        a = np.asarray(a)
        if a.dtype == object:
            a = a.astype(complex if any(isinstance(x, complex) for x in a.reshape(-1)) else float)
        t = torch.from_numpy(np.array(a))
        return t.to(dtype) if dtype is not None else t

    def arr(self, t):
        if isinstance(t, torch.Tensor):
            return t.detach().resolve_conj().resolve_neg().numpy().copy()
        return np.asarray(t)

    def consts(self, a):
        return np.asarray(a)

    def eq(self, label, a, b, tol=1e-6):
        if not numeric(a):
            self.bad.append((label, f"got {type(a).__name__}, expected numbers"))
            return
        a, b = self.arr(a), self.arr(b)
        if a.shape != b.shape and not (a.ndim == 0 or b.ndim == 0 or a.size == 1 and b.size == 1):
            self.bad.append((label, f"shape {a.shape} instead of {b.shape}"))
            return
        a, b = np.broadcast_arrays(a, b)
        self.n += a.size
        for i in np.ndindex(*a.shape):
            x, y = complex(a[i]), complex(b[i])
            s = max(1.0, abs(x), abs(y)) if tol >= 1e-7 else 1.0
            d = abs(x - y)
            self.pairs[label + f"{list(i)}"] = (x, y)
            if not (d <= tol * s):
                self.bad.append((label + f"{list(i)}", f"got {x:.12g}, expected {y:.12g}"))

    near = eq

    def true(self, label, c, tol=0):
        self.n += 1
        if not bool(c):
            self.bad.append((label, "is false"))

    def le(self, label, a, b, tol=1e-9):
        a, b = np.broadcast_arrays(self.arr(a), self.arr(b))
        for i in np.ndindex(*a.shape):
            self.n += 1
            x, y = complex(a[i]).real, complex(b[i]).real
            if not (x <= y + tol * max(1, abs(x), abs(y))):
                self.bad.append((label + f"{list(i)}", f"{x:.12g} > {y:.12g}"))

    lt = le

    def same(self, label, a, b):
        self.n += 1
        if not a == b:
            self.bad.append((label, f"got {a!r}, expected {b!r}"))

    def fail(self, label, why):
        self.bad.append((label, why))

    def assume(self, c):
        if not bool(c):
            raise Stop("assumption not met")

    def raises(self, label, exc, f):
        self.n += 1
        try:
            f()
        except exc:
            return
        self.bad.append((label, f"no {getattr(exc, '__name__', exc)} raised"))


# ------------------------------------------------------------------ tracing
class FnTrace:
    """names of the torchiva functions a job executed"""

    def __init__(self):
        self.names = set()
        self.root = os.path.join(REPO, "torchiva")

    def __enter__(self):
        sys.setprofile(self._cb)
        return self

    def __exit__(self, *a):
        sys.setprofile(None)

    def _cb(self, frame, ev, arg):
        if ev == "call":
            co = frame.f_code
            if co.co_filename.startswith(self.root):
                self.names.add(os.path.relpath(co.co_filename, REPO) + "::" + co.co_qualname)


# ------------------------------------------------------------------ replay
def replay(mod, cfg, values, seed):
    """run the check concretely on the real code; list of failures. Differences that
    rounding can explain (the results move as much when the inputs move by 1e-13,
    i.e. the configuration is too ill-conditioned for double precision) are dropped."""
    bad, why, ctx = _replay(mod, cfg, values, seed, 0.0)
    if not bad or not any(k in ctx.pairs for k, _ in bad):
        return bad, why, ctx
    _, _, c2 = _replay(mod, cfg, values, seed, 1e-13)
    keep = []
    for k, d in bad:
        p, q = ctx.pairs.get(k), c2.pairs.get(k)
        if p is not None and q is not None:
            move = max(abs(p[0] - q[0]), abs(p[1] - q[1]))
            if abs(p[0] - p[1]) <= 10 * move:
                continue
        keep.append((k, d))
    return keep, (why if keep else why or "difference within rounding"), ctx


def unusable(e, tb):
    """an exception in the check that what the code under test returned or did explains (on the
    unchanged code there is none). Names and signatures that the check itself expects are not
    of that kind: a refactoring may change them."""
    if isinstance(e, Violated):
        return True
    m = str(e)
    if isinstance(e, TypeError):
        return not (tb[-1].filename.startswith(os.path.join(VERIF, "checks")) and "argument" in m)
    if isinstance(e, AttributeError):
        return any(m.startswith(f"'{k}' object") for k in ("tuple", "list", "dict", "NoneType", "Tensor", "int", "float", "bool", "str", "function", "builtin_function_or_method"))
    if isinstance(e, np.linalg.LinAlgError):
        return False
    if isinstance(e, ValueError):
        return any(k in m for k in ("shape", "dimension", "broadcast", "mismatch", "axes", "axis", "unpack", "setting an array element"))
    return isinstance(e, IndexError)


def _replay(mod, cfg, values, seed, jitter):
    torch.manual_seed(seed)
    ctx = ConCtx(seed, cfg, values)
    ctx.jitter = jitter
    try:
        with Feeder(values, ctx.randoms) as ctx.feeder:
            mod.run(ctx, cfg)
    except Stop as e:
        return [], f"stop: {e}", ctx
    except Exception as e:  # noqa: BLE001
        tb = traceback.extract_tb(e.__traceback__)
        inside = [f for f in tb if f.filename.startswith(os.path.join(REPO, "torchiva"))]
        if not inside and unusable(e, tb):
            return [("result", f"the check cannot use what the code returned: {type(e).__name__}: {str(e)[:200]}")], None, ctx
        if not inside:
            return [], "harness: " + "".join(traceback.format_exception(e)), ctx
        f = inside[-1]
        return [("exception", f"{type(e).__name__}: {str(e)[:200]} at {os.path.relpath(f.filename, REPO)} in {f.name}")], None, ctx
    return ctx.bad, None, ctx


def warm(mod, cfg, seed):
    """earlier, unrelated use in the same process: the configuration before this one and this one
    on other values. What the library remembers of it (module-level caches) must not matter."""
    if not getattr(mod, "WARM", True):
        return
    try:
        cs = mod.configs("quick")
        names = [c["name"] for c in cs]
        i = names.index(cfg["name"]) if cfg["name"] in names else len(cs)
        for c in [cs[i - 1], cfg]:
            _replay(mod, c, {}, seed + 97, 0.0)
    except BaseException:  # noqa: BLE001
        pass


# ------------------------------------------------------------------ deciding
def _sub_consts(nodes, free, values):
    """substitute rationals for every variable not in `free`"""
    sub = {}
    for v in T.variables(nodes):
        if v not in free:
            if v.op == "bv":
                sub[v] = T.TRUE if v.val else T.FALSE
            else:
                q = values.get(v.args)
                sub[v] = T.const(q if q is not None else Fraction(v.val).limit_denominator(1 << 20))
    memo = {}
    return [T.rebuild(n, sub, memo) for n in nodes]


class Decider:
    def __init__(self, ctx, budget, seed):
        self.ctx = ctx
        self.expanded = {}
        self.deadline = time.time() + budget
        self.sh = ctx.sh
        self.seed = seed
        self.facts = list(ctx.assumptions)
        for c, v in ctx.sh.path:
            self.facts.append(c if v else T.bnot(c))
        self.facts += ctx.sh.assumed
        for x, lo, hi in ctx.sh.rnd_bounds:
            self.facts += [T.le(T.const(lo), x), T.lt(x, T.const(hi))]
        self.contracts = ctx.sh.contracts
        self.slices = {}
        self.gave_up = 0
        self.bool_gave_up = 0

    def left(self):
        return self.deadline - time.time()

    def slice_note(self, k):
        self.slices[k] = self.slices.get(k, 0) + 1

    # -------------------------------------------------------------- equalities
    def equalities(self, goals):
        """yield (goal, status, rung, candidates)"""
        res = {}
        todo = []
        for g in goals:
            if self._differs(g, g.a.val, g.b.val):
                res[g] = ("refuted", "pinned", self._pinned_model())
                self.stop = True
                return res
            if g.a is g.b:
                res[g] = ("proved", "id")
            else:
                todo.append(g)
        # all syntactically identical pairs are handed to the solver in one query
        same = [g for g in goals if g in res]
        if same:
            e = S.Enc()
            s = S.poly_solver()
            s.add(S.z3.Or([e(g.a) != e(g.b) for g in same[:2000]]))
            if S._check(s, timeout=30) != S.z3.unsat:
                for g in same:
                    del res[g]
                    todo.append(g)
        # 0. clamps that the assumptions settle
        todo = self._settle(todo)
        # 1. polynomial identities
        rest = []
        for g in todo:
            if self.left() <= 0:
                rest.append(g)
                continue
            if S.identical(g.a, g.b, 3, 20_000) is True:
                res[g] = ("proved", "poly")
            else:
                rest.append(g)
        # 2. sweeping
        if rest and any(g.a.fp == g.b.fp for g in rest) and self.left() > 0:
            first = {}
            for factor in (False, True):
                sw = S.Sweeper(deadline=time.time() + min(self.left() * 0.4, 240), factor=factor)
                roots = [x for g in rest for x in (g.a, g.b)]
                out = sw.run(roots)
                nr = []
                for k, g in enumerate(rest):
                    a, b = out[2 * k], out[2 * k + 1]
                    if self.left() > 0 and S.identical(a, b, 20) is True:
                        res[g] = ("proved", "sweep")
                    else:
                        nr.append((g,) + first.setdefault(g, (a, b)))
                rest = [x[0] for x in nr]
                if not any(g.a.fp == g.b.fp for g in rest) or self.left() <= 0:
                    break
        else:
            nr = [(g, g.a, g.b) for g in rest]
        # 3. clearing denominators
        nr2 = []
        for g, a, b in nr:
            ok = None
            if a.fp == b.fp and self.left() > 0:
                try:
                    ok = S.cleared_zero(a - b, timeout=20)
                except (S.TooBig, OverflowError, RecursionError):
                    ok = None
            if ok is True:
                res[g] = ("proved", "clear")
            else:
                nr2.append((g, a, b))
        # 4. refutation at the point of execution, then full / sliced encodings
        for g, a, b in nr2:
            res[g] = self._hard(g, a, b)
        return res

    def _settle(self, goals):
        """rewrite max(x, y) to x where an assumption says x >= y (the goals keep
        their identity; only assumptions of the form p <= q or p < q count)"""
        ineq = {}
        for f in self.ctx.assumptions:
            if f.op in ("le", "lt"):
                d = f.args[1] - f.args[0]
                ineq.setdefault(d.fp, d)
        if not ineq:
            return goals
        sub = {}
        for x in T.topo([y for g in goals for y in (g.a, g.b)]):
            if x.op != "max":
                continue
            p, q = x.args
            for u, v in ((p, q), (q, p)):
                d = ineq.get((u - v).fp)
                if d is not None and (d is u - v or S.identical(d, u - v, 10) is True):
                    sub[x] = u
                    break
        if not sub:
            return goals
        memo = {}
        # innermost first, so that nested clamps are rewritten inside the replacement too
        for x in T.topo(list(sub)):
            if x in sub:
                memo[x] = T.rebuild(sub[x], {}, memo)
            elif x not in memo:
                memo[x] = T._re1(x, memo)
        for g in goals:
            g.a, g.b = T.rebuild(g.a, {}, memo), T.rebuild(g.b, {}, memo)
        return goals

    def _differs(self, g, va, vb):
        if not (math.isfinite(va) and math.isfinite(vb)):
            return False
        if g.a.fp == g.b.fp:  # equal to 45 digits: the difference is rounding
            return False
        return abs(va - vb) > g.tol * max(1.0, abs(va), abs(vb))

    def _hard(self, g, a, b):
        if self._differs(g, g.a.val, g.b.val):
            return ("refuted", "pinned", self._pinned_model())
        # opaque contract atoms: full encoding
        neg = T.bnot(T.eq(a, b))
        facts = self._relevant([a, b])
        if a.fp == b.fp and self.gave_up >= 2:
            return ("unknown", "skipped", "agree")
        if self.left() > 0:
            r, m = S.full_query(neg, facts, None, timeout=min(10, max(1, self.left())))
            if r == S.z3.unsat:
                return ("proved", "full")
            if r == S.z3.sat:
                return ("refuted", "full", self._named(m))
        # slices
        r = self._sliced(g, a, b)
        if r[0] == "unknown" and a.fp == b.fp:
            self.gave_up += 1
            return ("unknown", r[1], "agree")
        return r

    def _relevant(self, nodes):
        """assumptions, path and contracts that mention the goal's atoms"""
        sub = set(T.topo(nodes))
        fns = {x for x in sub if x.op == "fn"}
        facts = list(self.facts)
        for c in self.contracts:
            if c.op == "c":
                continue
            if any(x in fns for x in T.topo([c])):
                facts.append(T.eq(c, T.ZERO))
        return facts

    def _named(self, m):
        return {v.args: q for v, q in (m or {}).items() if q is not None}

    def _pinned_model(self):
        return dict(self.ctx.values)

    def _sliced(self, g, a, b):
        vs = [v for v in T.variables([a, b]) if v.op == "v"]
        rng = random.Random(self.seed + 17)
        order = vs[:]
        rng.shuffle(order)
        proved_all = True
        n_ok = 0
        size = 3 if len(vs) > 3 else len(vs)
        groups = [order[i : i + size] for i in range(0, len(order), size)]
        t_end = min(self.deadline, time.time() + 45)
        for grp in groups:
            if time.time() > t_end:
                proved_all = False
                break
            st, m = self._slice1(g, a, b, grp)
            if st == "proved":
                n_ok += 1
                continue
            if st == "refuted":
                return ("refuted", "slice", m)
            # one at a time
            for v in grp:
                if time.time() > t_end:
                    proved_all = False
                    break
                st, m = self._slice1(g, a, b, [v])
                if st == "proved":
                    n_ok += 1
                elif st == "refuted":
                    return ("refuted", "slice", m)
                else:
                    proved_all = False
        # slices that all hold are evidence, not a proof: the obligation stays undecided
        return ("unknown", "slice", "agree") if proved_all else ("unknown", "slice")

    def _slice1(self, g, a, b, grp):
        a2, b2 = _sub_consts([a, b], set(grp), self.ctx.values)
        if a2 is b2:
            return "proved", None
        if a2.fp == b2.fp:
            try:
                if S.identical(a2, b2, 10) is True or S.cleared_zero(a2 - b2, timeout=10) is True:
                    return "proved", None
            except (S.TooBig, OverflowError, RecursionError):
                pass
        facts = _sub_consts(self._relevant([a, b]), set(grp), self.ctx.values)
        facts = [f for f in facts if f is not T.TRUE]
        r, m = S.full_query(T.bnot(T.eq(a2, b2)), facts, None, timeout=min(10, max(1, self.left())))
        if r == S.z3.unsat:
            return "proved", None
        if r == S.z3.sat:
            # prefer a clearly visible difference
            for t in (Fraction(1, 10), Fraction(1, 1000)):
                d = a2 - b2
                r2, m2 = S.full_query(T.lt(T.const(t), T.absv(d)), facts, None, timeout=5)
                if r2 == S.z3.sat:
                    m = m2
                    break
            vals = dict(self.ctx.values)
            vals.update(self._named(m))
            return "refuted", vals
        return "unknown", None

    # -------------------------------------------------------------- near goals
    def near(self, g):
        d = g.a - g.b
        tol = Fraction(g.tol)
        try:
            if len(self.expanded) > 400000:
                self.expanded.clear()
            p = expand(d, memo=self.expanded)
        except S.TooBig:
            return ("unknown", "lra")
        z = S.z3
        s = z.SolverFor("QF_LRA")
        terms = []
        for k, (mono, c) in enumerate(p.items()):
            if not mono:
                terms.append(S.zval(c))
                continue
            bound = Fraction(1)
            for v, e in mono:
                lo, hi = self.ctx.boxes.get(v.args, (None, None))
                if lo is None or hi is None:
                    return ("unknown", "lra-unbounded")
                bound *= Fraction(max(abs(lo), abs(hi))) ** e
            x = z.Real(f"m{k}")
            s.add(x >= S.zval(-bound), x <= S.zval(bound))
            terms.append(S.zval(c) * x)
        tot = z.Sum(terms) if terms else z.RealVal(0)
        s.add(z.Or(tot > S.zval(tol), tot < S.zval(-tol)))
        r = S._check(s, timeout=min(60, max(1, self.left())))
        if r == z.unsat:
            return ("proved", "lra")
        if r == z.sat:
            if abs(g.a.val - g.b.val) > g.tol:
                return ("refuted", "pinned", self._pinned_model())
            m = s.model()
            # monomials that are single variables give a concrete input
            vals = dict(self.ctx.values)
            for k, (mono, c) in enumerate(p.items()):
                if len(mono) == 1 and mono[0][1] == 1:
                    f = S.frac_of(m, z.Real(f"m{k}"))
                    if f is not None:
                        vals[mono[0][0].args] = f
            return ("refuted", "lra", vals)
        return ("unknown", "lra")

    # -------------------------------------------------------------- Booleans
    def boolean(self, g):
        if g.a is T.TRUE:
            return ("proved", "id")
        if g.a is T.FALSE or not g.a.val:
            return ("refuted", "pinned", self._pinned_model())
        neg = T.bnot(g.a)
        for depth in (2, 4, 6):
            if S.shallow_query(neg, depth, 3) == S.z3.unsat:
                return ("proved", "abstracted")
        if self.facts and S.linear_query(neg, self.facts) == S.z3.unsat:
            return ("proved", "linear")
        facts = self._relevant([g.a])
        r, m = S.full_query(neg, facts, None, timeout=min(20, max(1, self.left())))
        if r == S.z3.unsat:
            return ("proved", "full")
        if r == S.z3.sat:
            v = dict(self.ctx.values)
            v.update(self._named(m))
            return ("refuted", "full", v)
        # slices
        vs = [v for v in T.variables([g.a]) if v.op == "v"]
        rng = random.Random(self.seed + 5)
        rng.shuffle(vs)
        ok = True
        if self.bool_gave_up >= 3:
            return ("unknown", "skipped")
        self.bool_gave_up += 1
        for i in range(0, len(vs), 2):
            grp = set(vs[i : i + 2])
            if self.left() <= 0:
                return ("unknown", "slice")
            n2 = _sub_consts([neg] + facts, grp, self.ctx.values)
            r, m = S.full_query(n2[0], n2[1:], None, timeout=8)
            if r == S.z3.sat:
                v = dict(self.ctx.values)
                v.update(self._named(m))
                return ("refuted", "slice", v)
            if r != S.z3.unsat:
                ok = False
        return ("unknown", "slice", "agree") if ok else ("unknown", "slice")


def expand(n, limit=200000, memo=None):
    """polynomial normal form {((var, exp), ...): coef}; n must be polynomial"""
    memo = {} if memo is None else memo
    for x in T.topo([n], memo):
        if x.op == "c":
            memo[x] = {(): x.args} if x.args else {}
        elif x.op == "v":
            memo[x] = {((x, 1),): Fraction(1)}
        elif x.op == "+":
            acc = {}
            if x.args[0]:
                acc[()] = x.args[0]
            for k, c in x.args[1]:
                for m, v in memo[k].items():
                    acc[m] = acc.get(m, 0) + v * c
            memo[x] = {m: v for m, v in acc.items() if v}
        elif x.op == "*":
            cur = {(): Fraction(1)}
            for k, e in x.args:
                for _ in range(e):
                    nxt = {}
                    for m1, v1 in cur.items():
                        for m2, v2 in memo[k].items():
                            d = dict(m1)
                            for y, q in m2:
                                d[y] = d.get(y, 0) + q
                            key = tuple(sorted(d.items(), key=lambda t: t[0].id))
                            nxt[key] = nxt.get(key, 0) + v1 * v2
                    cur = {m: v for m, v in nxt.items() if v}
                    if len(cur) > limit:
                        raise S.TooBig()
            memo[x] = cur
        elif x.op == "sqrt" and x.args[0].op == "c":
            f = Fraction(math.sqrt(float(x.args[0].args)))
            memo[x] = {(): f}
        elif x.op == "rec" and not T.variables([x]):
            memo[x] = {(): Fraction(x.val)}
        else:
            raise S.TooBig()
    return memo[n]


# ------------------------------------------------------------------ jobs
def solve_path(ctx, k, timeout=8):
    """inputs that follow the path up to k and take the other side there"""
    facts = list(ctx.assumptions)
    for c, v in ctx.sh.path[:k]:
        facts.append(c if v else T.bnot(c))
    c, v = ctx.sh.path[k]
    facts.append(T.bnot(c) if v else c)
    r, m = S.full_query(facts[-1], facts[:-1], None, timeout=timeout)
    if r == S.z3.sat:
        vals = dict(ctx.values)
        vals.update({n.args: q for n, q in m.items() if q is not None})
        return r, vals
    return r, None


def probe(mod, cfg, ctx, dec, goals, seed, out):
    """obligations the solver left open: ask it for inputs that switch the
    conditions occurring in them, and run the real code on those"""
    t_end = min(dec.deadline, time.time() + 60)
    conds = []
    for x in T.topo([y for g in goals[:40] for y in (g.a, g.b) if y is not None]):
        if x.op == "max":
            conds.append(T.lt(x.args[0], x.args[1]))
        elif x.op == "ite":
            conds.append(x.args[0])
        elif x.op == "abs":
            conds.append(T.lt(x.args[0], T.ZERO))
    seen, cands = set(), []
    names = list(ctx.names)
    base = {n: ctx.values.get(n, Fraction(ctx._seedval(n, -2 if ctx.boxes[n][0] is None else ctx.boxes[n][0], 2 if ctx.boxes[n][1] is None else ctx.boxes[n][1]))) for n in names}
    free = [n for n in names if ctx.boxes[n] == (None, None)]
    for f in (Fraction(1, 4096), Fraction(1, 32), Fraction(64), Fraction(8192), Fraction(0)):
        cands.append({n: (q * f if n in free else q) for n, q in base.items()})
    rng = random.Random(seed)
    n_sat = 0
    for c in conds:
        if c in seen or c is T.TRUE or c is T.FALSE:
            continue
        seen.add(c)
        if len(seen) > 40 or time.time() > t_end:
            break
        want = T.bnot(c) if c.val else c
        vs = [v for v in T.variables([want]) if v.op == "v"]
        rng.shuffle(vs)
        m = None
        r, m0 = S.full_query(want, list(ctx.assumptions), None, timeout=2)
        if r == S.z3.sat:
            m = m0
        elif r != S.z3.unsat:
            for k in range(0, min(len(vs), 9), 3):
                w2 = _sub_consts([want], set(vs[k : k + 3]), ctx.values)[0]
                if w2 is T.TRUE or w2 is T.FALSE:
                    continue
                r, m0 = S.full_query(w2, [], None, timeout=2)
                if r == S.z3.sat:
                    m = m0
                    break
        if m is not None:
            n_sat += 1
            cands.append({**ctx.values, **{n.args: q for n, q in m.items() if q is not None}})
    n = 0
    for vals in cands[::-1]:
        if time.time() > t_end + 20:
            break
        n += 1
        bad, why, _ = replay(mod, cfg, vals, seed)
        if bad:
            return dict(cfg=cfg["name"], label=bad[0][0], detail=bad[0][1], values=_js(vals), rung="probe", seed=seed)
    out["probes"] = out.get("probes", 0) + n
    out["probe_conditions"] = out.get("probe_conditions", 0) + n_sat
    return None


def run_job(mod, cfg, seed, budget):
    """executes in a worker process"""
    t0 = time.time()
    warm(mod, cfg, seed)
    T.reset()
    O.CRAMER_MAX = cfg.get("cramer", getattr(mod, "CRAMER", 3))
    T.set_trim(getattr(mod, "TRIM", None) or cfg.get("trim") or 1 << 30)
    S.STATS.__init__()
    out = dict(name=cfg["name"], violations=[], unknown=[], proved=0, rungs={}, functions=[], error=None, goals=0, paths=0, path_complete=True, agree=[])
    fns = set()
    queue = [dict()]
    seen = set()
    first = True
    retries = 0
    max_paths = cfg.get("max_paths", 12)
    while queue and out["paths"] < max_paths:
        values = queue.pop(0)
        ctx = SymCtx(seed, cfg, values)
        T.reset()
        torch.manual_seed(seed)
        err = None
        if cfg.get("definedness"):
            T.Ctx.defined = []
        else:
            T.Ctx.defined = None
        # the conditions of clamps become assumptions: points in the region of the seed
        T.Ctx.regular = ctx.assumptions if cfg.get("regular") else None
        try:
            with FnTrace() as tr, ctx.sh:
                mod.run(ctx, cfg)
        except Stop as e:
            err = ("stop", str(e))
        except EncodingError as e:
            if first and retries < 6 and not values:
                retries += 1
                seed += 7919
                queue.append({})
                continue
            err = ("exc", str(e))
        except Exception as e:  # noqa: BLE001
            err = ("exc", "".join(traceback.format_exception(e))[-3000:])
        finally:
            T.Ctx.defined = None
            T.Ctx.regular = None
        fns |= tr.names
        if err is not None:
            bad, why, _ = replay(mod, cfg, values, seed)
            if bad:
                out["violations"].append(dict(cfg=cfg["name"], label=bad[0][0], detail=bad[0][1], values=_js(values), rung="execution", seed=seed))
            else:
                out["error"] = f"{err[0]}: {err[1]} (concrete run: {why or 'passes'})"
                # the code could not be encoded: look for a concrete counterexample
                for k in range(1, 6):
                    bad, why, _ = replay(mod, cfg, values if k == 1 else {}, seed + 1000 * k)
                    if bad:
                        out["violations"].append(dict(cfg=cfg["name"], label=bad[0][0], detail=bad[0][1], values=_js(values if k == 1 else {}), rung="execution", seed=seed + 1000 * k))
                        break
            break
        out["paths"] += 1
        sig = tuple((repr(c), c.fp, v) for c, v in ctx.sh.path)
        if sig in seen:
            continue
        seen.add(sig)
        dec = Decider(ctx, max(5, budget - (time.time() - t0)), seed)
        out["goals"] += len(ctx.goals)
        results = []
        eqs = [g for g in ctx.goals if g.kind == "eq"]
        res = dec.equalities(eqs)
        for g in eqs:
            if g in res:
                results.append((g, res[g]))
        for g in ctx.goals:
            if g.kind == "near":
                results.append((g, dec.near(g)))
            elif g.kind == "bool":
                results.append((g, dec.boolean(g)))
        nref = 0
        undecided = []
        for g, r in results:
            if r[0] == "proved":
                out["proved"] += 1
                out["rungs"][r[1]] = out["rungs"].get(r[1], 0) + 1
            elif r[0] == "refuted":
                nref += 1
                if nref > 6 and out["violations"]:
                    continue
                bad, why, _ = replay(mod, cfg, r[2], seed)
                if bad:
                    lab = [b for b in bad if b[0].split("[")[0] == g.label.split("[")[0].split(".re")[0].split(":")[0]] or bad
                    out["violations"].append(dict(cfg=cfg["name"], label=lab[0][0], detail=lab[0][1], values=_js(r[2]), rung=r[1], seed=seed))
                else:
                    undecided.append(g)
                    out["unknown"].append(f"{g.label}: counterexample of the encoding does not reproduce ({r[1]}; {why or ''}) a={g.a!r} b={g.b!r}"[:600])
            elif len(r) > 2 and r[2] == "agree":
                undecided.append(g)
                out["agree"].append(f"{g.label}: {r[1]}")
            else:
                undecided.append(g)
                out["unknown"].append(f"{g.label}: {r[1]}")
        if undecided and not out["violations"]:
            v = probe(mod, cfg, ctx, dec, undecided, seed, out)
            if v is not None:
                out["violations"].append(v)
        # non-vacuity: the seed satisfies the assumptions, and a false goal is refuted
        if first and eqs:
            g = eqs[-1]
            s = S.poly_solver()
            e = S.Enc()
            s.add(e(g.a) != e(g.a) + 1)
            out["witness"] = str(S._check(s, timeout=10))
        out["assumptions_hold_at_seed"] = all(bool(a.val) for a in ctx.assumptions)
        # other paths
        if len(ctx.sh.path) and cfg.get("explore", True):
            for k in range(len(ctx.sh.path)):
                sg = sig[:k] + ((sig[k][0], sig[k][1], not sig[k][2]),)
                if sg in seen:
                    continue
                seen.add(sg)
                r, vals = solve_path(ctx, k)
                if r == S.z3.sat:
                    queue.append(vals)
                elif r != S.z3.unsat:
                    out["path_complete"] = False
        if first:
            out["inputs"] = len(ctx.names)
            out["ops"] = dict(ctx.sh.opset)
            out["validated_cells"] = ctx.sh.n_validated
            out["worst_validation_error"] = ctx.sh.worst
            out["nodes"] = T.Ctx.count
            out["opaque"] = sorted(ctx.sh.fallback)
            out["contracts"] = len(ctx.sh.contracts)
        first = False
        if out["violations"]:
            break
    if queue:
        out["path_complete"] = False
    out["functions"] = sorted(fns)
    out["stats"] = S.STATS.as_dict()
    out["wall"] = round(time.time() - t0, 3)
    return out


def _js(v):
    return {k: f"{q.numerator}/{q.denominator}" if isinstance(q, Fraction) else q for k, q in (v or {}).items()}


def _unjs(v):
    return {k: Fraction(q) if isinstance(q, str) else q for k, q in v.items()}


def run_all(mod, jobs, seed, budget, workers, total=None):
    """fork one process per job"""
    start = time.time()

    def alloc(cfg):
        b = cfg.get("budget", budget)
        if total is not None:
            b = max(15, min(b, total - (time.time() - start)))
        return b

    results = {}
    running = {}
    pending = list(jobs)
    while pending or running:
        while pending and len(running) < workers:
            cfg = pending.pop(0)
            bud = alloc(cfg)
            r, w = os.pipe()
            sys.stdout.flush()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                os.setsid()
                try:
                    o = run_job(mod, cfg, seed, bud)
                except BaseException as e:  # noqa: BLE001
                    o = dict(name=cfg["name"], violations=[], unknown=[], error="worker: " + "".join(traceback.format_exception(e))[-3000:], functions=[], goals=0, proved=0, rungs={}, paths=0)
                try:
                    with os.fdopen(w, "wb") as f:
                        pickle.dump(o, f)
                finally:
                    os._exit(0)
            os.close(w)
            running[pid] = (cfg, r, time.time() + bud, bytearray())
        # drain
        import select

        fds = {v[1]: p for p, v in running.items()}
        rd, _, _ = select.select(list(fds), [], [], 0.2)
        for fd in rd:
            p = fds[fd]
            cfg, _, t0, buf = running[p]
            chunk = os.read(fd, 1 << 20)
            if chunk:
                buf.extend(chunk)
            else:
                os.close(fd)
                os.waitpid(p, 0)
                try:
                    results[cfg["name"]] = pickle.loads(bytes(buf))
                except Exception:
                    results[cfg["name"]] = dict(name=cfg["name"], violations=[], unknown=[], error="worker died", functions=[], goals=0, proved=0, rungs={}, paths=0)
                del running[p]
        now = time.time()
        for p in list(running):
            cfg, fd, t0, buf = running[p]
            if now - t0 > 45:
                try:
                    os.killpg(p, signal.SIGKILL)
                except ProcessLookupError:
                    pass
    return [results[j["name"]] for j in jobs]


def load_findings():
    p = os.path.join(VERIF, "known_findings.jsonl")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [json.loads(l) for l in f if l.strip()]


def known(findings, pid, v):
    for f in findings:
        if f.get("status") != "known" or f["property"] != pid:
            continue
        if fnmatch.fnmatchcase(v["cfg"], f["config"]) and fnmatch.fnmatchcase(v["label"], f["label"]) and fnmatch.fnmatchcase(v["detail"], f.get("detail", "*")):
            return f
    return None


def main(pid, modname, argv):
    ap = argparse.ArgumentParser()
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--only", default="*")
    ap.add_argument("--replay")
    ap.add_argument("--workers", type=int, default=8)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args(argv)
    t0 = time.time()
    import warnings

    warnings.filterwarnings("ignore")
    try:
        import torchiva  # noqa: F401
    except Exception as e:
        # the package cannot be imported: nothing can be decided, but no user call works either
        print(f"cannot import torchiva from {REPO}: {e!r}")
        return 3
    if not os.path.abspath(torchiva.__file__).startswith(os.path.abspath(REPO)):
        print("torchiva is not imported from", REPO)
        return 3
    mod = importlib.import_module("checks." + modname)
    if a.replay:
        with open(a.replay) as f:
            d = json.load(f)
        cfg = next(c for c in mod.configs("thorough") + mod.configs("quick") if c["name"] == d["config"])
        warm(mod, cfg, d["seed"])
        bad, why, _ = replay(mod, cfg, _unjs(d["values"]), d["seed"])
        for b in bad:
            print("FAIL", *b)
        print("reproduced" if bad else f"not reproduced {why or ''}")
        return 1 if bad else 0
    jobs = [c for c in mod.configs(a.tier) if any(fnmatch.fnmatchcase(c["name"], g) for g in a.only.split(","))]
    assert len({c["name"] for c in jobs}) == len(jobs), "duplicate config names"
    import torch._dynamo  # noqa: F401  (loaded once, before forking)
    import torch._decomp  # noqa: F401

    budget = getattr(mod, "BUDGET", {}).get(a.tier, 240 if a.tier == "quick" else 1500)
    res = run_all(mod, jobs, a.seed, budget, a.workers, 540 if a.tier == "quick" else None)
    findings = load_findings()
    viol, kn, unknown, errors, agree = [], {}, [], [], []
    for r in res:
        for v in r["violations"]:
            f = known(findings, pid, v)
            if f is not None:
                kn[f["id"]] = f
            else:
                viol.append(v)
        for u in r["unknown"]:
            f = known(findings, pid, dict(cfg=r["name"], label=u.split(":")[0], detail=u))
            if f is None:
                unknown.append(f"{r['name']}/{u}")
        agree += [f"{r['name']}/{u}" for u in r.get("agree") or []]
        if r.get("error"):
            errors.append(f"{r['name']}: {r['error']}")
    if a.v:
        for r in res:
            print(r["name"], "goals", r["goals"], "proved", r["proved"], r["rungs"], "paths", r["paths"], "wall", r.get("wall"), "in", r.get("inputs"), "nodes", r.get("nodes"), "q", (r.get("stats") or {}).get("queries"), "st", (r.get("stats") or {}).get("solver_time_s"), r.get("opaque"))
    write_evidence(pid, mod, a, res, viol, kn, unknown, errors, agree, time.time() - t0)
    for u in agree[:10]:
        print("UNDECIDED (no counterexample; both sides agree to 45 digits at a random point; outside the claim)", u)
    for f in kn.values():
        print(f"KNOWN-FINDING: property={pid} {f['what']}")
    rc = 0
    if viol:
        d = os.path.join(VERIF, "replay")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, f"{pid}.json")
        v = viol[0]
        with open(p, "w") as f:
            json.dump(dict(property=pid, config=v["cfg"], label=v["label"], detail=v["detail"], values=v["values"], seed=v.get("seed", a.seed), rung=v["rung"], others=[dict(config=x["cfg"], label=x["label"], detail=x["detail"]) for x in viol[1:20]], how=f"cd {VERIF} && /opt/venv/bin/python run.py {pid} --replay {p}"), f, indent=1)
        for v in viol[:5]:
            print(f"  {v['cfg']}: {v['label']}: {v['detail']} [{v['rung']}]")
        print(f"VIOLATION property={pid} replay={p}")
        rc = 1
    elif errors or unknown:
        # nothing refuted, but part of the obligations could not be encoded or
        # decided: they are outside the claim of this run (and in the evidence)
        for e in errors[:5]:
            print("NOT-ENCODED", e)
        for u in unknown[:10]:
            print("UNDECIDED", u)
        rc = 2 if os.environ.get("VERIF_STRICT") or all(r["proved"] == 0 for r in res) else 0
    tot = sum(r["goals"] for r in res)
    prv = sum(r["proved"] for r in res)
    print(f"{pid}: {len(res)} configurations, {tot} obligations, {prv} proved, {len(viol)} violated, {len(kn)} known findings, {len(unknown) + len(agree)} undecided, {time.time()-t0:.1f}s")
    return rc


def write_evidence(pid, mod, a, res, viol, kn, unknown, errors, agree, wall):
    rungs, verd, ops = {}, {}, {}
    fns = set()
    q = st = 0
    for r in res:
        for k, v in r["rungs"].items():
            rungs[k] = rungs.get(k, 0) + v
        s = r.get("stats") or {}
        q += s.get("queries", 0)
        st += s.get("solver_time_s", 0)
        for k, v in (s.get("verdicts") or {}).items():
            verd[k] = verd.get(k, 0) + v
        fns |= set(r["functions"])
        for k, v in (r.get("ops") or {}).items():
            ops[k] = ops.get(k, 0) + v
    ev = dict(
        property=pid,
        tier=a.tier,
        seed=a.seed,
        level="other",
        coverage=dict(
            explanation="Bounded solver-based checking: the real torchiva functions are executed on symbolic tensors (concolic, one term per scalar, every ATen result validated against torch); each obligation is decided by z3 for all real values of the symbolic inputs of the listed configurations. "
            + (mod.BOUNDS if hasattr(mod, "BOUNDS") else ""),
            configurations=[
                dict(
                    name=r["name"],
                    symbolic_inputs=r.get("inputs"),
                    obligations=r["goals"],
                    proved=r["proved"],
                    paths=r["paths"],
                    all_paths=r.get("path_complete"),
                    rungs=r["rungs"],
                    term_nodes=r.get("nodes"),
                    solver=r.get("stats"),
                    validated_cells=r.get("validated_cells"),
                    vacuity_witness=r.get("witness"),
                    wall_s=r.get("wall"),
                )
                for r in res
            ],
            obligations=sum(r["goals"] for r in res),
            discharged=sum(r["proved"] for r in res),
            solver_queries=q,
            solver_time_s=round(st, 2),
            solver_verdicts=verd,
            discharged_by_encoding=rungs,
            functions_encoded=sorted(fns),
            aten_operations=ops,
            opaque_operations=sorted({o for r in res for o in (r.get("opaque") or [])}),
            bounds=getattr(mod, "BOUNDS", ""),
            outside=getattr(mod, "OUTSIDE", ""),
            undecided=unknown[:20],
            undecided_outside_claim=agree[:50],
            errors=[e[:500] for e in errors[:5]],
            known_findings=sorted(kn),
            solver="z3 " + S.z3.get_version_string(),
        ),
        assumptions=list(getattr(mod, "ASSUMPTIONS", []))
        + [
            "scalars are mathematical reals (floating-point rounding is outside the claim; casts to a lower precision are modelled)",
            "arguments of divisions are non-zero and of square roots non-negative on the inputs considered, unless the property is about exactly that",
        ],
        wall_s=round(wall, 2),
        violations=len(viol),
    )
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, f".{pid}.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(d, f"{pid}.json"))
