"""Hash-consed DAG of real-arithmetic terms.

A term stands for a real-valued (or Boolean) function of the symbolic inputs.
Sums and products are kept flat but are never multiplied out; everything that is
not a polynomial (reciprocal, square root, max, if-then-else, uninterpreted
function) is an *atom* whose meaning is given to the solver by a definition.

Every node also carries
  val -- its value at the concrete point the concolic run uses (float), and
  hp  -- its value at a random point near the concrete one, to 120 digits, and
  fp  -- hp rounded to a hash key; only used to *guess* which terms are equal,
         each guess is then decided by the SMT solver.
"""
import decimal
import math
import random
from decimal import Decimal
from fractions import Fraction

P = (1 << 127) - 1  # modulus of the hash keys
decimal.setcontext(decimal.Context(prec=120, Emin=-(10**9), Emax=10**9, traps=[]))
_OFF = Decimal("0.3710358214736908421359711")
_TINY = Decimal("1e-70")


def hkey(x):
    """hash key of a high-precision value (45 significant digits)"""
    if not x.is_finite():
        return None
    if abs(x) < _TINY:
        return 0
    y = x * _OFF
    e = y.adjusted()
    return hash((e, int(y.scaleb(45 - e))))


def _pseudo(key):
    """a pseudo-random value in [1/2, 3/2) determined by the key"""
    return Decimal(key % P) / Decimal(P) + Decimal("0.5")
_MAXBITS = 1 << 30  # no rounding of rational constants unless set_trim()
_KEEPBITS = 300


def set_trim(bits):
    """round rational coefficients beyond `bits` (tolerance goals only)"""
    global _MAXBITS
    _MAXBITS = bits


class Ctx:
    """The intern table; one per process (reset() between jobs)."""

    table = {}
    cache = {}
    count = 0
    defined = None  # optional list collecting (kind, node) definedness facts
    regular = None  # optional list of conditions: maxima and choices follow the point of execution
    rng = random.Random(12345)


def reset():
    Ctx.table = {}
    Ctx.cache = {}
    Ctx.count = 0
    Ctx.rng = random.Random(12345)
    global ZERO, ONE, TRUE, FALSE
    ZERO = const(0)
    ONE = const(1)
    TRUE = _mk("true", (), True, 11)
    FALSE = _mk("false", (), False, 13)


def snap(x):
    """float -> exact rational. Floats within a few ulp of a simple rational
    (denominator <= 4096) are read as that rational (0.333.. -> 1/3), floats
    with a short decimal form as that decimal (1e-05 -> 1/100000)."""
    if isinstance(x, Fraction):
        return x
    if isinstance(x, bool):
        return Fraction(int(x))
    if isinstance(x, int):
        return Fraction(x)
    x = float(x)
    if not math.isfinite(x):
        raise ArithmeticError("non-finite constant")
    if x == int(x) and abs(x) < 2**53:
        return Fraction(int(x))
    f = Fraction(x)
    s = f.limit_denominator(4096)
    if abs(s - f) <= abs(f) * Fraction(1, 2**50):
        return s
    d = Fraction(repr(x))
    if len(repr(x)) <= 8:
        return d
    return f


def _trim(f):
    if f.denominator.bit_length() > _MAXBITS:
        e = _KEEPBITS - (abs(f.numerator).bit_length() - f.denominator.bit_length())
        if e > 0:
            return Fraction((f.numerator << e) // f.denominator, 1 << e)
    return f


class Node:
    __slots__ = ("op", "args", "val", "fp", "hp", "id", "isbool", "_nn")

    def __repr__(self):
        return show(self, 4)

    # arithmetic -------------------------------------------------------
    def __add__(self, o):
        if isinstance(o, Cx):
            return NotImplemented
        return add(self, lift(o))

    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, Cx):
            return NotImplemented
        return add(self, scale(lift(o), Fraction(-1)))

    def __rsub__(self, o):
        return add(lift(o), scale(self, Fraction(-1)))

    def __neg__(self):
        return scale(self, Fraction(-1))

    def __pos__(self):
        return self

    def __mul__(self, o):
        if isinstance(o, Cx):
            return NotImplemented
        return mul(self, lift(o))

    __rmul__ = __mul__

    def __truediv__(self, o):
        if isinstance(o, Cx):
            return NotImplemented
        return mul(self, rec(lift(o)))

    def __rtruediv__(self, o):
        return mul(lift(o), rec(self))

    def __pow__(self, e):
        return power(self, e)

    def conjugate(self):
        return self

    def sqrt(self):
        return sqrt(self)

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return ZERO

    def __abs__(self):
        return absv(self)

    def __bool__(self):
        raise TypeError("symbolic value used as Python bool")

    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o


class Cx:
    """complex number of terms"""

    __slots__ = ("real", "imag")

    def __init__(self, re, im):
        self.real = lift(re)
        self.imag = lift(im)

    def __repr__(self):
        return f"Cx({self.real!r}, {self.imag!r})"

    def __add__(self, o):
        o = cx(o)
        return Cx(self.real + o.real, self.imag + o.imag)

    __radd__ = __add__

    def __sub__(self, o):
        o = cx(o)
        return Cx(self.real - o.real, self.imag - o.imag)

    def __rsub__(self, o):
        o = cx(o)
        return Cx(o.real - self.real, o.imag - self.imag)

    def __neg__(self):
        return Cx(-self.real, -self.imag)

    def __mul__(self, o):
        if isinstance(o, Cx):
            a, b, c, d = self.real, self.imag, o.real, o.imag
            return Cx(a * c - b * d, a * d + b * c)
        if isinstance(o, complex):
            return self * cx(o)
        o = lift(o)
        return Cx(self.real * o, self.imag * o)

    __rmul__ = __mul__

    def __truediv__(self, o):
        if isinstance(o, (Cx, complex)):
            o = cx(o)
            if o.imag is ZERO:
                return self * rec(o.real)
            r = rec(abs2(o))
            return (self * o.conjugate()) * r
        return self * rec(lift(o))

    def __rtruediv__(self, o):
        return cx(o) / self

    def __pow__(self, e):
        if isinstance(e, (int, float)) and e == int(e) and e >= 0:
            r = Cx(ONE, ZERO)
            for _ in range(int(e)):
                r = r * self
            return r
        raise NotImplementedError("complex power")

    def conjugate(self):
        return Cx(self.real, -self.imag)

    def __abs__(self):
        return sqrt(abs2(self))

    @property
    def val(self):
        return complex(self.real.val, self.imag.val)

    def __hash__(self):
        return hash((self.real.id, self.imag.id))

    def __eq__(self, o):
        return isinstance(o, Cx) and self.real is o.real and self.imag is o.imag


def cx(o):
    if isinstance(o, Cx):
        return o
    if isinstance(o, complex):
        return Cx(const(o.real), const(o.imag))
    if hasattr(o, "dtype") and getattr(o.dtype, "kind", "") == "c":
        o = complex(o)
        return Cx(const(o.real), const(o.imag))
    return Cx(lift(o), ZERO)


def abs2(z):
    if isinstance(z, Cx):
        return z.real * z.real + z.imag * z.imag
    return z * z


def lift(o):
    if isinstance(o, Node):
        return o
    return const(o)


def _mk(op, args, val, fp, isbool=None):
    key = (op, args)
    n = Ctx.table.get(key)
    if n is not None:
        return n
    n = Node.__new__(Node)
    n.op = op
    n.args = args
    if type(val) is not float and type(val) is not bool:
        # numpy scalars
        val = bool(val) if op in ("lt", "le", "eq", "not", "and", "bv", "true", "false") else float(val)
    n.val = val
    if isinstance(fp, Decimal):
        n.hp = fp
        n.fp = hkey(fp)
        if n.fp is None:
            n.fp = -1000 - Ctx.count
    else:
        n.hp = None
        n.fp = fp
    n.id = Ctx.count
    n._nn = None
    n.isbool = isinstance(val, bool) if isbool is None else isbool
    Ctx.count += 1
    Ctx.table[key] = n
    return n


def _hfp(*parts):
    h = 1469598103934665603
    for p in parts:
        if isinstance(p, str):
            for ch in p:
                h = (h * 1099511628211 + ord(ch) + 7) % P
        else:
            h = (h * 6364136223846793005 + (p % P) * 0x9E3779B97F4A7C15F39CC0605CEDC835 + 1442695040888963407) % P
    # finaliser
    h = pow(h + 12345, 5, P)
    return h


def _flt(f):
    try:
        return float(f)
    except OverflowError:
        return math.inf if f > 0 else -math.inf


def _dec(f):
    return Decimal(f.numerator) / Decimal(f.denominator) if f.denominator != 1 else Decimal(f.numerator)


def const(x):
    f = snap(x)
    key = ("c", f)
    n = Ctx.table.get(key)
    if n is not None:
        return n
    return _mk("c", f, _flt(f), _dec(f))


def var(name, val):
    key = ("v", name)
    n = Ctx.table.get(key)
    if n is not None:
        return n
    h = _pseudo(_hfp("var", *[ord(c) for c in name])) - 1
    v = float(val)
    return _mk("v", name, v, Decimal(v) * (1 + h / 8) + (h / 64 if v == 0 else 0))


def boolvar(name, val):
    return _mk("bv", name, bool(val), _hfp("bvar", *[ord(c) for c in name]))


def isconst(n):
    return n.op == "c"


def _terms(n):
    """n as (const, {node: coef})"""
    if n.op == "c":
        return n.args, ()
    if n.op == "+":
        return n.args[0], n.args[1]
    return Fraction(0), ((n, Fraction(1)),)


def _mksum(c, d):
    items = [(k, v) for k, v in d.items() if v != 0]
    if not items:
        return const(_trim(c))
    if len(items) == 1 and c == 0 and items[0][1] == 1:
        return items[0][0]
    items = tuple(sorted(((k, _trim(v)) for k, v in items), key=lambda t: t[0].id))
    c = _trim(c)
    key = ("+", (c, items))
    n = Ctx.table.get(key)
    if n is not None:
        return n
    val = _flt(c)
    fp = _dec(c)
    for k, v in items:
        val += _flt(v) * k.val
        fp += k.hp if v == 1 else _dec(v) * k.hp
    return _mk("+", (c, items), val, fp)


def add(a, b):
    if a.op == "c":
        if a.args == 0:
            return b
        if b.op == "c":
            return const(_trim(a.args + b.args))
    elif b.op == "c" and b.args == 0:
        return a
    c1, t1 = _terms(a)
    c2, t2 = _terms(b)
    d = dict(t1)
    for k, v in t2:
        d[k] = d.get(k, 0) + v
    return _mksum(c1 + c2, d)


def addn(nodes):
    c = Fraction(0)
    d = {}
    for n in nodes:
        c2, t2 = _terms(n)
        c += c2
        for k, v in t2:
            d[k] = d.get(k, 0) + v
    return _mksum(c, d)


def scale(n, f):
    if f == 1:
        return n
    if f == 0:
        return ZERO
    if n.op == "c":
        return const(_trim(n.args * f))
    c, t = _terms(n)
    return _mksum(c * f, {k: v * f for k, v in t})


def _prim(n):
    """n = coef * core with core monic in its first term (for '+')."""
    if n.op == "+":
        c, t = n.args
        if c == 0 and len(t) == 1:
            return t[0][1], t[0][0]
        lead = t[0][1]
        if lead != 1:
            return lead, scale(n, 1 / lead)
    return Fraction(1), n


def mul(a, b):
    if a.op == "c":
        return scale(b, a.args)
    if b.op == "c":
        return scale(a, b.args)
    f = Fraction(1)
    d = {}
    for n in (a, b):
        c, core = _prim(n)
        f *= c
        if core.op == "c":
            f *= core.args
        elif core.op == "*":
            for k, e in core.args:
                d[k] = d.get(k, 0) + e
        else:
            d[core] = d.get(core, 0) + 1
    return scale(_mkprod(d), f)


def _mkprod(d):
    f = Fraction(1)
    extra = []
    for k in list(d):
        e = d.get(k, 0)
        if e == 0:
            d.pop(k, None)
            continue
        if k.op == "sqrt" and e >= 2:
            extra.extend([k.args[0]] * (e // 2))
            if e % 2:
                d[k] = 1
            else:
                del d[k]
        elif k.op == "rec" and k.args[0].op == "sqrt" and e >= 2:
            extra.extend([rec(k.args[0].args[0])] * (e // 2))
            if e % 2:
                d[k] = 1
            else:
                del d[k]
        elif k.op == "abs" and e >= 2:
            # |x|^2 = x^2
            extra.extend([mul(k.args[0], k.args[0])] * (e // 2))
            if e % 2:
                d[k] = 1
            else:
                del d[k]
    # cancel x * rec(x); sqrt(x)*rec(sqrt(x)) ; sqrt(x)*rec(x) = rec(sqrt(x))
    for k in list(d):
        if k.op == "rec" and k in d:
            base = k.args[0]
            if base in d:
                m = min(d[k], d[base])
                for q in (k, base):
                    d[q] -= m
                    if d[q] == 0:
                        del d[q]
            elif k in d and base.op != "sqrt":
                s = Ctx.table.get(("sqrt", (base,)))
                if s is not None and s in d:
                    m = min(d[k], d[s])
                    for q in (k, s):
                        d[q] -= m
                        if d[q] == 0:
                            del d[q]
                    rs = rec(s)
                    d[rs] = d.get(rs, 0) + m
                    return _fin(d, f, extra, True)
    return _fin(d, f, extra, False)


def _fin(d, f, extra, again):
    if again or extra:
        r = ONE
        for k, e in d.items():
            pass
        base = _mkprod(dict(d)) if again else _mkflat(d)
        for x in extra:
            base = mul(base, x)
        return scale(base, f)
    return scale(_mkflat(d), f)


def _mkflat(d):
    items = [(k, e) for k, e in d.items() if e]
    if not items:
        return ONE
    if len(items) == 1 and items[0][1] == 1:
        return items[0][0]
    items = tuple(sorted(items, key=lambda t: t[0].id))
    key = ("*", items)
    n = Ctx.table.get(key)
    if n is not None:
        return n
    val = 1.0
    fp = Decimal(1)
    for k, e in items:
        try:
            val *= k.val**e
        except OverflowError:
            val = float("inf")
        fp = fp * (k.hp if e == 1 else k.hp**e)
    return _mk("*", items, val, fp)


def note_defined(kind, n):
    if Ctx.defined is not None:
        Ctx.defined.append((kind, n))


def rec(n):
    if n.op == "c":
        if n.args == 0:
            raise ZeroDivisionError("division by the constant zero")
        return const(1 / n.args)
    note_defined("nz", n)
    return _rec(n)


def _rec(n):
    if n.op == "c":
        return const(1 / n.args)
    if n.op == "rec":
        return n.args[0]
    c, core = _prim(n)
    if core.op == "*":
        d = {}
        for k, e in core.args:
            r = k.args[0] if k.op == "rec" else _rec1(k)
            d[r] = d.get(r, 0) + e
        return scale(_mkprod(d), 1 / c)
    if core.op == "rec":
        return scale(core.args[0], 1 / c)
    return scale(_rec1(core), 1 / c)


def _rec1(n):
    c, core = _prim(n)
    if c != 1:
        return scale(_rec1(core), 1 / c)
    v = n.val
    try:
        val = 1.0 / v
    except ZeroDivisionError:
        val = float("inf")
    return _mk("rec", (n,), val, 1 / n.hp)


def _perfect_square(f):
    if f < 0:
        return None
    a = math.isqrt(f.numerator)
    b = math.isqrt(f.denominator)
    if a * a == f.numerator and b * b == f.denominator:
        return Fraction(a, b)
    return None


def nonneg(n):
    """syntactic: n >= 0 for all inputs"""
    if n._nn is not None:
        return n._nn
    r = False
    if n.op == "c":
        r = n.args >= 0
    elif n.op in ("sqrt", "abs"):
        r = True
    elif n.op == "rec":
        r = nonneg(n.args[0])
    elif n.op == "max":
        r = nonneg(n.args[0]) or nonneg(n.args[1])
    elif n.op == "ite":
        r = nonneg(n.args[1]) and nonneg(n.args[2])
    elif n.op == "*":
        r = all(e % 2 == 0 or nonneg(k) for k, e in n.args)
    elif n.op == "+":
        r = n.args[0] >= 0 and all(v >= 0 and nonneg(k) for k, v in n.args[1])
    elif n.op == "fn":
        r = n.args[0] in NONNEG_FN
    n._nn = r
    return r


NONNEG_FN = {"sigmoid", "exp", "rpow"}


def sqrt(n):
    if n.op == "c":
        s = _perfect_square(n.args)
        if s is not None:
            return const(s)
    if n.op != "c" and not nonneg(n):
        note_defined("ge0", n)
    c, core = _prim(n)
    s = _perfect_square(c)
    if c != 1 and s is not None:
        return scale(_sqrt1(core), s)
    return _sqrt1(n)


def _sqrt1(n):
    # sqrt(x^2) = |x|
    if n.op == "*" and all(e % 2 == 0 for _, e in n.args):
        r = ONE
        for k, e in n.args:
            b = k if nonneg(k) else absv(k)
            for _ in range(e // 2):
                r = mul(r, b)
        return r
    if n.op == "rec" and nonneg(n.args[0]):
        return _rec(sqrt(n.args[0]))
    v = n.val
    val = math.sqrt(v) if v >= 0 else (0.0 if v > -1e-9 else float("nan"))
    fp = n.hp.sqrt() if n.hp >= 0 else _pseudo(_hfp("sqrt", n.fp))
    return _mk("sqrt", (n,), val, fp)


def absv(n):
    if isinstance(n, Cx):
        return sqrt(abs2(n))
    if n.op == "c":
        return const(abs(n.args))
    if nonneg(n):
        return n
    c, core = _prim(n)
    if c != 1:
        return scale(absv(core), abs(c))
    return _mk("abs", (n,), abs(n.val), abs(n.hp))


def power(n, e):
    if isinstance(e, Node):
        if not isconst(e):
            raise NotImplementedError("symbolic exponent")
        e = e.args
    e = snap(e)
    if e.denominator == 1:
        e = int(e)
        if e == 0:
            return ONE
        if e < 0:
            return rec(power(n, -e))
        if n.op == "c":
            return const(n.args**e)
        c, core = _prim(n)
        if core.op == "*":
            d = {k: x * e for k, x in core.args}
        else:
            d = {core: e}
        return scale(_mkprod(d), c**e)
    if e.denominator == 2:
        return power(sqrt(n), e.numerator)
    return fn("rpow", (n, const(e)), 0, lambda a, b: abs(a) ** b)


def lower(n, depth=8):
    """a rational lower bound read off the term, or None"""
    if n.op == "c":
        return n.args
    r = None
    if depth:
        if n.op == "max":
            l = [q for q in (lower(x, depth - 1) for x in n.args) if q is not None]
            r = max(l) if l else None
        elif n.op == "sqrt":
            q = lower(n.args[0], depth - 1)
            if q is not None and q > 0:
                k = 10**12
                r = Fraction(math.isqrt(q.numerator * k * k // q.denominator), k)
        elif n.op == "ite":
            l = [lower(x, depth - 1) for x in n.args[1:]]
            r = None if None in l else min(l)
        elif n.op == "+" and len(n.args[1]) <= 16 and all(v > 0 for _, v in n.args[1]):
            l = [(lower(k, depth - 1), v) for k, v in n.args[1]]
            r = None if any(q is None for q, _ in l) else n.args[0] + sum(q * v for q, v in l)
    if (r is None or r < 0) and nonneg(n):
        r = Fraction(0)
    return r


def vmax(a, b):
    if a.op == "c" and b.op == "c":
        return a if a.args >= b.args else b
    if a.op == "c":
        a, b = b, a
    if b.op == "c":
        q = lower(a)
        if q is not None and q >= b.args:
            return a
    if a is b:
        return a
    if b.op == "c" and b.args <= 0 and nonneg(a):
        return a
    if a.op == "c" and a.args <= 0 and nonneg(b):
        return b
    if Ctx.regular is not None and a.val != b.val:
        if a.val < b.val:
            a, b = b, a
        Ctx.regular.append(lt(b, a))
        return a
    # canonical form: leaves of nested maxima, ordered by fingerprint, constant last
    leaves = {}
    c = None
    for r in (a, b):
        while True:
            y = r.args[1] if r.op == "max" else r
            if y.op == "c":
                c = y if c is None or y.args > c.args else c
            else:
                leaves[y] = None
            if r.op != "max":
                break
            r = r.args[0]
    ls = sorted(leaves, key=lambda x: (x.fp, x.id))
    if c is not None and not (c.args <= 0 and any(nonneg(x) for x in ls)):
        ls.append(c)
    r = ls[0]
    fps = [r.fp]
    top = r.hp
    for x in ls[1:]:
        fps.append(x.fp)
        top = max(top, x.hp)
        r = _mk("max", (r, x), max(r.val, x.val), top * (1 + (_pseudo(_hfp("max", *fps)) - 1) / 8))
    return r


def vmin(a, b):
    return -vmax(-a, -b)


def clamp(x, lo=None, hi=None):
    if lo is not None:
        x = vmax(x, lift(lo))
    if hi is not None:
        x = vmin(x, lift(hi))
    return x


def fn(name, args, idx, f=None, val=None):
    """uninterpreted function application (idx-th output of name)"""
    if val is None:
        try:
            val = float(f(*[a.val for a in args])) if f is not None else 0.0
        except (ValueError, OverflowError, ZeroDivisionError):
            val = float("nan")
    return _mk("fn", (name, idx) + tuple(args), val, _pseudo(_hfp("fn", name, idx, *[a.fp for a in args])))


# Booleans ---------------------------------------------------------------
def lt(a, b):
    a, b = lift(a), lift(b)
    d = b - a
    if d.op == "c":
        return TRUE if d.args > 0 else FALSE
    if nonneg(a - b):
        return FALSE
    return _mk("lt", (a, b), a.val < b.val, _hfp("lt", d.fp))


def le(a, b):
    a, b = lift(a), lift(b)
    d = b - a
    if d.op == "c":
        return TRUE if d.args >= 0 else FALSE
    if nonneg(d):
        return TRUE
    return _mk("le", (a, b), a.val <= b.val, _hfp("le", d.fp))


def eq(a, b):
    a, b = lift(a), lift(b)
    if a is b:
        return TRUE
    if a.id > b.id:
        a, b = b, a
    d = a - b
    if d.op == "c":
        return TRUE if d.args == 0 else FALSE
    return _mk("eq", (a, b), a.val == b.val, _hfp("eq", hkey(abs(d.hp)) or 0))


def bnot(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == "not":
        return a.args[0]
    if a.op == "lt":
        return le(a.args[1], a.args[0])
    if a.op == "le":
        return lt(a.args[1], a.args[0])
    return _mk("not", (a,), not a.val, _hfp("not", a.fp))


def band(*xs):
    out = []
    for x in xs:
        if x is FALSE:
            return FALSE
        if x is TRUE:
            continue
        if x.op == "and":
            out.extend(x.args)
        else:
            out.append(x)
    out = sorted(set(out), key=lambda n: n.id)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return _mk("and", tuple(out), all(x.val for x in out), _hfp("and", *sorted(x.fp for x in out)))


def bor(*xs):
    return bnot(band(*[bnot(x) for x in xs]))


def ite(c, a, b):
    if isinstance(a, Cx) or isinstance(b, Cx):
        a, b = cx(a), cx(b)
        return Cx(ite(c, a.real, b.real), ite(c, a.imag, b.imag))
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a.isbool:
        return bor(band(c, a), band(bnot(c), b))
    if c.op == "not":
        return ite(c.args[0], b, a)
    # ite(x < y, y, x) = max(x, y) and friends
    if c.op in ("lt", "le"):
        x, y = c.args
        if a is y and b is x:
            return vmax(x, y)
        if a is x and b is y:
            return vmin(x, y)
    if Ctx.regular is not None:
        Ctx.regular.append(c if c.val else bnot(c))
        return a if c.val else b
    h = 1 + (_pseudo(_hfp("ite", c.fp, a.fp, b.fp)) - 1) / 8
    return _mk("ite", (c, a, b), a.val if c.val else b.val, (a.hp if c.val else b.hp) * h + (h - 1) / 64)


# traversal ----------------------------------------------------------------
def children(n):
    op = n.op
    if op in ("c", "v", "bv", "true", "false"):
        return ()
    if op == "+":
        return tuple(k for k, _ in n.args[1])
    if op == "*":
        return tuple(k for k, _ in n.args)
    if op == "fn":
        return n.args[2:]
    return n.args


def topo(roots, known=()):
    """the nodes below the roots that are not known, children first"""
    seen = set()
    out = []
    stack = [(r, False) for r in roots if r not in known]
    while stack:
        n, done = stack.pop()
        if done:
            out.append(n)
            continue
        if n in seen:
            continue
        seen.add(n)
        stack.append((n, True))
        for k in children(n):
            if k not in seen and k not in known:
                stack.append((k, False))
    return out


def variables(roots):
    return [n for n in topo(roots) if n.op in ("v", "bv")]


def show(n, depth=3):
    if n.op == "c":
        f = n.args
        return str(f) if f.denominator < 10**6 else f"{float(f):.6g}"
    if n.op in ("v", "bv"):
        return n.args
    if n.op in ("true", "false"):
        return n.op
    if depth == 0:
        return f"#{n.id}"
    if n.op == "+":
        c, t = n.args
        s = [f"{v}*{show(k, depth-1)}" if v != 1 else show(k, depth - 1) for k, v in t[:6]]
        if len(t) > 6:
            s.append(f"...{len(t)} terms")
        if c:
            s.append(str(c))
        return "(" + " + ".join(s) + ")"
    if n.op == "*":
        return "*".join(f"{show(k, depth-1)}" + (f"^{e}" if e != 1 else "") for k, e in n.args[:6])
    if n.op == "fn":
        return f"{n.args[0]}[{n.args[1]}](..{len(n.args)-2})"
    return f"{n.op}({', '.join(show(k, depth-1) for k in children(n))})"


def rebuild(n, sub, memo):
    """substitute nodes (dict node->node), rebuilding with simplification"""
    order = topo([n])
    for x in order:
        if x in memo:
            continue
        if x in sub:
            memo[x] = sub[x]
            continue
        memo[x] = _re1(x, memo)
    return memo[n]


def _re1(x, m):
    op = x.op
    if op in ("c", "v", "bv", "true", "false"):
        return x
    if op == "+":
        r = [const(x.args[0])]
        for k, v in x.args[1]:
            r.append(scale(m[k], v))
        return addn(r)
    if op == "*":
        r = ONE
        for k, e in x.args:
            r = mul(r, power(m[k], e))
        return r
    if op == "rec":
        return _rec(m[x.args[0]]) if not (m[x.args[0]].op == "c" and m[x.args[0]].args == 0) else rec(m[x.args[0]])
    if op == "sqrt":
        return sqrt(m[x.args[0]])
    if op == "abs":
        return absv(m[x.args[0]])
    if op == "max":
        return vmax(m[x.args[0]], m[x.args[1]])
    if op == "ite":
        return ite(*[m[k] for k in x.args])
    if op == "fn":
        return fn(x.args[0], tuple(m[k] for k in x.args[2:]), x.args[1], val=x.val)
    if op == "lt":
        return lt(m[x.args[0]], m[x.args[1]])
    if op == "le":
        return le(m[x.args[0]], m[x.args[1]])
    if op == "eq":
        return eq(m[x.args[0]], m[x.args[1]])
    if op == "not":
        return bnot(m[x.args[0]])
    if op == "and":
        return band(*[m[k] for k in x.args])
    raise AssertionError(op)


reset()
