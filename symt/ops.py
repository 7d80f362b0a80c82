"""Symbolic semantics of the ATen compute operations (real arithmetic)."""
import functools
import math
from fractions import Fraction

import numpy as np
import torch

from . import term as T
from .shadow import Direct, Unsupported, handler, is_cplx, omap
from .term import Cx, Node, ZERO  # noqa: F401


def _b2n(x):
    if isinstance(x, Node) and x.isbool:
        return T.ite(x, T.ONE, T.ZERO)
    return x


def num(a):
    """make Boolean cells numeric"""
    return omap(_b2n, a)


def esum(xs):
    """n-ary sum of elements"""
    if any(isinstance(x, Cx) for x in xs):
        xs = [T.cx(x) for x in xs]
        return Cx(T.addn([x.real for x in xs]), T.addn([x.imag for x in xs]))
    return T.addn(list(xs)) if xs else T.ZERO


def edot(a, b):
    cxa = any(isinstance(x, Cx) for x in a)
    cxb = any(isinstance(x, Cx) for x in b)
    if not cxa and not cxb:
        return T.addn([T.mul(x, y) for x, y in zip(a, b)])
    re, im = [], []
    for x, y in zip(a, b):
        z = T.cx(x) * T.cx(y)
        re.append(z.real)
        im.append(z.imag)
    return Cx(T.addn(re), T.addn(im))


def reduce_dims(a, dims, keepdim, f):
    nd = a.ndim
    if dims is None or (isinstance(dims, (list, tuple)) and len(dims) == 0):
        dims = list(range(nd))
    if isinstance(dims, int):
        dims = [dims]
    dims = sorted(d % nd for d in dims) if nd else []
    keep = [d for d in range(nd) if d not in dims]
    shape_keep = [a.shape[d] for d in keep]
    b = a.transpose(keep + dims).reshape(int(np.prod(shape_keep, dtype=int)), int(np.prod([a.shape[d] for d in dims], dtype=int)))
    out = np.empty(b.shape[0], dtype=object)
    for i in range(b.shape[0]):
        out[i] = f(list(b[i]))
    if keepdim:
        return out.reshape([1 if d in dims else a.shape[d] for d in range(nd)])
    return out.reshape(shape_keep)


def matmul2(a, b):
    n, k = a.shape
    k2, m = b.shape
    out = np.empty((n, m), dtype=object)
    cols = [list(b[:, j]) for j in range(m)]
    for i in range(n):
        r = list(a[i])
        for j in range(m):
            out[i, j] = edot(r, cols[j]) if k else T.ZERO
    if T.Ctx.defined is not None and n and m and (n % m == 0 or m % n == 0):
        T.Ctx.defined.append(("prod", (a, b, out)))
    return out


# ---------------------------------------------------------------- elementwise
def _bin(f):
    def h(sh, func, a, b, *, alpha=1, rounding_mode=None, **kw):
        if rounding_mode is not None:
            raise Unsupported("rounding division")
        x, y = num(sh.get(a)), num(sh.get(b))
        return f(x, y, alpha)

    return h


handler("add")(_bin(lambda x, y, al: omap(lambda p, q: p + q, x, y if al == 1 else omap(lambda q: q * T.const(al), y))))
handler("sub", "subtract")(_bin(lambda x, y, al: omap(lambda p, q: p - q, x, y if al == 1 else omap(lambda q: q * T.const(al), y))))
handler("rsub")(_bin(lambda x, y, al: omap(lambda p, q: q - p, x if al == 1 else omap(lambda q: q * T.const(al), x), y)))
handler("mul", "multiply")(_bin(lambda x, y, al: omap(lambda p, q: p * q, x, y)))


@handler("div", "divide", "true_divide")
def _div(sh, func, a, b, *, rounding_mode=None):
    if rounding_mode is not None:
        raise Unsupported("rounding division")
    return omap(lambda p, q: p / q, num(sh.get(a)), num(sh.get(b)))


@handler("neg")
def _neg(sh, func, a):
    return omap(lambda x: -x, sh.get(a))


@handler("reciprocal")
def _recip(sh, func, a):
    return omap(lambda x: T.ONE / x, sh.get(a))


@handler("sqrt")
def _sqrt(sh, func, a):
    return omap(T.sqrt, sh.get(a))


@handler("rsqrt")
def _rsqrt(sh, func, a):
    return omap(lambda x: T.rec(T.sqrt(x)), sh.get(a))


@handler("square")
def _square(sh, func, a):
    return omap(lambda x: x * x, sh.get(a))


@handler("abs")
def _abs(sh, func, a):
    return omap(T.absv, sh.get(a))


@handler("pow")
def _pow(sh, func, a, e):
    if isinstance(a, (int, float)):
        if not isinstance(e, torch.Tensor):
            raise Unsupported("pow")
        if a == 10 or a == 2:
            return NotImplemented
    x = num(sh.get(a))
    y = sh.get(e)
    return omap(lambda p, q: p ** (q.args if isinstance(p, Node) else float(q.args)), x, y)


def sgn1(z):
    if isinstance(z, Cx):
        m = T.absv(z)
        c = T.eq(m, T.ZERO)
        if c is T.FALSE:
            return z / m
        return Cx(T.ite(c, T.ZERO, z.real * _saferec(m)), T.ite(c, T.ZERO, z.imag * _saferec(m)))
    return T.ite(T.lt(T.ZERO, z), T.ONE, T.ite(T.lt(z, T.ZERO), T.const(-1), T.ZERO))


@handler("sgn", "sign")
def _sgn(sh, func, a):
    return omap(sgn1, sh.get(a))


def _saferec(m):
    d, T.Ctx.defined = T.Ctx.defined, None
    try:
        return T._rec(m)
    finally:
        T.Ctx.defined = d


def _unary_fn(name, f, domain=None):
    def h(sh, func, a, *rest, **kw):
        return omap(lambda x: T.fn(name, (x,), 0, f), num(sh.get(a)))

    return h


handler("exp")(_unary_fn("exp", math.exp))
handler("log")(_unary_fn("log", math.log))
handler("log1p")(lambda sh, func, a: omap(lambda x: T.fn("log", (x + T.ONE,), 0, math.log), num(sh.get(a))))
handler("log10")(lambda sh, func, a: omap(lambda x: T.fn("log", (x,), 0, math.log) * T.const(1 / math.log(10)), num(sh.get(a))))
handler("log2")(lambda sh, func, a: omap(lambda x: T.fn("log", (x,), 0, math.log) * T.const(1 / math.log(2)), num(sh.get(a))))
handler("sigmoid")(_unary_fn("sigmoid", lambda x: 1 / (1 + math.exp(-x)) if x > -700 else 0.0))
handler("tanh")(_unary_fn("tanh", math.tanh))
handler("sin")(_unary_fn("sin", math.sin))
handler("cos")(_unary_fn("cos", math.cos))
handler("relu")(lambda sh, func, a: omap(lambda x: T.vmax(x, T.ZERO), sh.get(a)))


@handler("angle")
def _angle(sh, func, a):
    return omap(lambda z: T.fn("atan2", (T.cx(z).imag, T.cx(z).real), 0, math.atan2), sh.get(a))


@handler("atan2")
def _atan2(sh, func, a, b):
    return omap(lambda y, x: T.fn("atan2", (y, x), 0, math.atan2), sh.get(a), sh.get(b))


@handler("clamp", "clip")
def _clamp(sh, func, a, min=None, max=None):
    x = sh.get(a)
    if min is not None:
        x = omap(T.vmax, x, sh.get(min))
    if max is not None:
        x = omap(T.vmin, x, sh.get(max))
    return x


@handler("clamp_min")
def _clamp_min(sh, func, a, m):
    return omap(T.vmax, sh.get(a), sh.get(m))


@handler("clamp_max")
def _clamp_max(sh, func, a, m):
    return omap(T.vmin, sh.get(a), sh.get(m))


@handler("maximum", "fmax")
def _maximum(sh, func, a, b):
    return omap(T.vmax, sh.get(a), sh.get(b))


@handler("minimum", "fmin")
def _minimum(sh, func, a, b):
    return omap(T.vmin, sh.get(a), sh.get(b))


@handler("nan_to_num")
def _n2n(sh, func, a, *r, **k):
    return sh.get(a)


# ---------------------------------------------------------------- comparisons
def _ceq(p, q):
    if isinstance(p, Cx) or isinstance(q, Cx):
        p, q = T.cx(p), T.cx(q)
        return T.band(T.eq(p.real, q.real), T.eq(p.imag, q.imag))
    return T.eq(_b2n(p), _b2n(q))


def _cmp(f):
    return lambda sh, func, a, b: omap(lambda p, q: f(_b2n(p), _b2n(q)), sh.get(a), sh.get(b))


handler("lt", "less")(_cmp(T.lt))
handler("le", "less_equal")(_cmp(T.le))
handler("gt", "greater")(_cmp(lambda p, q: T.lt(q, p)))
handler("ge", "greater_equal")(_cmp(lambda p, q: T.le(q, p)))
handler("eq")(_cmp(_ceq))
handler("ne", "not_equal")(_cmp(lambda p, q: T.bnot(_ceq(p, q))))


def _tob(x):
    if isinstance(x, Cx):
        return T.bnot(T.band(T.eq(x.real, T.ZERO), T.eq(x.imag, T.ZERO)))
    return x if x.isbool else T.bnot(T.eq(x, T.ZERO))


handler("logical_and", "bitwise_and", "__and__")(lambda sh, func, a, b: omap(lambda p, q: T.band(_tob(p), _tob(q)), sh.get(a), sh.get(b)))
handler("logical_or", "bitwise_or", "__or__")(lambda sh, func, a, b: omap(lambda p, q: T.bor(_tob(p), _tob(q)), sh.get(a), sh.get(b)))
handler("logical_not", "bitwise_not")(lambda sh, func, a: omap(lambda p: T.bnot(_tob(p)), sh.get(a)))
handler("isnan", "isinf", "isposinf", "isneginf")(lambda sh, func, a: omap(lambda p: T.FALSE, sh.get(a)))
handler("isfinite")(lambda sh, func, a: omap(lambda p: T.TRUE, sh.get(a)))


@handler("any")
def _any(sh, func, a, dim=None, keepdim=False):
    return reduce_dims(sh.get(a), dim, keepdim, lambda xs: T.bor(*[_tob(x) for x in xs]))


@handler("all")
def _all(sh, func, a, dim=None, keepdim=False):
    return reduce_dims(sh.get(a), dim, keepdim, lambda xs: T.band(*[_tob(x) for x in xs]))


@handler("where")
def _where(sh, func, c, a=None, b=None):
    if a is None:
        raise Unsupported("where(cond)")
    return omap(lambda k, p, q: T.ite(_tob(k), _b2n(p), _b2n(q)), sh.get(c), sh.get(a), sh.get(b))


@handler("masked_fill")
def _masked_fill(sh, func, a, m, v):
    return omap(lambda p, k, q: T.ite(_tob(k), q, p), sh.get(a), sh.get(m), sh.get(v))


@handler("_local_scalar_dense")
def _item(sh, func, a):
    x = sh.get(a).reshape(-1)[0]
    c = func(a)
    if isinstance(x, Cx):
        if T.isconst(x.real) and T.isconst(x.imag):
            return Direct(c)
        raise Unsupported("complex item()")
    if x.isbool:
        return Direct(sh.branch(x))
    if T.isconst(x):
        return Direct(c)
    # a symbolic number leaves tensor land: keep it symbolic if someone listens
    from .cval import SymFloat

    return Direct(SymFloat(float(c), x, sh))


@handler("is_nonzero")
def _isnz(sh, func, a):
    x = sh.get(a).reshape(-1)[0]
    return Direct(sh.branch(_tob(x)))


@handler("equal")
def _equal(sh, func, a, b):
    if a.size() != b.size():
        return Direct(False)
    return Direct(sh.branch(T.band(*[_ceq(p, q) for p, q in zip(sh.get(a).reshape(-1), sh.get(b).reshape(-1))])))


# ---------------------------------------------------------------- copies, casts, factories
@handler("clone", "_to_copy", "contiguous", "alias_copy", "lift_fresh_copy", "resolve_conj", "resolve_neg", "to")
def _copy(sh, func, a, *args, **kw):
    return sh.get(a)


@handler("conj_physical", "_conj_physical")
def _conj(sh, func, a):
    return omap(lambda z: z.conjugate(), sh.get(a))


@handler("copy_")
def _copy_(sh, func, dst, src, non_blocking=False):
    arr = sh.get(src)
    from .shadow import _PREC

    func(dst, src, non_blocking)
    sh.put(dst, np.broadcast_to(arr, tuple(dst.size())), _PREC.get(src.dtype))
    return Direct(dst)


@handler("fill_")
def _fill_(sh, func, dst, v):
    arr = sh.get(v)
    func(dst, v)
    sh.put(dst, np.broadcast_to(arr, tuple(dst.size())))
    return Direct(dst)


@handler("zero_")
def _zero_(sh, func, dst):
    func(dst)
    sh.put(dst, np.broadcast_to(np.array(T.ZERO, dtype=object), tuple(dst.size())))
    return Direct(dst)


@handler("new_zeros", "zeros_like", "new_ones", "ones_like", "new_full", "full_like", "new_empty", "empty_like", "new_empty_strided", "empty_strided", "new_tensor")
def _fac(sh, func, a, *args, **kw):
    out = func(a, *args, **kw)
    if "empty" in func._schema.name:
        out.zero_()
    return Direct(out)


@handler("complex")
def _complex(sh, func, a, b):
    return omap(lambda p, q: Cx(p, q), sh.get(a), sh.get(b))


@handler("polar")
def _polar(sh, func, a, b):
    return omap(lambda r, th: Cx(r * T.fn("cos", (th,), 0, math.cos), r * T.fn("sin", (th,), 0, math.sin)), sh.get(a), sh.get(b))


@handler("cat", "concat", "concatenate")
def _cat(sh, func, ts, dim=0):
    arrs = [num(sh.get(t)) for t in ts if not (t.dim() == 1 and t.numel() == 0)]
    return np.concatenate(arrs, axis=dim)


@handler("stack")
def _stack(sh, func, ts, dim=0):
    return np.stack([num(sh.get(t)) for t in ts], axis=dim)


@handler("constant_pad_nd")
def _cpad(sh, func, a, pad, value=0):
    x = sh.get(a)
    nd = x.ndim
    fillv = sh.scalar(value)
    for i in range(len(pad) // 2):
        ax = nd - 1 - i
        lo, hi = pad[2 * i], pad[2 * i + 1]
        for side, p in ((0, lo), (1, hi)):
            if p > 0:
                sh_ = list(x.shape)
                sh_[ax] = p
                z = np.empty(sh_, dtype=object)
                z[...] = fillv
                x = np.concatenate([z, x] if side == 0 else [x, z], axis=ax)
            elif p < 0:
                sl = [slice(None)] * nd
                sl[ax] = slice(-p, None) if side == 0 else slice(0, x.shape[ax] + p)
                x = x[tuple(sl)]
    return x


def _index_like(sh, func, args, kwargs, pos):
    """Operations that only move data: run torch on a tensor of cell numbers."""
    raise NotImplementedError


def mover(*names):
    """data movement: replay the operation on an integer tensor of cell indices"""

    def make(name):
        @handler(name)
        def h(sh, func, a, *args, **kw):
            x = sh.get(a)
            with torch._C._DisableTorchDispatch():
                idx = torch.arange(x.size, dtype=torch.float64).reshape(x.shape) + 1
                r = func(idx, *args, **kw)
            outs = r if isinstance(r, (tuple, list)) else (r,)
            flat = x.reshape(-1)
            res = []
            for o in outs:
                o = o.numpy().astype(int)
                y = np.empty(o.shape, dtype=object)
                yf, of = y.reshape(-1), o.reshape(-1)
                zero = Cx(T.ZERO, T.ZERO) if is_cplx(a) else (T.FALSE if a.dtype == torch.bool else T.ZERO)
                for i in range(of.shape[0]):
                    yf[i] = flat[of[i] - 1] if of[i] > 0 else zero
                res.append(y)
            return tuple(res)

    for n in names:
        make(n)


mover("flip", "roll", "rot90", "repeat", "index_select", "reflection_pad1d", "reflection_pad2d", "replication_pad1d", "_reshape_alias_copy", "unfold_copy", "tril", "triu", "take", "repeat_interleave", "_unsafe_view", "diag_embed", "view_copy", "permute_copy", "expand_copy", "slice_copy", "select_copy")


@handler("index")
def _index(sh, func, a, indices):
    for i in indices:
        if i is not None and sh.has(i):
            for c in sh.get(i).reshape(-1):
                if c.isbool:
                    sh.branch(c)
    x = sh.get(a)
    with torch._C._DisableTorchDispatch():
        idx = torch.arange(x.size).reshape(x.shape)
        o = func(idx, indices).numpy()
    return x.reshape(-1)[o.reshape(-1)].reshape(o.shape)


@handler("gather")
def _gather(sh, func, a, dim, index, sparse_grad=False):
    x = sh.get(a)
    with torch._C._DisableTorchDispatch():
        idx = torch.arange(x.size).reshape(x.shape)
        o = func(idx, dim, index).numpy()
    return x.reshape(-1)[o.reshape(-1)].reshape(o.shape)


@handler("take_along_dim")
def _tad(sh, func, a, index, dim=None):
    return _gather(sh, torch.ops.aten.gather.default, a, dim, index)


@handler("index_put_", "_index_put_impl_", "index_put")
def _index_put_(sh, func, a, indices, values, accumulate=False, unsafe=False):
    x = sh.get(a).copy()
    v = sh.get(values)
    with torch._C._DisableTorchDispatch():
        idx = torch.arange(x.size).reshape(x.shape)
        o = torch.ops.aten.index(idx, indices).numpy()
    vb = np.broadcast_to(v, o.shape).reshape(-1)
    xf = x.reshape(-1)
    for k, i in enumerate(o.reshape(-1)):
        xf[i] = xf[i] + vb[k] if accumulate else vb[k]
    x = xf.reshape(x.shape)
    if func._schema.name.endswith("index_put"):
        return x
    func(a, indices, values, accumulate)
    sh.put(a, x)
    return Direct(a)


@handler("select_scatter", "slice_scatter", "scatter", "diagonal_scatter")
def _sscat(sh, func, a, *args, **kw):
    # replay on cell numbers with the source offset
    tens = [t for t in args if isinstance(t, torch.Tensor) and t.dtype.is_floating_point or isinstance(t, torch.Tensor) and is_cplx(t)]
    if len(tens) != 1:
        raise Unsupported(func._schema.name)
    x, s = sh.get(a), sh.get(tens[0])
    with torch._C._DisableTorchDispatch():
        ix = torch.arange(x.size, dtype=torch.float64).reshape(x.shape)
        iy = torch.arange(s.size, dtype=torch.float64).reshape(s.shape) + x.size
        o = func(ix, *[iy if t is tens[0] else t for t in args], **kw).numpy().astype(int)
    pool = np.concatenate([x.reshape(-1), s.reshape(-1)])
    return pool[o.reshape(-1)].reshape(o.shape)


# ---------------------------------------------------------------- reductions
@handler("sum")
def _sum(sh, func, a, dim=None, keepdim=False, dtype=None):
    return reduce_dims(num(sh.get(a)), dim, keepdim, esum)


@handler("mean")
def _mean(sh, func, a, dim=None, keepdim=False, dtype=None):
    return reduce_dims(sh.get(a), dim, keepdim, lambda xs: esum(xs) * T.const(Fraction(1, len(xs))))


@handler("prod")
def _prod(sh, func, a, dim=None, keepdim=False, dtype=None):
    def f(xs):
        r = xs[0]
        for x in xs[1:]:
            r = r * x
        return r

    return reduce_dims(sh.get(a), dim, keepdim, f)


@handler("var", "std")
def _var(sh, func, a, dim=None, unbiased=True, keepdim=False, correction=None):
    c = (1 if unbiased else 0) if correction is None else correction
    if isinstance(dim, bool):
        raise Unsupported("var overload")

    def f(xs):
        n = len(xs)
        m = esum(xs) * T.const(Fraction(1, n))
        v = esum([T.abs2(x - m) for x in xs]) * T.const(Fraction(1, n - int(c)))
        return T.sqrt(v) if func._schema.name.endswith("std") else v

    return reduce_dims(sh.get(a), dim, keepdim, f)


@handler("cumsum")
def _cumsum(sh, func, a, dim, dtype=None):
    x = np.moveaxis(sh.get(a).copy(), dim, -1)
    for i in range(1, x.shape[-1]):
        x[..., i] = omap(lambda p, q: p + q, x[..., i - 1], x[..., i])
    return np.moveaxis(x, -1, dim)


def _vmaxn(xs):
    r = xs[0]
    for x in xs[1:]:
        r = T.vmax(r, x)
    return r


def _vminn(xs):
    r = xs[0]
    for x in xs[1:]:
        r = T.vmin(r, x)
    return r


@handler("amax")
def _amax(sh, func, a, dim=(), keepdim=False):
    return reduce_dims(sh.get(a), dim, keepdim, _vmaxn)


@handler("amin")
def _amin(sh, func, a, dim=(), keepdim=False):
    return reduce_dims(sh.get(a), dim, keepdim, _vminn)


def _maxmin(f, pick):
    def h(sh, func, a, dim=None, keepdim=False):
        if isinstance(dim, torch.Tensor):
            return omap(f2[f], sh.get(a), sh.get(dim))
        x = sh.get(a)
        if dim is None:
            return reduce_dims(x, None, False, f)
        # the index output is used concretely: only the value output is symbolic
        return (reduce_dims(x, dim, keepdim, f), None)

    return h


f2 = {_vmaxn: T.vmax, _vminn: T.vmin}
handler("max")(_maxmin(_vmaxn, 1))
handler("min")(_maxmin(_vminn, -1))


@handler("linalg_vector_norm", "norm", "linalg_norm")
def _vnorm(sh, func, a, ord=2, dim=None, keepdim=False, dtype=None):
    x = sh.get(a)
    o = float(ord) if ord is not None else 2.0
    if func._schema.name.endswith("::norm") and isinstance(dim, torch.dtype):
        dim = None
    if o == 2.0:
        return reduce_dims(x, dim, keepdim, lambda xs: T.sqrt(T.addn([T.abs2(v) for v in xs])))
    if o == 1.0:
        return reduce_dims(x, dim, keepdim, lambda xs: T.addn([T.absv(v) for v in xs]))
    if o == float("inf"):
        return reduce_dims(x, dim, keepdim, lambda xs: _vmaxn([T.absv(v) for v in xs]))
    raise Unsupported("norm ord")


# ---------------------------------------------------------------- products
@handler("bmm")
def _bmm(sh, func, a, b, out_dtype=None):
    x, y = sh.get(a), sh.get(b)
    return np.stack([matmul2(p, q) for p, q in zip(x, y)]) if x.shape[0] else np.empty((0, x.shape[1], y.shape[2]), dtype=object)


@handler("mm")
def _mm(sh, func, a, b):
    return matmul2(sh.get(a), sh.get(b))


@handler("mv")
def _mv(sh, func, a, b):
    return matmul2(sh.get(a), sh.get(b)[:, None])[:, 0]


@handler("dot")
def _dot(sh, func, a, b):
    return np.array(edot(list(sh.get(a)), list(sh.get(b))), dtype=object)


@handler("vdot")
def _vdot(sh, func, a, b):
    return np.array(edot([z.conjugate() for z in sh.get(a)], list(sh.get(b))), dtype=object)


@handler("addmm")
def _addmm(sh, func, c, a, b, *, beta=1, alpha=1):
    r = matmul2(sh.get(a), sh.get(b))
    return omap(lambda p, q: p * T.const(beta) + q * T.const(alpha), sh.get(c), r)


@handler("addmv")
def _addmv(sh, func, c, a, b, *, beta=1, alpha=1):
    r = matmul2(sh.get(a), sh.get(b)[:, None])[:, 0]
    return omap(lambda p, q: p * T.const(beta) + q * T.const(alpha), sh.get(c), r)


@handler("baddbmm")
def _baddbmm(sh, func, c, a, b, *, beta=1, alpha=1):
    x, y = sh.get(a), sh.get(b)
    r = np.stack([matmul2(p, q) for p, q in zip(x, y)])
    return omap(lambda p, q: p * T.const(beta) + q * T.const(alpha), np.broadcast_to(sh.get(c), r.shape), r)


@handler("addcmul")
def _addcmul(sh, func, a, b, c, *, value=1):
    return omap(lambda p, q, r: p + q * r * T.const(value), sh.get(a), sh.get(b), sh.get(c))


@handler("addcdiv")
def _addcdiv(sh, func, a, b, c, *, value=1):
    return omap(lambda p, q, r: p + q / r * T.const(value), sh.get(a), sh.get(b), sh.get(c))


@handler("lerp")
def _lerp(sh, func, a, b, w):
    return omap(lambda p, q, r: p + (q - p) * r, sh.get(a), sh.get(b), sh.get(w))


# ---------------------------------------------------------------- linear algebra
def det_adj(M):
    """(determinant, adjugate) of a small matrix of elements"""
    n = M.shape[0]
    if n == 1:
        return M[0, 0], np.array([[T.ONE]], dtype=object)
    if n == 2:
        a, b, c, d = M[0, 0], M[0, 1], M[1, 0], M[1, 1]
        adj = np.empty((2, 2), dtype=object)
        adj[0, 0], adj[0, 1], adj[1, 0], adj[1, 1] = d, -b, -c, a
        return a * d - b * c, adj
    if n == 3:
        adj = np.empty((3, 3), dtype=object)
        for i in range(3):
            for j in range(3):
                r = [k for k in range(3) if k != j]
                s = [k for k in range(3) if k != i]
                m = M[r[0], s[0]] * M[r[1], s[1]] - M[r[0], s[1]] * M[r[1], s[0]]
                adj[i, j] = m if (i + j) % 2 == 0 else -m
        det = esum([M[0, k] * adj[k, 0] for k in range(3)])
        return det, adj
    raise NotImplementedError


CRAMER_MAX = 3


def solve_elems(sh, M, B, cval=None):
    """solution of M X = B (element arrays)."""
    n = M.shape[0]
    if T.Ctx.defined is not None:
        T.Ctx.defined.append(("inv", M))
    elif n <= CRAMER_MAX:
        det, adj = det_adj(M)
        N = matmul2(adj, B)
        return omap(lambda z: z / det, N)
    flat = list(M.reshape(-1)) + list(B.reshape(-1))
    nodes = []
    for z in flat:
        z = T.cx(z)
        nodes += [z.real, z.imag]
    cplx = any(isinstance(z, Cx) for z in flat)
    X = np.empty(B.shape, dtype=object)
    mv = np.array([complex(T.cx(z).val) for z in M.reshape(-1)]).reshape(M.shape)
    bv = np.array([complex(T.cx(z).val) for z in B.reshape(-1)]).reshape(B.shape)
    try:
        xv = np.linalg.solve(mv, bv)
    except np.linalg.LinAlgError:
        xv = np.zeros(B.shape, dtype=complex)
    k = 0
    for i in np.ndindex(*B.shape):
        re = T.fn("solve%dx%d" % B.shape, tuple(nodes), k, val=xv[i].real)
        im = T.fn("solve%dx%d" % B.shape, tuple(nodes), k + 1, val=xv[i].imag) if cplx else T.ZERO
        k += 2
        X[i] = Cx(re, im) if cplx else re
    R = omap(lambda p, q: p - q, matmul2(M, X), B)
    for z in R.reshape(-1):
        z = T.cx(z)
        sh.contracts += [z.real, z.imag]
    return X


@handler("_linalg_solve_ex", "linalg_solve_ex", "linalg_solve")
def _lsolve(sh, func, A, B, *, left=True, check_errors=False, **kw):
    a, b = sh.get(A), sh.get(B)
    vec = B.dim() == 1 or (A.dim() - 1 == B.dim() and tuple(B.size()) == tuple(A.size())[:-1])
    if vec:
        b = b[..., None]
    bs = np.broadcast_shapes(a.shape[:-2], b.shape[:-2])
    a = np.broadcast_to(a, bs + a.shape[-2:])
    b = np.broadcast_to(b, bs + b.shape[-2:])
    out = np.empty(bs + b.shape[-2:], dtype=object)
    for i in np.ndindex(*bs):
        if left:
            out[i] = solve_elems(sh, a[i], b[i])
        else:
            out[i] = solve_elems(sh, a[i].T, b[i].T).T
    if vec:
        out = out[..., 0]
    return (out,) + (None,) * 3


@handler("linalg_inv_ex", "linalg_inv", "inverse")
def _linv(sh, func, A, *, check_errors=False):
    a = sh.get(A)
    n = a.shape[-1]
    eye = np.array([[T.ONE if i == j else T.ZERO for j in range(n)] for i in range(n)], dtype=object)
    out = np.empty(a.shape, dtype=object)
    for i in np.ndindex(*a.shape[:-2]):
        out[i] = solve_elems(sh, a[i], eye)
    return (out, None)


@handler("_linalg_det", "linalg_det")
def _ldet(sh, func, A):
    a = sh.get(A)
    out = np.empty(a.shape[:-2], dtype=object)
    for i in np.ndindex(*a.shape[:-2]):
        out[i] = det_adj(a[i])[0]
    return (out, None, None)


@handler("_linalg_slogdet")
def _lslogdet(sh, func, A):
    a = sh.get(A)
    s = np.empty(a.shape[:-2], dtype=object)
    l = np.empty(a.shape[:-2], dtype=object)
    for i in np.ndindex(*a.shape[:-2]):
        d = det_adj(a[i])[0]
        m = T.absv(d)
        s[i] = d / m
        l[i] = T.fn("log", (m,), 0, math.log)
    return (s, l, None, None)


def eigh_elems(sh, a, cplx, lc, vc, UPLO="L"):
    """atoms for the eigendecomposition of Hermitian matrices of elements"""
    n = a.shape[-1]
    lo = np.empty(lc.shape, dtype=object)
    vo = np.empty(a.shape, dtype=object)
    for i in np.ndindex(*a.shape[:-2]):
        M = a[i]
        H = np.empty((n, n), dtype=object)
        for r in range(n):
            for c in range(n):
                if UPLO == "L":
                    z = M[r, c] if r >= c else M[c, r].conjugate()
                else:
                    z = M[r, c] if r <= c else M[c, r].conjugate()
                if r == c and isinstance(z, Cx):
                    z = Cx(z.real, T.ZERO)
                H[r, c] = z
        if n == 1:
            lo[i + (0,)] = T.cx(H[0, 0]).real
            vo[i + (0, 0)] = Cx(T.ONE, T.ZERO) if cplx else T.ONE
            if abs(complex(vc[i + (0, 0)]) - 1) > 1e-9:
                raise Unsupported("1x1 eigh phase")
            continue
        nodes = []
        for r in range(n):
            for c in range(r + 1):
                z = T.cx(H[r, c])
                nodes.append(z.real)
                if r != c and cplx:
                    nodes.append(z.imag)
        nodes = tuple(nodes)
        tag = "eigh%d%s" % (n, "c" if cplx else "r")
        for k in range(n):
            lo[i + (k,)] = T.fn(tag + "L", nodes, k, val=float(lc[i + (k,)]))
        kk = 0
        for r in range(n):
            for c in range(n):
                v = complex(vc[i + (r, c)])
                re = T.fn(tag + "V", nodes, kk, val=v.real)
                im = T.fn(tag + "V", nodes, kk + 1, val=v.imag)
                kk += 2
                vo[i + (r, c)] = Cx(re, im) if cplx else re
        eigh_contract(sh, H, lo[i], vo[i])
    return lo, vo


@handler("_linalg_eigh", "linalg_eigh")
def _leigh(sh, func, A, UPLO="L", compute_v=True):
    out = func(A, UPLO, compute_v) if compute_v is not True else func(A, UPLO)
    L, V = out[0], out[1]
    a = sh.get(A)
    n = a.shape[-1]
    with torch._C._DisableTorchDispatch():
        lc = L.detach().numpy()
        vc = V.detach().resolve_conj().numpy() if V.numel() else None
    lo, vo = eigh_elems(sh, a, is_cplx(A), lc, vc, UPLO)
    sh.check(func, L, lo)
    sh.put(L, lo)
    if V.numel():
        sh.put(V, vo)
    return Direct(out)


def eigh_contract(sh, H, lam, V):
    n = H.shape[0]
    HV = matmul2(H, V)
    for r in range(n):
        for c in range(n):
            z = T.cx(HV[r, c] - V[r, c] * lam[c])
            sh.contracts += [z.real, z.imag]
    G = matmul2(omap(lambda z: z.conjugate(), V.T), V)
    G2 = matmul2(V, omap(lambda z: z.conjugate(), V.T))
    for r in range(n):
        for c in range(n):
            for g in (G, G2):
                z = T.cx(g[r, c] - (T.ONE if r == c else T.ZERO))
                sh.contracts += [z.real, z.imag]
    for k in range(n - 1):
        sh.assumed.append(T.le(lam[k], lam[k + 1]))


# ---------------------------------------------------------------- FFT
def _cs(k, n):
    """cos, sin of 2 pi k / n; exact where rational"""
    k %= n
    q = Fraction(k, n)
    ex_c = {Fraction(0): 1, Fraction(1, 2): -1, Fraction(1, 4): 0, Fraction(3, 4): 0, Fraction(1, 3): Fraction(-1, 2), Fraction(2, 3): Fraction(-1, 2), Fraction(1, 6): Fraction(1, 2), Fraction(5, 6): Fraction(1, 2)}
    ex_s = {Fraction(0): 0, Fraction(1, 2): 0, Fraction(1, 4): 1, Fraction(3, 4): -1, Fraction(1, 12): Fraction(1, 2), Fraction(5, 12): Fraction(1, 2), Fraction(7, 12): Fraction(-1, 2), Fraction(11, 12): Fraction(-1, 2)}
    c = ex_c.get(q)
    s = ex_s.get(q)
    c = Fraction(math.cos(2 * math.pi * k / n)) if c is None else Fraction(c)
    s = Fraction(math.sin(2 * math.pi * k / n)) if s is None else Fraction(s)
    return c, s


def _norm(n, mode):
    if mode == 0:
        return Fraction(1)
    if mode == 2:
        return Fraction(1, n)
    s = math.isqrt(n)
    return Fraction(1, s) if s * s == n else Fraction(1 / math.sqrt(n))


def _lincomb(pairs, more=None):
    """sum of coef*node"""
    xs = [] if more is None else [more]
    return T.addn(xs + [T.scale(x, c) for x, c in pairs if c != 0])


@functools.lru_cache(maxsize=64)
def _table(n):
    return [_cs(k, n) for k in range(n)]


def _dft_last(x, forward, scale, upto=None):
    n = x.shape[-1]
    m = n if upto is None else upto
    out = np.empty(x.shape[:-1] + (m,), dtype=object)
    sg = -1 if forward else 1
    tab = _table(n)
    for i in np.ndindex(*x.shape[:-1]):
        v = [T.cx(z) for z in x[i]]
        key = ("dft", n, m, sg, scale, tuple(z.real for z in v), tuple(z.imag for z in v))
        row = T.Ctx.cache.get(key)
        if row is None:
            # fixed samples are summed as numbers
            num = [(t, z.real.args, z.imag.args) for t, z in enumerate(v) if z.real.op == "c" and z.imag.op == "c" and (z.real.args or z.imag.args)]
            sym = [(t, z.real, z.imag) for t, z in enumerate(v) if z.real.op != "c" or z.imag.op != "c"]
            row = []
            for k in range(m):
                cr = ci = Fraction(0)
                for t, a, b in num:
                    c, s = tab[k * t % n]
                    s = s * sg
                    # (a+ib)(c+is)
                    cr += a * c - b * s
                    ci += a * s + b * c
                re, im = [T.const(cr * scale)], [T.const(ci * scale)]
                for t, a, b in sym:
                    c, s = tab[k * t % n]
                    s = s * sg
                    re += [(a, c * scale), (b, -s * scale)]
                    im += [(b, c * scale), (a, s * scale)]
                row.append(Cx(_lincomb(re[1:], re[0]), _lincomb(im[1:], im[0])))
            T.Ctx.cache[key] = row
        for k in range(m):
            out[i + (k,)] = row[k]
    return out


@handler("_fft_c2c")
def _c2c(sh, func, a, dim, normalization, forward):
    x = sh.get(a)
    for d in dim:
        y = np.moveaxis(x, d, -1)
        y = _dft_last(y, forward, _norm(y.shape[-1], normalization))
        x = np.moveaxis(y, -1, d)
    return x


@handler("_fft_r2c")
def _r2c(sh, func, a, dim, normalization, onesided):
    x = sh.get(a)
    d = dim[-1]
    y = np.moveaxis(x, d, -1)
    n = y.shape[-1]
    y = _dft_last(y, True, _norm(n, normalization), n // 2 + 1 if onesided else None)
    x = np.moveaxis(y, -1, d)
    for d in dim[:-1]:
        y = np.moveaxis(x, d, -1)
        y = _dft_last(y, True, _norm(y.shape[-1], normalization))
        x = np.moveaxis(y, -1, d)
    return x


@handler("_fft_c2r")
def _c2r(sh, func, a, dim, normalization, last_dim_size):
    x = sh.get(a)
    n = last_dim_size
    for d in dim[:-1]:
        y = np.moveaxis(x, d, -1)
        y = _dft_last(y, False, _norm(y.shape[-1], normalization))
        x = np.moveaxis(y, -1, d)
    d = dim[-1]
    y = np.moveaxis(x, d, -1)
    sc = _norm(n, normalization)
    out = np.empty(y.shape[:-1] + (n,), dtype=object)
    for i in np.ndindex(*y.shape[:-1]):
        v = [T.cx(z) for z in y[i]]
        key = ("idft", n, sc, tuple(z.real for z in v), tuple(z.imag for z in v))
        row = T.Ctx.cache.get(key)
        if row is not None:
            for t in range(n):
                out[i + (t,)] = row[t]
            continue
        tab = _table(n)
        for t in range(n):
            pairs = [(v[0].real, sc)]
            for k in range(1, n // 2 + 1):
                if k >= len(v):
                    break
                c, s = tab[k * t % n]
                if 2 * k == n:
                    pairs.append((v[k].real, sc * c))
                else:
                    pairs += [(v[k].real, 2 * sc * c), (v[k].imag, -2 * sc * s)]
            out[i + (t,)] = _lincomb(pairs)
        T.Ctx.cache[key] = [out[i + (t,)] for t in range(n)]
    return np.moveaxis(out, -1, d)


# ---------------------------------------------------------------- ordering
def _order(sh, xs, descending):
    """concrete order of xs; the ordering becomes a path condition"""
    xs = [T.cx(x).real if isinstance(x, Cx) else x for x in xs]
    perm = sorted(range(len(xs)), key=lambda i: ((-xs[i].val if descending else xs[i].val), i))
    for p, q in zip(perm, perm[1:]):
        a, b = (xs[q], xs[p]) if descending else (xs[p], xs[q])
        # stable order: equality is resolved by position
        c = T.le(a, b) if p < q else T.lt(a, b)
        sh.branch(c)
    return perm


def _sorted_along(sh, x, dim, descending):
    y = np.moveaxis(x, dim, -1)
    vals = np.empty(y.shape, dtype=object)
    idxs = np.empty(y.shape, dtype=np.int64)
    for i in np.ndindex(*y.shape[:-1]):
        perm = _order(sh, list(y[i]), descending)
        for k, p in enumerate(perm):
            vals[i + (k,)] = y[i + (p,)]
            idxs[i + (k,)] = p
    return np.moveaxis(vals, -1, dim), np.moveaxis(idxs, -1, dim)


@handler("sort", "argsort")
def _sort(sh, func, a, *args, **kw):
    names = [x.name for x in func._schema.arguments][1:]
    p = dict(zip(names, args))
    p.update(kw)
    dim, desc = p.get("dim", -1), p.get("descending", False)
    if a.dim() == 0:
        return NotImplemented
    v, ix = _sorted_along(sh, sh.get(a), dim, desc)
    out = func(a, *args, **kw)
    if func._schema.name.endswith("argsort"):
        _force(out, ix)
        return Direct(out)
    _force(out[1], ix)
    with torch._C._DisableTorchDispatch():
        out[0].copy_(torch.gather(a.detach(), dim, out[1]))
    sh.check(func, out[0], v)
    sh.put(out[0], v)
    return Direct(out)


def _force(t, ix):
    with torch._C._DisableTorchDispatch():
        t.copy_(torch.from_numpy(np.ascontiguousarray(ix)))


@handler("topk")
def _topk(sh, func, a, k, dim=-1, largest=True, sorted=True):
    v, ix = _sorted_along(sh, sh.get(a), dim, largest)
    out = func(a, k, dim, largest, True)
    sl = [slice(None)] * v.ndim
    sl[dim % v.ndim] = slice(0, k)
    _force(out[1], ix[tuple(sl)])
    sh.put(out[0], v[tuple(sl)])
    return Direct(out)


def _arg(descending):
    def h(sh, func, a, dim=None, keepdim=False):
        x = sh.get(a)
        if dim is None:
            perm = _pick(sh, list(x.reshape(-1)), descending)
            return Direct(func(a, dim, keepdim))
        y = np.moveaxis(x, dim, -1)
        for i in np.ndindex(*y.shape[:-1]):
            _pick(sh, list(y[i]), descending)
        return Direct(func(a, dim, keepdim))

    return h


def _pick(sh, xs, descending):
    best = 0
    for i in range(1, len(xs)):
        if (xs[i].val > xs[best].val) if descending else (xs[i].val < xs[best].val):
            best = i
    for i in range(len(xs)):
        if i != best:
            a, b = (xs[i], xs[best]) if descending else (xs[best], xs[i])
            sh.branch(T.le(a, b) if i > best else T.lt(a, b))
    return best


handler("argmax")(_arg(True))
handler("argmin")(_arg(False))


# ---------------------------------------------------------------- neural-network layers
@handler("convolution")
def _convolution(sh, func, x, w, b, stride, padding, dilation, transposed, output_padding, groups):
    if x.dim() != 3 or groups != 1:
        return NotImplemented
    X, W = sh.get(x), sh.get(w)
    st, pd, dl = stride[0], padding[0], dilation[0]
    N, Ci, L = X.shape
    if not transposed:
        Co, _, K = W.shape
        Lo = (L + 2 * pd - dl * (K - 1) - 1) // st + 1
        out = np.empty((N, Co, Lo), dtype=object)
        for n in range(N):
            for o in range(Co):
                for t in range(Lo):
                    xs, ws = [], []
                    for c in range(Ci):
                        for k in range(K):
                            p = t * st + k * dl - pd
                            if 0 <= p < L:
                                xs.append(X[n, c, p])
                                ws.append(W[o, c, k])
                    out[n, o, t] = edot(xs, ws)
    else:
        _, Co, K = W.shape
        Lo = (L - 1) * st - 2 * pd + dl * (K - 1) + output_padding[0] + 1
        acc = {}
        for n in range(N):
            for o in range(Co):
                for c in range(Ci):
                    for t in range(L):
                        for k in range(K):
                            p = t * st + k * dl - pd
                            if 0 <= p < Lo:
                                acc.setdefault((n, o, p), []).append((X[n, c, t], W[c, o, k]))
        out = np.empty((N, Co, Lo), dtype=object)
        for i in np.ndindex(N, Co, Lo):
            l = acc.get(i, [])
            out[i] = edot([p for p, _ in l], [q for _, q in l]) if l else T.ZERO
    if b is not None:
        B = sh.get(b)
        out = omap(lambda p, q: p + q, out, B[None, :, None])
    return out


@handler("max_pool1d", "max_pool1d_with_indices", "max_pool2d_with_indices")
def _maxpool(sh, func, x, kernel, stride=(), padding=(0,), dilation=(1,), ceil_mode=False):
    X = sh.get(x)
    k = kernel if len(kernel) > 1 else [1, kernel[0]]
    s = (list(stride) if len(stride) else list(kernel))
    s = s if len(s) > 1 else [1, s[0]]
    if any(p != 0 for p in padding) or any(d != 1 for d in dilation):
        return NotImplemented
    sq = False
    if X.ndim == 3 and len(kernel) == 1:
        X = X[:, :, None, :]
        sq = True
    if X.ndim == 3:
        X = X[None]
        sq2 = True
    else:
        sq2 = False
    N, C, H, L = X.shape
    Ho = (H - k[0]) // s[0] + 1
    Lo = (L - k[1]) // s[1] + 1
    out = np.empty((N, C, Ho, Lo), dtype=object)
    for n, c, i, j in np.ndindex(N, C, Ho, Lo):
        out[n, c, i, j] = _vmaxn([X[n, c, i * s[0] + p, j * s[1] + q] for p in range(k[0]) for q in range(k[1])])
    if sq:
        out = out[:, :, 0, :]
    if sq2:
        out = out[0]
    return (out, None)


@handler("native_batch_norm", "_native_batch_norm_legit_no_training", "cudnn_batch_norm", "_batch_norm_no_update")
def _bnorm(sh, func, x, w, b, rm, rv, *rest):
    train = False
    if func._schema.name.endswith("native_batch_norm"):
        train, _, eps = rest
    else:
        eps = rest[-1]
    X = sh.get(x)
    C = X.shape[1]
    out = np.empty(X.shape, dtype=object)
    for c in range(C):
        if train:
            xs = list(X[:, c].reshape(-1))
            m = esum(xs) * T.const(Fraction(1, len(xs)))
            v = esum([(q - m) * (q - m) for q in xs]) * T.const(Fraction(1, len(xs)))
        else:
            m, v = sh.get(rm)[c], sh.get(rv)[c]
        inv = T.rec(T.sqrt(v + T.const(eps)))
        W = sh.get(w)[c] if w is not None else T.ONE
        B = sh.get(b)[c] if b is not None else T.ZERO
        out[:, c] = omap(lambda q: (q - m) * inv * W + B, X[:, c])
    return (out, None, None)
