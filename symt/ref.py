"""Building blocks for reference specifications.

Everything here works on numpy arrays of either plain numbers (replay) or
symbolic elements (Node / Cx), so one specification serves both.
"""
from fractions import Fraction

import numpy as np

from . import ops as O
from . import term as T
from .term import Cx, Node


def is_sym(*xs):
    return any(isinstance(x, np.ndarray) and x.dtype == object or isinstance(x, (Node, Cx)) for x in xs)


def emap(f, g, *xs):
    """f on symbolic elements, g on numbers"""
    if not is_sym(*xs):
        return g(*[float(x) if isinstance(x, Fraction) else x for x in xs])
    arrs = np.broadcast_arrays(*[np.asarray(x, dtype=object) for x in xs])
    out = np.empty(arrs[0].shape, dtype=object)
    o = out.reshape(-1)
    fl = [a.reshape(-1) for a in arrs]
    for i in range(o.size):
        o[i] = f(*[a[i] if isinstance(a[i], (Node, Cx)) else _lift(a[i]) for a in fl])
    out = o.reshape(arrs[0].shape)
    return out if out.ndim else out[()]


def _lift(x):
    if isinstance(x, complex) or getattr(getattr(x, "dtype", None), "kind", "") == "c":
        x = complex(x)
        return Cx(T.const(x.real), T.const(x.imag))
    if isinstance(x, (bool, np.bool_)):
        return T.TRUE if x else T.FALSE
    if isinstance(x, Fraction):
        return T.const(x)
    return T.const(float(x) if not isinstance(x, int) else x)


def sqrt(x):
    return emap(T.sqrt, np.sqrt, x)


def rec(x):
    return emap(lambda z: T.ONE / z, lambda z: 1.0 / z, x)


def vmax(x, c):
    return emap(lambda a, b: T.vmax(_re(a), _re(b)), lambda a, b: np.maximum(np.real(a), np.real(b)), x, c)


def vmin(x, c):
    return emap(lambda a, b: T.vmin(_re(a), _re(b)), lambda a, b: np.minimum(np.real(a), np.real(b)), x, c)


def _re(x):
    return x.real if isinstance(x, Cx) else x


def real(x):
    return emap(_re, np.real, x)


def imag(x):
    return emap(lambda z: z.imag if isinstance(z, Cx) else T.ZERO, np.imag, x)


def conj(x):
    return emap(lambda z: z.conjugate(), np.conj, x)


def abs2(x):
    return emap(T.abs2, lambda z: np.real(z) ** 2 + np.imag(z) ** 2, x)


def absv(x):
    return emap(T.absv, np.abs, x)


def div(a, b):
    return emap(lambda p, q: p / q, lambda p, q: p / q, a, b)


def mul(a, b):
    return emap(lambda p, q: p * q, lambda p, q: p * q, a, b)


def add(a, b):
    return emap(lambda p, q: p + q, lambda p, q: p + q, a, b)


def sub(a, b):
    return emap(lambda p, q: p - q, lambda p, q: p - q, a, b)


def tsum(x, axis=None, keepdims=False):
    if not is_sym(x):
        return np.sum(x, axis=axis, keepdims=keepdims)
    x = np.asarray(x, dtype=object)
    if axis is None:
        axis = tuple(range(x.ndim))
    if isinstance(axis, int):
        axis = (axis,)
    r = O.reduce_dims(x, list(axis), keepdims, O.esum)
    return r if r.ndim else r[()]


def mean(x, axis=None, keepdims=False):
    if not is_sym(x):
        return np.mean(x, axis=axis, keepdims=keepdims)
    ax = tuple(range(x.ndim)) if axis is None else (axis,) if isinstance(axis, int) else axis
    n = 1
    for a in ax:
        n *= x.shape[a]
    return mul(tsum(x, axis, keepdims), Fraction(1, n))


def mm(a, b):
    """matrix product over the last two axes, broadcasting the others"""
    if not is_sym(a, b):
        return np.matmul(a, b)
    a, b = np.asarray(a, dtype=object), np.asarray(b, dtype=object)
    bs = np.broadcast_shapes(a.shape[:-2], b.shape[:-2])
    a = np.broadcast_to(a, bs + a.shape[-2:])
    b = np.broadcast_to(b, bs + b.shape[-2:])
    a, b = emap(lambda z: z, None, a), emap(lambda z: z, None, b)
    out = np.empty(bs + (a.shape[-2], b.shape[-1]), dtype=object)
    for i in np.ndindex(*bs):
        out[i] = O.matmul2(a[i], b[i])
    return out


def H(a):
    return conj(np.swapaxes(a, -1, -2))


def eye(n, like=None):
    e = np.eye(n)
    return e


def zeros(shape, like):
    if is_sym(like):
        z = np.empty(shape, dtype=object)
        z[...] = T.ZERO
        return z
    return np.zeros(shape, dtype=complex)


class NullShadow:
    def __init__(self):
        self.contracts = []
        self.assumed = []


def solve(A, B, sh=None):
    """A^{-1} B (Cramer's rule on symbolic elements up to 3x3, else the shared
    `solve` contract)"""
    if not is_sym(A, B):
        return np.linalg.solve(A, B)
    A, B = emap(lambda z: z, None, A), emap(lambda z: z, None, B)
    bs = np.broadcast_shapes(A.shape[:-2], B.shape[:-2])
    A = np.broadcast_to(A, bs + A.shape[-2:])
    B = np.broadcast_to(B, bs + B.shape[-2:])
    out = np.empty(bs + B.shape[-2:], dtype=object)
    s = sh if sh is not None else NullShadow()
    for i in np.ndindex(*bs):
        out[i] = O.solve_elems(s, A[i], B[i])
    return out


def inv(A, sh=None):
    n = A.shape[-1]
    return solve(A, emap(lambda z: z, None, np.eye(n).astype(object)) if is_sym(A) else np.eye(n), sh)


def pad_front(x, n):
    """n zeros in front of the last axis"""
    z = zeros(x.shape[:-1] + (n,), x)
    return np.concatenate([z, x], axis=-1)


def frac(a, b):
    return Fraction(a, b)


def eigh(A):
    """eigendecomposition of Hermitian matrices, eigenvalues ascending (the
    symbolic side is the LAPACK contract: A V = V L, V unitary)"""
    if not is_sym(A):
        return np.linalg.eigh(A)
    v = np.array([complex(T.cx(z).val) for z in A.reshape(-1)]).reshape(A.shape)
    cplx = any(isinstance(z, Cx) for z in A.reshape(-1))
    if not cplx:
        v = v.real
    lc, vc = np.linalg.eigh(v)
    return O.eigh_elems(NullShadow(), A, cplx, lc, vc)


def lt(a, b):
    return emap(lambda p, q: T.lt(_re(p), _re(q)), lambda p, q: np.real(p) < np.real(q), a, b)


def le(a, b):
    return emap(lambda p, q: T.le(_re(p), _re(q)), lambda p, q: np.real(p) <= np.real(q), a, b)


def where(c, a, b):
    return emap(T.ite, np.where, c, a, b)


def sgn(a):
    def g(z):
        m = np.abs(z)
        return np.where(m == 0, 0, z / np.where(m == 0, 1, m))

    return emap(O.sgn1, g, a)


def power(x, e):
    """x ** e for a nonnegative x and a plain exponent"""
    return emap(lambda z, k: z ** k.args, lambda z, k: z**k, x, e)


def value(x):
    """the plain numbers at the current point of execution"""
    if not is_sym(x):
        return np.asarray(x)
    a = np.asarray(x, dtype=object)
    v = [T.cx(z).val for z in a.reshape(-1)]
    if all(isinstance(z, Node) for z in a.reshape(-1)):
        v = [complex(t).real for t in v]
    return np.array(v).reshape(a.shape)
