"""Concolic execution of real torch code.

`Shadow` is a TorchDispatchMode: while it is active every ATen operation that the
code under test issues is executed by torch as usual (float64 values) and, in
parallel, on a shadow memory that holds one symbolic term per real scalar of every
storage.  Views, strides, in-place writes and aliasing need no modelling: shadow
cells are addressed through the real tensors' storage, offset and strides.
After each operation the terms are evaluated at the concrete point and compared
with what torch computed (the encoding is validated on every run).
"""
import math
import sys

import numpy as np
import hashlib

import torch
from torch.utils._python_dispatch import TorchDispatchMode

from . import term as T
from .term import Cx, Node

aten = torch.ops.aten


class EncodingError(Exception):
    """the symbolic value of an operation disagrees with torch"""


class Unsupported(Exception):
    pass


def is_cplx(t):
    return t.dtype in (torch.complex64, torch.complex128, torch.complex32)


_UNIT = {torch.complex64: 4, torch.complex128: 8}
_PREC = {torch.float16: 11, torch.bfloat16: 8, torch.float32: 24, torch.float64: 53, torch.complex64: 24, torch.complex128: 53}


class _Mem:
    __slots__ = ("storage", "cells", "unit")


def _lift_np(a):
    out = np.empty(a.shape, dtype=object)
    if a.size == 0:
        return out
    it = np.nditer(a, flags=["multi_index", "refs_ok"])
    kind = a.dtype.kind
    for v in it:
        v = v.item()
        if kind == "c":
            out[it.multi_index] = Cx(T.const(v.real), T.const(v.imag))
        elif kind == "b":
            out[it.multi_index] = T.TRUE if v else T.FALSE
        else:
            out[it.multi_index] = T.const(v)
    return out


def vals(a):
    """concrete values of an object array"""
    f = np.empty(a.shape, dtype=complex)
    ff = f.reshape(-1)
    for i, x in enumerate(a.reshape(-1)):
        ff[i] = x.val if isinstance(x, (Node, Cx)) else x
    return f


def omap(f, *arrs):
    arrs = np.broadcast_arrays(*[np.asarray(a, dtype=object) for a in arrs])
    out = np.empty(arrs[0].shape, dtype=object)
    o = out.reshape(-1)
    flats = [a.reshape(-1) for a in arrs]
    for i in range(o.shape[0]):
        o[i] = f(*[a[i] for a in flats])
    return out


class Shadow(TorchDispatchMode):
    def __init__(self, validate=True):
        super().__init__()
        self.mem = {}
        self.path = []  # (bool node, taken?) conditions the execution depended on
        self.validate = validate
        self.n_ops = 0
        self.n_sym_ops = 0
        self.n_validated = 0
        self.opset = {}
        self.rnd = 0
        self.rnd_bounds = []
        self.fallback = set()
        self.assumed = []  # facts assumed by stubs (listed in the evidence)
        self.contracts = []  # equalities provided by LAPACK contracts (Node==0)
        self.on_random = None
        self.worst = 0.0
        self.lossy = True  # model precision-lowering casts

    # ------------------------------------------------------------ memory
    def _key(self, t):
        return t.untyped_storage()._cdata

    def has(self, t):
        return isinstance(t, torch.Tensor) and t.layout == torch.strided and self._key(t) in self.mem

    def _unit(self, t):
        return _UNIT.get(t.dtype, t.element_size())

    def _ensure(self, t):
        k = self._key(t)
        m = self.mem.get(k)
        if m is None:
            m = _Mem()
            st = t.untyped_storage()
            m.storage = st
            m.unit = self._unit(t)
            n = st.nbytes() // m.unit
            cells = np.empty(n, dtype=object)
            rdt = {torch.complex64: torch.float32, torch.complex128: torch.float64}.get(t.dtype, t.dtype)
            flat = torch.empty(0, dtype=rdt).set_(st, 0, (n,), (1,))
            cells[:] = _lift_np(flat.detach().numpy().copy()).reshape(-1)
            m.cells = cells
            self.mem[k] = m
        return m

    def _views(self, t, m):
        """(real cells view, imag cells view or None)"""
        if m.unit != self._unit(t):
            raise Unsupported(f"reinterpreting storage as {t.dtype}")
        off = t.storage_offset()
        c = 2 if is_cplx(t) else 1
        st = tuple(s * c * 8 for s in t.stride())
        size = tuple(t.size())
        if 0 in size:
            e = np.empty(size, dtype=object)
            return e, (e.copy() if c == 2 else None)

        def v(o):
            return np.lib.stride_tricks.as_strided(m.cells[off * c + o :], shape=size, strides=st)

        return v(0), (v(1) if c == 2 else None)

    def get(self, t):
        """object array of terms of a tensor (or of a Python scalar)"""
        if not isinstance(t, torch.Tensor):
            return np.array(self.scalar(t), dtype=object) if not isinstance(t, (list, tuple)) else np.array([self.scalar(x) for x in t], dtype=object)
        if not self.has(t):
            with torch._C._DisableTorchDispatch():
                a = t.detach().resolve_conj().resolve_neg().cpu()
                if a.dtype in (torch.bfloat16, torch.float16):
                    a = a.double()
                a = a.numpy()
            return _lift_np(a)
        re, im = self._views(t, self.mem[self._key(t)])
        if im is None:
            out = np.array(re, dtype=object, copy=True)
            out = out.reshape(re.shape)
            if t.is_neg():
                out = omap(lambda x: -x, out)
            return out
        sgn = t.is_conj()
        neg = t.is_neg()

        def f(a, b):
            if sgn:
                b = -b
            if neg:
                a, b = -a, -b
            return Cx(a, b)

        return omap(f, re, im)

    def scalar(self, x):
        if isinstance(x, (Node, Cx)):
            return x
        if isinstance(x, bool):
            return T.TRUE if x else T.FALSE
        if isinstance(x, complex):
            return Cx(T.const(x.real), T.const(x.imag))
        return T.const(x)

    def put(self, t, arr, src_prec=None):
        """write terms into a tensor's shadow cells"""
        m = self._ensure(t)
        re, im = self._views(t, m)
        arr = np.broadcast_to(np.asarray(arr, dtype=object), tuple(t.size()))
        prec = _PREC.get(t.dtype)
        low = self.lossy and prec is not None and src_prec is not None and prec < src_prec
        sgn, neg = t.is_conj(), t.is_neg()

        def rnd(x):
            if not low or x.op == "c":
                return x
            return T.fn("round%d" % prec, (x,), 0, val=x.val)

        if im is None:
            isb = t.dtype == torch.bool
            isint = not isb and not t.dtype.is_floating_point

            def conv(x):
                if isinstance(x, Cx):
                    x = x.real
                if isb and not x.isbool:
                    x = T.bnot(T.eq(x, T.ZERO))
                if not isb and x.isbool:
                    x = T.ite(x, T.ONE, T.ZERO)
                if neg:
                    x = -x
                return rnd(x)

            re[...] = omap(conv, arr) if arr.size else arr
        else:
            ra = omap(lambda z: rnd(T.cx(z if not (isinstance(z, Node) and z.isbool) else T.ite(z, T.ONE, T.ZERO)).real), arr)
            ia = omap(lambda z: rnd(T.cx(z if not (isinstance(z, Node) and z.isbool) else T.ite(z, T.ONE, T.ZERO)).imag), arr)
            if neg:
                ra, ia = omap(lambda x: -x, ra), omap(lambda x: -x, ia)
            if sgn:
                ia = omap(lambda x: -x, ia)
            re[...] = ra
            im[...] = ia

    def check(self, func, t, arr):
        if not self.validate or t.numel() == 0:
            return
        with torch._C._DisableTorchDispatch():
            c = t.detach().resolve_conj().resolve_neg()
            c = (c.double() if not is_cplx(c) else c.to(torch.complex128)).numpy()
        v = vals(np.broadcast_to(np.asarray(arr, dtype=object), tuple(t.size())))
        ok = np.isfinite(v) & np.isfinite(c)
        tol = 1e-6 if t.dtype in (torch.float64, torch.complex128) else 1e-3
        sc = np.maximum(1.0, np.abs(v))
        d = np.where(ok, np.abs(np.where(ok, v, 0) - np.where(ok, c, 0)) / sc, 0)
        self.n_validated += int(v.size)
        w = float(d.max()) if d.size else 0.0
        self.worst = max(self.worst, w)
        if w > tol:
            raise EncodingError(f"{func}: term values differ from torch by {w:g}")

    # ------------------------------------------------------------ inputs
    def new_input(self, t, arr):
        """declare tensor t symbolic with terms arr"""
        self._ensure(t)
        self.put(t, arr)
        return t

    def terms(self, t):
        return self.get(t)

    def branch(self, node):
        """the execution depends on this Boolean; returns its concrete value"""
        if node is T.TRUE or node is T.FALSE:
            return node is T.TRUE
        v = bool(node.val)
        self.path.append((node, v))
        return v

    # ------------------------------------------------------------ dispatch
    def __torch_dispatch__(self, func, types, args=(), kwargs=None):
        kwargs = kwargs or {}
        self.n_ops += 1
        name = func._schema.name.split("::")[1]
        if name in RANDOM:
            return self._random(func, name, args, kwargs)
        flat = []
        _flatten(args, flat)
        _flatten(tuple(kwargs.values()), flat)
        if not any(self.has(t) for t in flat):
            return func(*args, **kwargs)
        self.n_sym_ops += 1
        self.opset[name] = self.opset.get(name, 0) + 1
        if _is_view(func) or name in METADATA:
            return func(*args, **kwargs)
        h = HANDLERS.get(name)
        if h is None and name.endswith("_") and not name.startswith("_"):
            h0 = HANDLERS.get(name[:-1])
            if h0 is not None:
                return self._inplace(func, h0, args, kwargs)
        if h is not None:
            return self._run(func, h, args, kwargs)
        # fall back on torch's own decompositions
        from torch._decomp import decomposition_table

        d = decomposition_table.get(func)
        if d is not None:
            with self:
                return d(*args, **kwargs)
        if func._can_decompose():
            with self:
                r = func.decompose(*args, **kwargs)
            if r is not NotImplemented:
                return r
        return self._uninterpreted(func, name, args, kwargs)

    def _run(self, func, h, args, kwargs):
        prec = _prec(args)
        arrs = h(self, func, *args, **kwargs)
        if arrs is NotImplemented:
            return self._uninterpreted(func, func._schema.name.split("::")[1], args, kwargs)
        if isinstance(arrs, Direct):
            return arrs.value
        out = func(*args, **kwargs)
        outs = out if isinstance(out, (tuple, list)) else (out,)
        if not isinstance(arrs, (tuple, list)):
            arrs = (arrs,)
        for o, a in zip(outs, arrs):
            if a is None or not isinstance(o, torch.Tensor):
                continue
            self.check(func, o, a)
            self.put(o, a, prec)
        return out

    def _inplace(self, func, h0, args, kwargs):
        prec = _prec(args)
        arr = h0(self, func, *args, **kwargs)
        out = func(*args, **kwargs)
        self.check(func, args[0], arr)
        self.put(args[0], arr, prec)
        return out

    def _uninterpreted(self, func, name, args, kwargs):
        self.fallback.add(name)
        flat = []
        _flatten(args, flat)
        nodes = []
        for t in flat:
            if isinstance(t, torch.Tensor):
                for x in self.get(t).reshape(-1):
                    if isinstance(x, Cx):
                        nodes += [x.real, x.imag]
                    else:
                        nodes.append(x)
        tag = name + repr([a for a in args if not isinstance(a, (torch.Tensor, list, tuple))])
        out = func(*args, **kwargs)
        outs = out if isinstance(out, (tuple, list)) else (out,)
        k = 0
        for o in outs:
            if not isinstance(o, torch.Tensor):
                continue
            if not (o.dtype.is_floating_point or is_cplx(o)):
                continue
            with torch._C._DisableTorchDispatch():
                c = o.detach().resolve_conj().resolve_neg().numpy()
            arr = np.empty(c.shape, dtype=object)
            for idx in np.ndindex(*c.shape):
                v = c[idx]
                if is_cplx(o):
                    arr[idx] = Cx(T.fn(tag, tuple(nodes), k, val=float(v.real)), T.fn(tag, tuple(nodes), k + 1, val=float(v.imag)))
                    k += 2
                else:
                    arr[idx] = T.fn(tag, tuple(nodes), k, val=float(v))
                    k += 1
            self.put(o, arr)
        return out

    def _random(self, func, name, args, kwargs):
        state = rng_id(kwargs)
        out = func(*args, **kwargs)
        outs = out if isinstance(out, (tuple, list)) else (out,)
        if name in ("native_dropout", "bernoulli", "bernoulli_", "randperm", "randint", "multinomial"):
            return out  # concrete choice of the random source, recorded as a limitation
        o = outs[0]
        if not (o.dtype.is_floating_point or is_cplx(o)):
            return out
        with torch._C._DisableTorchDispatch():
            c = o.detach().resolve_conj().numpy()
        arr = np.empty(c.shape, dtype=object)
        tag = f"{state}s{'x'.join(map(str, o.shape))}"
        if o.dtype not in (torch.float64, torch.complex128):
            tag += str(o.dtype)[6:]  # other draws
        for i, idx in enumerate(np.ndindex(*c.shape)):
            v = c[idx]
            if is_cplx(o):
                arr[idx] = Cx(T.var(f"rnd{tag}_{i}r", v.real), T.var(f"rnd{tag}_{i}i", v.imag))
            else:
                x = T.var(f"rnd{tag}_{i}", float(v))
                if name in ("uniform_", "rand", "rand_like"):
                    self.rnd_bounds.append((x, 0, 1))
                arr[idx] = x
        if self.on_random is not None:
            arr = self.on_random(tag, name, o, arr)
        self.put(o, arr)
        return out


def rng_id(kwargs):
    """names the state of the random source: draws from equal states are equal"""
    g = (kwargs or {}).get("generator")
    st = g.get_state() if g is not None else torch.get_rng_state()
    return hashlib.blake2b(st.numpy().tobytes(), digest_size=5).hexdigest()


class Direct:
    def __init__(self, value):
        self.value = value


RANDOM = {"uniform_", "normal_", "rand", "randn", "rand_like", "randn_like", "bernoulli_", "bernoulli", "native_dropout", "randperm", "randint", "multinomial", "normal"}


def _flatten(x, out):
    if isinstance(x, torch.Tensor):
        out.append(x)
    elif isinstance(x, (list, tuple)):
        for y in x:
            _flatten(y, out)


def _prec(args):
    """precision of the operands (a Python scalar does not raise it)"""
    flat = []
    _flatten(args, flat)
    ps = [_PREC[t.dtype] for t in flat if t.dtype in _PREC]
    return max(ps) if ps else None


_view_cache = {}


def _is_view(func):
    r = _view_cache.get(func)
    if r is None:
        s = func._schema
        r = any(x.alias_info is not None and not x.alias_info.is_write for x in s.returns) and not any(
            a.alias_info is not None and a.alias_info.is_write for a in s.arguments
        )
        if s.name in ("aten::reshape", "aten::contiguous", "aten::to"):
            r = False
        _view_cache[func] = r
    return r


HANDLERS = {}

# in-place changes of sizes and strides only: the cells do not move
METADATA = {"transpose_", "t_", "squeeze_", "unsqueeze_", "as_strided_", "swapaxes_", "swapdims_", "detach_", "requires_grad_", "set_"}


def handler(*names):
    def deco(f):
        for n in names:
            HANDLERS[n] = f
        return f

    return deco


from . import ops  # noqa: E402,F401
