"""Helpers shared by the checks."""
import numpy as np
import torch

from symt import ref as R
from symt.harness import Violated


class AnyModel(torch.nn.Module):
    """a source model with arbitrary positive outputs: every call returns fresh
    symbolic weights, so a property shown with it holds for every model"""

    def __init__(self, ctx, name="w", lo=0.125, hi=None, extra=()):
        super().__init__()
        self.ctx, self.name, self.lo, self.hi, self.extra = ctx, name, lo, hi, extra
        self.inputs, self.outputs = [], []

    def forward(self, Y):
        k = len(self.inputs)
        self.inputs.append(self.ctx.arr(Y))
        shape = tuple(Y.shape[:-2]) + tuple(self.extra) + tuple(Y.shape[-2:])
        w = self.ctx.real(f"{self.name}{k}", shape, self.lo, self.hi)
        self.outputs.append(self.ctx.arr(w))
        return w


class Replayed:
    """reference-side counterpart: returns the recorded outputs, per batch item"""

    def __init__(self, outs):
        self.outs, self.k, self.inputs = outs, 0, []

    def __call__(self, Y):
        self.inputs.append(Y)
        if self.k >= len(self.outs):
            raise Violated(f"the source model was called {len(self.outs)} times, expected more")
        w = self.outs[self.k]
        self.k += 1
        return w


def sparse(ctx, name, n, k, box=4):
    """k symbolic samples (the first, the last and between) among fixed ones"""
    v = torch.tensor([float((7 * i * i + 3 * i) % 11 - 5) for i in range(n)], dtype=torch.float64)
    at = sorted({round(j * (n - 1) / max(1, k - 1)) for j in range(k)})
    s = ctx.real(name, (len(at),), -box, box)
    a = ctx.arr(v)
    for j, i in enumerate(at):
        v[i] = s[j]
    sa = ctx.arr(s)
    a = np.array(a, dtype=sa.dtype)
    for j, i in enumerate(at):
        a[i] = sa[j]
    return v, a


def over_batch(f, X, nd):
    """apply f to every item of the leading dimensions (all but the last nd)"""
    bs = X.shape[: X.ndim - nd]
    outs = {i: f(i, X[i]) for i in np.ndindex(*bs)}
    first = np.asarray(outs[next(iter(outs))])
    out = np.empty(bs + first.shape, dtype=first.dtype)
    for i, o in outs.items():
        out[i] = o
    return out


def dyadic(rng, shape, lo=-2, hi=2, n=16):
    a = np.array([rng.randint(lo * n, hi * n) / n for _ in range(int(np.prod(shape)))])
    return a.reshape(shape)
