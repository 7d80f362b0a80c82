"""FFT convolution equals linear convolution."""
import numpy as np
import torch

from symt import ref as R
from checks import common as K
import torchiva

BOUNDS = "every pair of signals with samples in [-4, 4], lengths 1-6 (9 thorough) in all order relations, modes full/same/valid, 0-2 batch dimensions with broadcasting, every axis; lengths up to 520x3, 4x350, 257x64, 130x130 and 300x40 with 2-3 symbolic samples per signal among fixed ones."
OUTSIDE = "longer signals; float rounding beyond the 1e-9 tolerance used for the irrational twiddle factors."
BOX = 4


def configs(tier):
    c = []
    top = 9 if tier == "thorough" else 6
    lens = [(a, b) for a in range(1, top + 1) for b in range(1, top + 1)]
    if tier != "thorough":
        lens += [(7, 8), (8, 8), (9, 2), (2, 9), (16, 3), (3, 17), (12, 12)]
    for a, b in lens:
        c.append(dict(name=f"n{a}x{b}", n1=a, n2=b))
    c.append(dict(name="b2", n1=4, n2=3, B1=(2,), B2=(2,)))
    c.append(dict(name="b22", n1=3, n2=4, B1=(2, 2), B2=(2, 2)))
    c.append(dict(name="bbc", n1=3, n2=3, B1=(2, 3), B2=(1, 3)))
    c.append(dict(name="bbc2", n1=4, n2=2, B1=(1, 2), B2=(2, 1)))
    for d in (0, 1, -1, -2, -3, 2):
        c.append(dict(name=f"dim{d}", n1=4, n2=2, B1=(2, 3), B2=(2, 3), dim=d))
    # long signals: a few symbolic samples among fixed ones, some of the outputs
    for a, b in ((300, 40), (40, 300), (130, 130), (520, 3), (4, 350), (257, 64)):
        c.append(dict(name=f"long{a}x{b}", n1=a, n2=b, sparse=True))
    c.append(dict(name="dim0v", n1=4, n2=2, dim=0))
    return c


def conv(a, b, mode):
    n1, n2 = len(a), len(b)
    n = n1 + n2 - 1
    full = []
    for k in range(n):
        s = 0
        for i in range(max(0, k - n2 + 1), min(n1, k + 1)):
            s = R.add(s, R.mul(a[i], b[k - i]))
        full.append(s)
    ln = {"full": n, "same": n1, "valid": max(n1, n2) - min(n1, n2) + 1}[mode]
    st = (n - ln) // 2
    out = np.empty(ln, dtype=a.dtype)
    for k in range(ln):
        out[k] = full[st + k]
    return out


def longer(ctx, cfg):
    x, xa = K.sparse(ctx, "x", cfg["n1"], 3)
    h, ha = K.sparse(ctx, "h", cfg["n2"], 2)
    for mode in ("full", "same", "valid"):
        y = ctx.arr(torchiva.fftconvolve(x, h, mode=mode))
        e = conv(xa, ha, mode)
        ctx.same(mode + " length", y.shape, e.shape)
        if y.shape != e.shape:
            continue
        n = len(e)
        at = sorted(set(range(min(3, n))) | set(range(max(0, n - 3), n)) | {n // 3, n // 2, 2 * n // 3, n // 2 + 1})
        at = [i for i in at if i < n]
        ctx.near(mode, y[at], e[at], tol=1e-8)


def run(ctx, cfg):
    if cfg.get("sparse"):
        return longer(ctx, cfg)
    dim = cfg.get("dim", -1)
    B1, B2 = cfg.get("B1", ()), cfg.get("B2", ())
    nd = len(B1) + 1
    ax = dim % nd

    def shape(B, n):
        s = list(B)
        s.insert(ax, n)
        return tuple(s)

    x = ctx.real("x", shape(B1, cfg["n1"]), -BOX, BOX)
    h = ctx.real("h", shape(B2, cfg["n2"]), -BOX, BOX)
    xa, ha = ctx.arr(x), ctx.arr(h)
    xm, hm = np.moveaxis(xa, ax, -1), np.moveaxis(ha, ax, -1)
    bs = np.broadcast_shapes(xm.shape[:-1], hm.shape[:-1])
    xm = np.broadcast_to(xm, bs + xm.shape[-1:])
    hm = np.broadcast_to(hm, bs + hm.shape[-1:])
    for mode in ("full", "same", "valid"):
        y = torchiva.fftconvolve(x, h, mode=mode, dim=dim)
        outs = {i: conv(xm[i], hm[i], mode) for i in np.ndindex(*bs)}
        e = np.empty(bs + outs[next(iter(outs))].shape, dtype=xm.dtype)
        for i, o in outs.items():
            e[i] = o
        ctx.near(mode, y, np.moveaxis(e, -1, ax), tol=1e-9)
    if "dim" not in cfg:
        ctx.near("default", torchiva.fftconvolve(x, h), np.stack([conv(xm[i], hm[i], "full") for i in np.ndindex(*bs)]).reshape(bs + (-1,)), tol=1e-9)
        ctx.raises("badmode", ValueError, lambda: torchiva.fftconvolve(x, h, mode="other"))
    ctx.near("x", x, xa, tol=1e-12)
    ctx.near("h", h, ha, tol=1e-12)
