"""Matrix helpers compute what they say for every input."""
from fractions import Fraction

import numpy as np
import torch

from checks import common as K
from checks import reflib as L
from symt import ref as R
from symt import term as T
import torchiva
from torchiva import linalg

BOUNDS = "matrices up to 3x3 (4x4 thorough) in closed form and up to 7x7 with up to 20 right-hand sides by the contract of the solver, products of 9x30 by 30x8 matrices, Hankel matrices of 24 rows, real and complex, 0-2 batch dimensions of up to 9 by 3, every load/eps value of the configurations."
OUTSIDE = "larger sizes, floating-point rounding; the linear solver of torch is modelled by Cramer's rule (exact arithmetic) or its contract."


def configs(tier):
    c = []

    def add(name, **k):
        k["name"] = name
        c.append(k)

    for a in "cr":
        for b in "cr":
            add(f"mul{a}{b}", f="multiply", a=a, b=b)
        add(f"mag{a}", f="mag", a=a)
        add(f"herm{a}", f="hermite", a=a)
        for n in (1, 2, 3):
            add(f"sl{n}{a}", f="solve_loaded", n=n, a=a, m=2)
            add(f"il{n}{a}", f="inv_loaded", n=n, a=a)
            add(f"sg{n}{a}", f="solve_general", n=n, a=a, cramer=2)
        add(f"slv{a}", f="solve_loaded", n=2, a=a, m=None)
        add(f"sl2b{a}", f="solve_loaded", n=2, a=a, m=1, B=(2,), load=0.125)
        add(f"sg2b{a}", f="solve_general", n=2, a=a, B=(2,), load=0.25, eps=0.5)
        add(f"sgr{a}", f="solve_general", n=2, rows=3, a=a)
        add(f"inv2{a}", f="inv2", a=a)
        add(f"inv2b{a}", f="inv2", a=a, B=(2,), eps=0.25)
        add(f"div{a}", f="divide", a=a)
        add(f"hank{a}", f="hankel", a=a, n=6)
        add(f"hankb{a}", f="hankel", a=a, n=5, B=(2, 2))
    add("bmm23", f="bmm", s=(2, 3, 2))
    add("bmmb", f="bmm", s=(2, 2, 2), B=(2, 2))
    add("bmmbc", f="bmm", s=(1, 3, 2), B=(2,), BB=())
    for a in "cr":
        add(f"dload{a}", f="diagonal_loading", a=a, n=3)
        add(f"dloadb{a}", f="diagonal_loading", a=a, n=2, B=(2, 2))
    add("hermdims", f="hermdims")
    add("dtypes", f="dtypes")
    for a in "cr":
        add(f"bigsl5{a}", f="solve_loaded", n=5, a=a, m=2)
        add(f"bigsl7{a}", f="solve_loaded", n=7, a=a, m=1)
        add(f"bigsg5{a}", f="solve_general", n=5, a=a)
        add(f"bigslm{a}", f="solve_loaded", n=2, a=a, m=20)
        add(f"bigslb{a}", f="solve_loaded", n=2, a=a, m=1, B=(9, 3))
        add(f"bigsgb{a}", f="solve_general", n=2, a=a, B=(9, 3))
        add(f"bigil5{a}", f="inv_loaded", n=5, a=a)
        add(f"biginv2b{a}", f="inv2", a=a, B=(9, 3))
        add(f"bighank{a}", f="hankel", a=a, n=24)
        add(f"bighankb{a}", f="hankel", a=a, n=7, B=(5, 3))
        add(f"bigdload{a}", f="diagonal_loading", a=a, n=12)
    add("bigbmm", f="bmm", s=(9, 30, 8))
    add("bigbmmb", f="bmm", s=(2, 3, 2), B=(9, 3))
    if tier == "thorough":
        for a in "cr":
            add(f"sl4{a}", f="solve_loaded", n=4, a=a, m=1)
            add(f"il4{a}", f="inv_loaded", n=4, a=a)
            add(f"sg4{a}", f="solve_general", n=4, a=a)
            add(f"sg3b{a}", f="solve_general", n=3, a=a, B=(2, 2), cramer=2)
    return c


def inp(ctx, name, shape, kind):
    return ctx.cpx(name, shape) if kind == "c" else ctx.real(name, shape)


def run(ctx, cfg):
    globals()["run_" + cfg["f"]](ctx, cfg)


def run_multiply(ctx, cfg):
    x, y = inp(ctx, "x", (2, 3), cfg["a"]), inp(ctx, "y", (2, 3), cfg["b"])
    ctx.eq("xy", linalg.multiply(x, y), R.mul(ctx.arr(x), ctx.arr(y)))
    z = inp(ctx, "z", (3,), cfg["b"])
    ctx.eq("xz", linalg.multiply(x, z), R.mul(ctx.arr(x), ctx.arr(z)))


def run_mag(ctx, cfg):
    x = inp(ctx, "x", (2, 2), cfg["a"])
    a = ctx.arr(x)
    ctx.eq("mag_sq", linalg.mag_sq(x), R.abs2(a))
    ctx.eq("mag", linalg.mag(x), R.absv(a))
    ctx.le("nonneg", np.zeros((2, 2)), linalg.mag(x))


def run_hermite(ctx, cfg):
    x = inp(ctx, "x", (2, 3, 2), cfg["a"])
    ctx.eq("H", linalg.hermite(x), R.conj(np.swapaxes(ctx.arr(x), -1, -2)))
    ctx.eq("HH", linalg.hermite(linalg.hermite(x)), ctx.arr(x))


def run_hermdims(ctx, cfg):
    x = ctx.cpx("x", (2, 3, 2))
    for d in ((-3, -1), (0, 1), (-3, -2)):
        ctx.eq(f"H{d}", linalg.hermite(x, *d), R.conj(np.swapaxes(ctx.arr(x), *d)))


def run_bmm(ctx, cfg):
    m, k, n = cfg["s"]
    B = cfg.get("B", ())
    x, y = ctx.cpx("x", B + (m, k)), ctx.cpx("y", cfg.get("BB", B) + (k, n))
    ctx.eq("xy", linalg.bmm(x, y), R.mm(ctx.arr(x), ctx.arr(y)))


def run_divide(ctx, cfg):
    x, y = inp(ctx, "x", (2, 2), cfg["a"]), ctx.real("y", (2, 2))
    ctx.eq("d", linalg.divide(x, y), R.div(ctx.arr(x), R.vmax(ctx.arr(y), 1e-7)))
    ctx.eq("e", linalg.divide(x, y, eps=0.5), R.div(ctx.arr(x), R.vmax(ctx.arr(y), 0.5)))


def run_solve_loaded(ctx, cfg):
    B, n, m = cfg.get("B", ()), cfg["n"], cfg["m"]
    A, b = inp(ctx, "A", B + (n, n), cfg["a"]), inp(ctx, "b", B + ((n, m) if m else (n,)), cfg["a"])
    kw = {"load": cfg["load"]} if "load" in cfg else {}
    x = linalg.solve_loaded(A, b, **kw)
    Aa, ba = ctx.arr(A), ctx.arr(b)
    e = L.solve_loaded(Aa, ba if m else ba[..., None], load=cfg.get("load", 1e-6))
    ctx.eq("x", x, e if m else e[..., 0])
    ctx.eq("A", A, Aa)
    ctx.eq("b", b, ba)


def run_inv_loaded(ctx, cfg):
    n = cfg["n"]
    A = inp(ctx, "A", (n, n), cfg["a"])
    Aa = ctx.arr(A)
    for load in (1e-6, 0.25):
        f = np.asarray(L.load_factor(Aa, load))
        ctx.eq(f"inv{load}", linalg.inv_loaded(A, load=load), R.inv(R.add(Aa, R.mul(f[..., None, None], np.eye(n)))))
    f = np.asarray(L.load_factor(Aa, 1e-6))
    ctx.eq("default", linalg.inv_loaded(A), R.inv(R.add(Aa, R.mul(f[..., None, None], np.eye(n)))))


def run_diagonal_loading(ctx, cfg):
    n, B = cfg["n"], cfg.get("B", ())
    A = inp(ctx, "A", B + (n, n), cfg["a"])
    a = ctx.arr(A)
    for k, s in enumerate({(n,), B + (n,)}):
        D = ctx.real(f"d{k}", s)
        d = ctx.arr(D)
        ctx.eq(f"A + diag(d){k}", linalg.diagonal_loading(A, D), R.add(a, R.mul(d[..., None], np.eye(n))))
    ctx.eq("A", A, a)


def run_solve_general(ctx, cfg):
    B, n = cfg.get("B", ()), cfg["n"]
    r = cfg.get("rows", n)
    A, b = inp(ctx, "A", B + (r, n), cfg["a"]), inp(ctx, "b", B + (r, 2), cfg["a"])
    kw = {k: cfg[k] for k in ("load", "eps") if k in cfg}
    Aa, ba = ctx.arr(A), ctx.arr(b)
    x = linalg.solve_loaded_general(A, b, **kw)
    ctx.eq("x", x, L.solve_general(Aa, ba, **kw))
    ctx.eq("A", A, Aa)
    ctx.eq("b", b, ba)


def run_inv2(ctx, cfg):
    B = cfg.get("B", ())
    eps = cfg.get("eps", 1e-6)
    A = inp(ctx, "A", B + (2, 2), cfg["a"])
    a = ctx.arr(A)
    V = linalg.inv_2x2(A, eps=eps) if "eps" in cfg else linalg.inv_2x2(A)
    det = R.sub(R.mul(a[..., 0, 0], a[..., 1, 1]), R.mul(a[..., 0, 1], a[..., 1, 0]))
    small = R.lt(R.absv(det), eps)
    d = np.asarray(R.where(small, eps, det))
    adj = np.empty_like(a)
    adj[..., 0, 0], adj[..., 1, 1] = a[..., 1, 1], a[..., 0, 0]
    adj[..., 0, 1], adj[..., 1, 0] = R.mul(-1, a[..., 0, 1]), R.mul(-1, a[..., 1, 0])
    ctx.eq("inv", V, R.div(adj, d[..., None, None]))
    ctx.raises("3x3", ValueError, lambda: linalg.inv_2x2(torch.zeros(3, 3)))
    ctx.raises("2x3", ValueError, lambda: linalg.inv_2x2(torch.zeros(2, 3)))


def run_hankel(ctx, cfg):
    B, n = cfg.get("B", ()), cfg["n"]
    x = inp(ctx, "x", B + (n,), cfg["a"])
    a = ctx.arr(x)
    for rows in range(1, n + 1):
        h = linalg.hankel_view(x, rows)
        e = np.stack([a[..., r : r + n - rows + 1] for r in range(rows)], axis=-2)
        ctx.eq(f"h{rows}", h, e)


def run_dtypes(ctx, cfg):
    from torchiva import dtypes as D

    ctx.real("u", (1,))
    pairs = {torch.float32: torch.complex64, torch.float64: torch.complex128}
    for f, c in pairs.items():
        for t in (f, torch.zeros(1, dtype=f)):
            ctx.same(f"f2c {f}", D.dtype_f2cpx(t), c)
            ctx.same(f"f2f {f}", D.dtype_cpx2f(t), f)
            ctx.same(f"isf {f}", D.is_complex_type(t), False)
        for t in (c, torch.zeros(1, dtype=c)):
            ctx.same(f"c2c {f}", D.dtype_f2cpx(t), c)
            ctx.same(f"c2f {f}", D.dtype_cpx2f(t), f)
            ctx.same(f"isc {f}", D.is_complex_type(t), True)
