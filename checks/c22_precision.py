"""Double-precision inputs are processed in double precision, whatever torch's default dtype."""
import numpy as np
import torch

from checks import c15_batch as B15
from checks import common as K
import torchiva
from torchiva import linalg

BOUNDS = "every algorithm, source model, scaling and linear-algebra function on signals with 1-3 channels, 1-3 frequencies, 2-4 frames, default dtype float32 against float64; casts to a lower precision are uninterpreted functions, constants keep the value they have in their precision."
OUTSIDE = "the precision of the transform window, which is the module's own; rounding inside double precision; half precision; devices other than the CPU; larger sizes."


def configs(tier):
    c = []

    def add(n, **k):
        k["name"] = n
        k.setdefault("B", ())
        c.append(k)

    d = dict(C=2, F=2, N=2)
    add("tiss", algo="tiss", C=2, F=1, N=2)
    add("tisst", algo="tiss", C=2, F=1, N=3, kw=dict(n_taps=1, n_delay=1, n_iter=2, proj_back_mic=1))
    add("tisso", algo="tiss", C=3, F=1, N=3, kw=dict(n_src=2, proj_back_mic=2))
    add("tisso0", algo="tiss", C=3, F=1, N=3, kw=dict(n_src=2, proj_back_mic=0, model="gauss"))
    add("tissot", algo="tiss", C=3, F=1, N=3, kw=dict(n_src=1, n_taps=1, model="gauss"))
    add("tissdmc", algo="tiss", C=2, F=1, N=2, kw=dict(use_dmc=True))
    add("tissnopb", algo="tiss", C=2, F=1, N=2, kw=dict(proj_back_mic=None))
    add("tissb", algo="tiss", C=2, F=1, N=2, B=(2,))
    add("tissnmf", algo="tiss", C=2, F=2, N=2, kw=dict(model="nmf"))
    add("ip", algo="ip", C=2, F=1, N=3)
    add("ipnopb", algo="ip", C=2, F=1, N=3, kw=dict(proj_back_mic=None))
    add("ipo", algo="ip", C=3, F=1, N=3, kw=dict(n_src=2, proj_back_mic=2))
    add("ipo0", algo="ip", C=3, F=1, N=3, kw=dict(n_src=1, proj_back_mic=0, model="gauss"))
    add("ip2", algo="ip2", **d)
    add("ip2i", algo="ip2", C=2, F=1, N=3, kw=dict(n_iter=2, proj_back_mic=1, model="gauss"))
    add("ip2nopb", algo="ip2", C=2, F=1, N=3, kw=dict(proj_back_mic=None))
    add("five", algo="five", **d)
    add("five3", algo="five", C=3, F=2, N=3)
    add("fivep", algo="five", C=2, F=2, N=2, kw=dict(n_power_iter=2))
    add("fivep3", algo="five", C=3, F=2, N=3, kw=dict(n_power_iter=2))
    add("fivenopb", algo="five", kw=dict(proj_back_mic=None), **d)
    add("wpe", algo="wpe", C=1, F=1, N=4, kw=dict(n_taps=2, n_delay=1))
    add("wpe2", algo="wpe", C=2, F=1, N=6, kw=dict(n_taps=1, n_delay=1, n_iter=2))
    add("mvdr", algo="mvdr", C=2, F=1, N=2)
    add("mvdrp", algo="mvdr", kw=dict(n_power_iter=2, ref_mic=1, S=2), **d)
    add("mvdrscm", algo="mvdr", C=2, F=2, N=3, kw=dict(mvdr_type="scm", S=2))
    add("mvdr3", algo="mvdr", C=3, F=1, N=3, kw=dict(M=3))
    add("mwf", algo="mwf", kw=dict(S=2), **d)
    add("mwft", algo="mwf", kw=dict(M=4, S=2, time_invariant=False), **d)
    add("gev", algo="gev", kw=dict(S=2, ref_mic=1), **d)
    add("gev3", algo="gev", C=3, F=1, N=3)
    add("laplace", algo="laplace", **d)
    add("gauss", algo="gauss", **d)
    add("nmf", algo="nmf", C=2, F=2, N=3)
    add("pb", algo="pb", C=3, F=1, N=2, max_paths=3)
    for a in ("l2", "phase", "fft"):
        add(a, algo=a, C=3, F=2, N=2)
    for a in ("lp", "lpq"):
        add(a, algo=a, C=2, F=2, N=2, explore=False)
    add("stft", algo="stft", C=2, F=1, N=6)
    add("energetic", algo="energetic", C=3, F=1, N=2, kw=dict(num=2), max_paths=4)
    for a in ("tiss", "ip2", "five"):
        add("sep" + a, algo="sep", C=2, F=1, N=4, kw=dict(algo=a))
    for f in LIN:
        add("lin_" + f, lin=f, size=2)
        if f not in ("eigh_2x2", "inv_2x2", "eigh_2x2b"):
            add("lin3_" + f, lin=f, size=3)
    if tier == "thorough":
        add("tissbig", algo="tiss", C=4, F=2, N=4, kw=dict(n_src=2, n_taps=2, n_delay=1, n_iter=2))
        add("ipbig", algo="ip", C=4, F=2, N=4, kw=dict(n_src=2, n_iter=2))
        add("fivebig", algo="five", C=4, F=2, N=8, kw=dict(n_iter=2))
        add("mvdrbig", algo="mvdr", C=4, F=2, N=4, kw=dict(S=2, M=3))
        add("wpebig", algo="wpe", C=2, F=1, N=12, kw=dict(n_taps=3, n_delay=2, n_iter=2))
    return c


LIN = dict(
    solve_loaded=lambda A, B, b: linalg.solve_loaded(B, b),
    solve_loaded_general=lambda A, B, b: linalg.solve_loaded_general(A, b),
    inv_loaded=lambda A, B, b: linalg.inv_loaded(B),
    inv_2x2=lambda A, B, b: linalg.inv_2x2(B),
    eigh=lambda A, B, b: linalg.eigh(B)[0],
    eigh_2x2=lambda A, B, b: linalg.eigh_2x2(B)[1],
    eigh_2x2b=lambda A, B, b: linalg.eigh_2x2(A + A.mH, B)[1],
    gevd=lambda A, B, b: linalg.eigh(A + A.mH, B)[0],
    bmm=lambda A, B, b: linalg.bmm(A, B),
    divide=lambda A, B, b: linalg.divide(A, B.real),
    multiply=lambda A, B, b: linalg.multiply(A.real, B),
    mag=lambda A, B, b: linalg.mag(A),
)

LOW = {torch.float64: torch.float32, torch.complex128: torch.complex64}


def default(dt, f):
    old = torch.get_default_dtype()
    torch.set_default_dtype(dt)
    try:
        return f()
    finally:
        torch.set_default_dtype(old)


def make(cfg):
    kw = dict(cfg.get("kw", {}))
    if cfg["algo"] == "nmf":
        return torchiva.NMFModel()
    if kw.get("model") == "nmf":
        return torchiva.T_ISS(n_iter=1, model=torchiva.NMFModel())
    return B15.algo(cfg)


def run(ctx, cfg):
    with torch.no_grad():
        if "lin" in cfg:
            n = cfg["size"]
            A = ctx.cpx("a", (n, n))
            G = ctx.cpx("g", (n, n + 1))
            b = ctx.cpx("b", (n, 1))
            f = LIN[cfg["lin"]]

            def go(A, G, b):
                return f(A, G @ G.mH, b)

            ins = (A, G, b)
        else:
            ins = (ctx.cpx("x", cfg["B"] + (cfg["C"], cfg["F"], cfg["N"])),)

            # the separator's window has the precision of the module
            made = default(torch.float64, lambda: make(cfg)) if cfg["algo"] == "sep" else None

            def go(X):
                ctx.reseed()
                return (made or make(cfg))(X)

        hi = default(torch.float64, lambda: go(*ins))
        lo = default(torch.float32, lambda: go(*ins))
        ctx.same("dtype", str(lo.dtype), str(hi.dtype))
        ctx.same("double", hi.dtype in LOW, True)
        ctx.eq("value", lo, hi, tol=1e-12)
        if "lin" not in cfg and cfg["algo"] in ("stft", "sep"):
            return
        # single precision stays single
        g = torch.Generator().manual_seed(1)
        small = [torch.randn(t.shape, generator=g, dtype=torch.float32) + 1j * torch.randn(t.shape, generator=g, dtype=torch.float32) for t in ins]
        for dt in (torch.float32, torch.float64):
            ctx.same(f"single under {dt}", default(dt, lambda: go(*small)).dtype, LOW.get(hi.dtype))
