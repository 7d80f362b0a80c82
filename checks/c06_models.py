"""Source models return the documented inverse-power estimates."""
import numpy as np
import torch

from checks import common as K
from checks import reflib as L
from symt import ref as R
import torchiva

BOUNDS = "1-3 frequencies, 1-3 frames, 0-3 batch dimensions, real and complex input, default and custom eps; NMF with 1-3 basis vectors, every initial state, first and second call, batches of 1-4 signals; one size at a time up to 270 frequencies or frames (70 for NMF), 12 basis vectors, batches of 33 (9 for NMF)."
OUTSIDE = "larger sizes, float rounding; neural models (see C20)."


def configs(tier):
    c = []

    def add(name, **k):
        k["name"] = name
        c.append(k)

    for m in ("laplace", "gauss"):
        add(f"{m}", m=m, F=2, N=2)
        add(f"{m}r", m=m, F=3, N=2, real=True)
        add(f"{m}eps", m=m, F=2, N=2, eps=0.5)
        add(f"{m}b", m=m, F=2, N=1, B=(2,))
        add(f"{m}b2", m=m, F=1, N=3, B=(2, 2))
        add(f"{m}b3", m=m, F=3, N=1, B=(1, 2, 2))
        add(f"{m}sq", m=m, F=3, N=3, B=(3,))
    add("nmf", m="nmf", F=2, N=3, K=2)
    add("nmf1", m="nmf", F=2, N=2, K=1, B=(2,))
    add("nmf3", m="nmf", F=3, N=2, K=3, B=(1,))
    add("nmfb", m="nmf", F=2, N=3, K=2, B=(2, 2))
    add("nmfr", m="nmf", F=3, N=2, K=2, B=(2,), real=True)
    add("nmfeps", m="nmf", F=2, N=3, K=2, B=(2,), eps=0.25)
    add("nmfdef", m="nmf", F=3, N=2, K=None)
    add("nmf1frame", m="nmf", F=3, N=1, K=2)
    add("nmf1freq", m="nmf", F=1, N=3, K=2, B=(2,))
    add("nmf11", m="nmf", F=1, N=1, K=1, B=(1, 1))
    add("nmfwide", m="nmf", F=2, N=2, K=4)
    add("cost", m="cost", F=2, N=3, B=(2,))
    add("registry", m="registry")
    for m in ("laplace", "gauss"):
        add(f"{m}F", m=m, F=140 if m == "gauss" else 270, N=2)
        add(f"{m}N", m=m, F=2, N=270)
        add(f"{m}B", m=m, F=2, N=1, B=(11, 3))
    add("nmfF", m="nmf", F=70, N=2, K=2)
    add("nmfN", m="nmf", F=2, N=70, K=2)
    add("nmfK", m="nmf", F=2, N=2, K=12)
    add("nmfB", m="nmf", F=2, N=2, K=2, B=(9,))
    add("costF", m="cost", F=70, N=3)
    add("costN", m="cost", F=2, N=70, B=(2,))
    if tier == "thorough":
        add("nmf4", m="nmf", F=3, N=4, K=3, B=(2,))
        add("laplace4", m="laplace", F=4, N=4, B=(2, 3))
        add("gauss4", m="gauss", F=4, N=4, B=(2, 3))
    return c


def run(ctx, cfg):
    if cfg["m"] == "registry":
        ctx.real("u", (1,))
        from torchiva import models

        ctx.same("names", sorted(torchiva.source_models), ["gauss", "laplace", "nmf"])
        for n, cl in dict(laplace=models.LaplaceModel, gauss=models.GaussModel, nmf=models.NMFModel).items():
            ctx.same(n, type(torchiva.source_models[n]), cl)
        return
    B = cfg.get("B", ())
    shape = B + (cfg["F"], cfg["N"])
    X = ctx.real("x", shape) if cfg.get("real") else ctx.cpx("x", shape)
    x = ctx.arr(X)
    eps = cfg.get("eps")
    e = 1e-5 if eps is None else eps
    if cfg["m"] == "cost":
        c = torchiva.LaplaceModel().cost(X)
        ctx.eq("cost", c, R.tsum(R.mean(R.sqrt(R.tsum(R.abs2(x), axis=-2)), axis=-1), axis=-1))
        return
    if cfg["m"] in ("laplace", "gauss"):
        cl = dict(laplace=torchiva.LaplaceModel, gauss=torchiva.GaussModel)[cfg["m"]]
        model = cl(eps=eps) if eps is not None else cl()
        w = model(X)
        ctx.eq("w", w, getattr(L, cfg["m"])(x, eps=e))
        ctx.eq("again", model(X), getattr(L, cfg["m"])(x, eps=e))
    else:
        kw = {} if cfg["K"] is None else {"n_basis": cfg["K"]}
        model = torchiva.NMFModel(eps=eps, **kw)
        w = model(X)
        k = cfg["K"] or 2
        P = R.abs2(x).reshape((-1,) + shape[-2:])
        T0, V0 = ctx.arr(model.T), ctx.arr(model.V)
        ctx.same("T shape", T0.shape, (P.shape[0], cfg["F"], k))
        ctx.same("V shape", V0.shape, (P.shape[0], cfg["N"], k))
        ctx.eq("w", w, R.rec(estimate(T0, V0, e)).reshape(shape))
        # the first call starts from uniform draws on [0.1, 1]
        draws = [R.add(R.mul(0.9, np.asarray(r)), 0.1) for r in ctx.randoms]
        if len(draws) == 2 and draws[0].shape == T0.shape and draws[1].shape == V0.shape:
            Ta = R.vmax(R.mul(draws[0], ratio(P, draws[0], draws[1], e)), e)
            ctx.eq("T1", T0, Ta)
            ctx.eq("V1", V0, R.vmax(R.mul(draws[1], ratio(np.swapaxes(P, -1, -2), draws[1], Ta, e)), e))
        # the transition from the state after the first call (every initial state)
        Ta, Va = T0, V0
        w2 = model(X)
        T1 = R.vmax(R.mul(Ta, ratio(P, Ta, Va, e)), e)
        V1 = R.vmax(R.mul(Va, ratio(np.swapaxes(P, -1, -2), Va, T1, e)), e)
        ctx.eq("w2", w2, R.rec(estimate(T1, V1, e)).reshape(shape))
        ctx.eq("T2", model.T, T1)
        ctx.eq("V2", model.V, V1)
        w = w2
    ctx.lt("positive", np.zeros(shape), w, tol=0)
    ctx.le("bounded", w, np.full(shape, 1 / e), tol=1e-9)
    ctx.eq("x kept", X, x)


def estimate(T, V, eps):
    return R.vmax(R.mm(T, np.swapaxes(V, -1, -2)), eps)


def ratio(P, T, V, eps):
    """multiplicative update factor: sqrt( (P / R^2) V / (1/R) V )"""
    i = R.rec(estimate(T, V, eps))
    return R.sqrt(R.div(R.mm(R.mul(P, R.mul(i, i)), V), R.mm(i, V)))
