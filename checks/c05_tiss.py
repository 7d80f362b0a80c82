"""T-ISS computes the published iterative source steering updates."""
import torch

from checks import common as K
from checks import reflib as L
import torchiva

BOUNDS = "2-4 channels (5 in the thorough tier), 1-2 frequencies, 1-5 frames, 0-3 taps, delay 0-3, 0-3 iterations, 0-2 batch dimensions; source models: Laplace, Gauss, and an arbitrary model with fresh symbolic weights at each call; all complex inputs; one size at a time up to 7 channels, 65 frequencies, 135 frames, 8 taps, delay 5, 24 iterations, a batch of 9."
OUTSIDE = "larger sizes, more iterations, floating-point rounding, non-finite inputs."


def configs(tier):
    c = []

    def add(n, **k):
        k["name"] = n
        c.append(k)

    add("det2x1x2", C=2, F=1, N=2)
    add("det2x2x2", C=2, F=2, N=2)
    add("det2x2x2i0", C=2, F=2, N=2, n_iter=0)
    add("det2x2x2i2", C=2, F=2, N=2, n_iter=2)
    add("det2x2x2i3", C=2, F=2, N=2, n_iter=3)
    add("det2r1", C=2, F=1, N=2, ref=1)
    add("det2nopb", C=2, F=1, N=2, ref=None, n_iter=2)
    add("det3x2x3", C=3, F=2, N=3)
    add("det3r2", C=3, F=1, N=2, ref=2, n_iter=2)
    add("det4x1x2", C=4, F=1, N=2)
    add("det1", C=1, F=2, N=3, n_iter=2)
    add("batch", C=2, F=1, N=2, B=(2,))
    add("batch22", C=2, F=1, N=2, B=(2, 1), n_src=1, n_taps=1, n_delay=1)
    add("taps", C=2, F=1, N=4, n_taps=2, n_delay=1)
    add("taps2", C=2, F=2, N=4, n_taps=2, n_delay=1, n_iter=2)
    add("taps3d0", C=2, F=1, N=3, n_taps=3, n_delay=0)
    add("taps1d2", C=2, F=1, N=5, n_taps=1, n_delay=2, ref=1)
    add("taps5", C=2, F=1, N=5, n_taps=5, n_delay=3)
    add("taps3c", C=3, F=1, N=3, n_taps=1, n_delay=1)
    add("over32", C=3, F=1, N=2, n_src=2)
    add("over32r2", C=3, F=1, N=2, n_src=2, ref=2)
    add("over32br2", C=3, F=1, N=2, n_src=2, ref=2, B=(2,))
    add("over31", C=3, F=2, N=2, n_src=1, ref=1)
    add("over31i2", C=3, F=1, N=2, n_src=1, ref=0, n_iter=2)
    add("over42", C=4, F=1, N=2, n_src=2, ref=3)
    add("over43", C=4, F=1, N=2, n_src=3)
    add("over32t", C=3, F=1, N=3, n_src=2, n_taps=1, n_delay=1)
    add("over32t2", C=3, F=1, N=3, n_src=2, n_taps=1, n_delay=1, n_iter=2)
    add("over21t", C=2, F=2, N=3, n_src=1, n_taps=2, n_delay=1, n_iter=2, ref=1)
    add("neg", C=2, F=1, N=2, ref=-1)
    add("neg3", C=3, F=1, N=2, ref=-2)
    add("frame1", C=2, F=2, N=1)
    add("frame1o", C=3, F=1, N=1, n_src=2)
    add("over31t2", C=3, F=1, N=3, n_src=1, n_taps=2, n_delay=0, ref=2)
    add("gauss", C=2, F=2, N=2, model="gauss", n_iter=2)
    add("gausst", C=2, F=1, N=3, model="gauss", n_taps=1, n_delay=1)
    add("any", C=2, F=2, N=2, model="any", n_iter=2)
    add("any3", C=3, F=1, N=3, model="any", n_iter=1)
    add("anyt", C=2, F=1, N=3, model="any", n_iter=2, n_taps=1, n_delay=1)
    add("anyo", C=3, F=1, N=3, model="any", n_iter=2, n_src=2, n_taps=1, n_delay=0)
    add("anyb", C=2, F=1, N=2, B=(2,), model="any", n_iter=2)
    add("toomany", C=2, F=1, N=2, n_src=3)
    add("eps", C=2, F=1, N=2, n_iter=2, eps=0.25)
    add("epso", C=3, F=1, N=2, n_src=2, n_iter=1, eps=0.125, n_taps=1)
    add("dmc", C=2, F=1, N=3, n_iter=2, n_taps=1, n_delay=1, use_dmc=True)
    add("dmco", C=3, F=1, N=2, n_src=2, n_iter=2, use_dmc=True, ref=2)
    add("dmc1", C=2, F=1, N=3, n_iter=1, n_taps=1, n_delay=1, use_dmc=True)
    add("dmc1o", C=3, F=1, N=2, n_src=2, n_iter=1, use_dmc=True, ref=2)
    add("big6", C=6, F=1, N=2)
    add("bigN", C=2, F=1, N=135, n_taps=1, n_delay=1)
    add("bigN2", C=3, F=1, N=33, n_taps=1, n_delay=1, n_src=2)
    add("bigF", C=2, F=65, N=2)
    add("bigi", C=2, F=1, N=2, n_iter=24)
    add("bigt", C=2, F=1, N=12, n_taps=8, n_delay=5)
    add("bigo", C=6, F=1, N=2, n_src=2, ref=5)
    add("bigo7", C=7, F=1, N=2, n_src=5, ref=6)
    add("bigb", C=2, F=1, N=2, B=(9,))
    if tier == "thorough":
        add("det3x2x3i2", C=3, F=2, N=3, n_iter=2)
        add("det4x2x4", C=4, F=2, N=4)
        add("det5x1x2", C=5, F=1, N=2)
        add("det2x3x4", C=2, F=3, N=4, n_iter=3)
        add("det2i5", C=2, F=1, N=3, n_iter=5)
        add("taps3c3", C=3, F=2, N=4, n_taps=3, n_delay=1)
        add("taps3cd3", C=2, F=1, N=8, n_taps=4, n_delay=3)
        add("over52", C=5, F=1, N=3, n_src=2, ref=4)
        add("over43t", C=4, F=1, N=3, n_src=3, n_taps=1, n_delay=1)
        add("over32t3", C=3, F=2, N=3, n_src=2, n_taps=2, n_delay=1, n_iter=3)
        add("any4", C=4, F=1, N=3, model="any", n_iter=2)
        add("anyot", C=3, F=2, N=4, model="any", n_iter=2, n_src=1, n_taps=2, n_delay=1)
    return c


def run(ctx, cfg):
    B = cfg.get("B", ())
    X = ctx.cpx("x", B + (cfg["C"], cfg["F"], cfg["N"]))
    x = ctx.arr(X)
    kw = {k: cfg[k] for k in ("n_iter", "n_taps", "n_delay", "n_src", "eps") if k in cfg}
    kw.setdefault("n_iter", 1)
    ref = cfg.get("ref", 0)
    m = cfg.get("model")
    if m == "any":
        model = K.AnyModel(ctx)
    elif m == "gauss":
        model = torchiva.GaussModel()
    else:
        model = None
    algo = torchiva.T_ISS(proj_back_mic=ref, model=model, use_dmc=cfg.get("use_dmc", False), **kw)
    if kw.get("n_src") and kw["n_src"] > cfg["C"]:
        ctx.raises("more sources than channels", Exception, lambda: algo(X))
        return
    with torch.no_grad() if cfg.get("use_dmc") else torch.enable_grad():
        Y = algo(X)

    def one(i, xi):
        if m == "any":
            mod = K.Replayed([w[i] for w in model.outputs])
        else:
            mod = L.gauss if m == "gauss" else L.laplace
        y = L.tiss(xi, mod, ref_mic=ref, recompute=cfg.get("use_dmc", False), **kw)
        if m == "any":
            for k, (a, b) in enumerate(zip(model.inputs, mod.inputs)):
                ctx.eq(f"model{i}{k}", a[i], b)
        if cfg.get("use_dmc") and kw["n_iter"] == 1:
            ctx.eq(f"same{i}", y, L.tiss(xi, mod, ref_mic=ref, **kw))
        return y

    ctx.eq("Y", Y, K.over_batch(one, x, 3))
