"""AuxIVA-IP2 jointly updates both demixing filters by the generalized eigenvectors."""
from checks import common as K
from checks import reflib as L
import torchiva

BOUNDS = "2 channels, 1-2 frequencies, 1-3 frames, 0-2 iterations, both reference microphones or None, 0-2 batch dimensions; Laplace, Gauss and arbitrary source models; one size at a time up to 135 frequencies or frames, 16 iterations, a batch of 9."
OUTSIDE = "more frames and iterations, floating-point rounding."


def configs(tier):
    c = []

    def add(n, **k):
        k["name"] = n
        c.append(k)

    add("x1x2", F=1, N=2)
    add("x1x3r1", F=1, N=3, ref=1)
    add("x2x2", F=2, N=2)
    add("x2x2r1", F=2, N=2, ref=1)
    add("nopb", F=1, N=2, ref=None)
    add("i0", F=2, N=2, n_iter=0)
    add("i2", F=1, N=2, n_iter=2)
    add("i2nopb", F=1, N=2, n_iter=2, ref=None)
    add("any", F=1, N=3, model="any", n_iter=2)
    add("anynopb", F=2, N=2, model="any", ref=None)
    add("gauss", F=2, N=2, model="gauss")
    add("batch", F=1, N=2, B=(2,))
    add("batch22", F=1, N=2, B=(2, 1), ref=1, model="any")
    add("eps", F=1, N=2, eps=0.125)
    add("bigN", F=1, N=135)
    add("bigF", F=135, N=2, ref=1)
    add("bigi", F=1, N=3, n_iter=16, model="any")
    add("bigb", F=1, N=2, B=(9,))
    if tier == "thorough":
        add("i3", F=2, N=3, n_iter=3)
        add("any3", F=2, N=4, model="any", n_iter=3, ref=1)
    return c


def run(ctx, cfg):
    B = cfg.get("B", ())
    X = ctx.cpx("x", B + (2, cfg["F"], cfg["N"]))
    x = ctx.arr(X)
    ref = cfg.get("ref", 0)
    n_iter = cfg.get("n_iter", 1)
    eps = cfg.get("eps")
    m = cfg.get("model")
    model = K.AnyModel(ctx) if m == "any" else torchiva.GaussModel() if m == "gauss" else None
    Y = torchiva.AuxIVA_IP2(n_iter=n_iter, model=model, proj_back_mic=ref, eps=eps)(X)

    def one(i, xi):
        mod = K.Replayed([w[i] for w in model.outputs]) if m == "any" else L.gauss if m == "gauss" else L.laplace
        y = L.ip2(xi, mod, n_iter=n_iter, ref_mic=ref, eps=eps or 1e-5)
        if m == "any":
            for k, (a, b) in enumerate(zip(model.inputs, mod.inputs)):
                ctx.eq(f"model{i}{k}", a[i], b)
        return y

    ctx.eq("Y", Y, K.over_batch(one, x, 3))
