"""FIVE extracts one source by whitening and minimum-eigenvector updates."""
from checks import common as K
from checks import reflib as L
import torchiva

BOUNDS = "1-3 channels, DC bin plus 1-2 frequencies, 1-3 frames, 0-2 iterations, every reference microphone or None, eigendecomposition (LAPACK contract) or 1-3 power iterations, 0-2 batch dimensions; Laplace, Gauss and arbitrary source models; one size at a time up to 5 channels, 135 frequencies, 270 frames, 24 iterations, 12 power iterations, a batch of 9."
OUTSIDE = "larger sizes; the eigensolver itself is assumed to satisfy A V = V L, V unitary; floating-point rounding."


def configs(tier):
    c = []

    def add(n, **k):
        k["name"] = n
        c.append(k)

    add("c2", C=2, F=2, N=3)
    add("c2r1", C=2, F=3, N=2, ref=1)
    add("c2nopb", C=2, F=2, N=3, ref=None)
    add("c2i2", C=2, F=2, N=3, n_iter=2)
    add("c2i0", C=2, F=2, N=3, n_iter=0)
    add("c2p1", C=2, F=2, N=3, p=1)
    add("c2p2", C=2, F=2, N=3, p=2)
    add("c2p3", C=2, F=2, N=3, p=3, ref=1)
    add("c2p2nopb", C=2, F=2, N=3, p=2, ref=None)
    add("c3", C=3, F=2, N=4)
    add("c3r2", C=3, F=2, N=4, ref=2, model="any")
    add("c3p2", C=3, F=2, N=4, p=2)
    add("any", C=2, F=3, N=2, model="any", n_iter=2)
    add("gauss", C=2, F=3, N=2, model="gauss", n_iter=2)
    add("batch", C=2, F=2, N=3, B=(2,))
    add("batch22p", C=2, F=2, N=3, B=(2, 2), p=2)
    add("neg", C=2, F=2, N=3, ref=-1)
    add("negp", C=3, F=2, N=3, ref=-2, p=2)
    add("i2p2", C=2, F=2, N=3, n_iter=2, p=2)
    add("c1", C=1, F=2, N=2)
    add("bigN", C=2, F=2, N=270)
    add("bigF", C=2, F=135, N=2)
    add("bigi", C=2, F=2, N=3, n_iter=24)
    add("bigp", C=2, F=2, N=3, p=12)
    add("big5", C=5, F=2, N=5, ref=4)
    add("big5p", C=5, F=2, N=5, ref=4, p=3)
    add("bigb", C=2, F=2, N=3, B=(9,))
    if tier == "thorough":
        add("c3i2", C=3, F=3, N=3, n_iter=2)
        add("c3p3i2", C=3, F=2, N=4, n_iter=2, p=3)
        add("c4", C=4, F=2, N=5, ref=3)
    return c


def run(ctx, cfg):
    B = cfg.get("B", ())
    X = ctx.cpx("x", B + (cfg["C"], cfg["F"], cfg["N"]))
    x = ctx.arr(X)
    ref = cfg.get("ref", 0)
    n_iter = cfg.get("n_iter", 1)
    p = cfg.get("p")
    m = cfg.get("model")
    model = K.AnyModel(ctx) if m == "any" else torchiva.GaussModel() if m == "gauss" else None
    Y = torchiva.FIVE(n_iter=n_iter, model=model, proj_back_mic=ref, n_power_iter=p)(X)

    def one(i, xi):
        mod = K.Replayed([w[i] for w in model.outputs]) if m == "any" else L.gauss if m == "gauss" else L.laplace
        y = L.five(xi, mod, n_iter=n_iter, ref_mic=ref, n_power_iter=p)
        if m == "any":
            for k, (a, b) in enumerate(zip(model.inputs, mod.inputs)):
                ctx.eq(f"model{i}{k}", a[i], b)
        return y

    ctx.eq("Y", Y, K.over_batch(one, x, 3))
