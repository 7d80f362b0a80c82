"""AuxIVA-IP / OverIVA computes the published iterative projection updates."""
from checks import common as K
from checks import reflib as L
import torchiva
from torchiva import auxiva_ip

BOUNDS = "1-3 channels (4 thorough), 1-2 frequencies, 1-3 frames, 1-2 iterations, n_src from 1 to the number of channels or None, every reference microphone or None, 0-2 batch dimensions; Laplace, Gauss and arbitrary source models; one size at a time up to 5 channels (one source), 65 frequencies, 135 frames, 24 iterations, a batch of 9."
OUTSIDE = "larger sizes, more iterations, floating-point rounding."


def configs(tier):
    c = []

    def add(n, **k):
        k["name"] = n
        c.append(k)

    add("det2", C=2, F=1, N=2)
    add("det2f2", C=2, F=2, N=2, ref=1)
    add("det2i2", C=2, F=1, N=2, n_iter=2)
    add("det2none", C=2, F=1, N=2, n_src=None)
    add("det2nopb", C=2, F=2, N=2, ref=None)
    add("det3", C=3, F=1, N=4, cramer=2)
    add("det3r2", C=3, F=1, N=4, ref=2, model="any", cramer=2)
    add("det3i2", C=3, F=2, N=4, n_iter=2, ref=1, cramer=2)
    add("over21", C=2, F=1, N=2, n_src=1)
    add("over21r1", C=2, F=1, N=2, n_src=1, ref=1, n_iter=2)
    add("over32", C=3, F=1, N=2, n_src=2)
    add("over32r2", C=3, F=1, N=2, n_src=2, ref=2, model="any")
    add("over31", C=3, F=1, N=3, n_src=1, ref=2)
    add("over31nopb", C=3, F=1, N=2, n_src=1, ref=None, B=(2,))
    add("any2", C=2, F=2, N=3, model="any", n_iter=2)
    add("gauss2", C=2, F=2, N=2, model="gauss")
    add("batch", C=2, F=1, N=2, B=(2,))
    add("batch22", C=2, F=1, N=1, B=(2, 2), n_src=1)
    add("eps", C=2, F=1, N=2, eps=0.125, n_iter=2)
    add("epso", C=3, F=1, N=2, n_src=2, eps=0.125, model="any")
    add("neg", C=2, F=1, N=2, ref=-1)
    add("frame1", C=2, F=1, N=1)
    add("over41", C=4, F=1, N=2, n_src=1, ref=3)
    add("toomany", C=2, F=1, N=2, n_src=3)
    add("verbose", C=2, F=1, N=2, n_iter=2, verbose=True)
    add("verboseo", C=2, F=1, N=2, n_src=1, ref=1, B=(2,), verbose=True)
    add("one", C=1, F=2, N=2, n_iter=2)
    add("bigN", C=2, F=1, N=135)
    add("bigF", C=2, F=65, N=2)
    add("bigi", C=2, F=1, N=2, n_iter=24)
    add("bigo", C=5, F=1, N=2, n_src=1, ref=4)
    add("bigb", C=2, F=1, N=2, B=(9,))
    if tier == "thorough":
        add("det3c", C=3, F=1, N=2)
        add("det4", C=4, F=1, N=5)
        add("over42", C=4, F=1, N=5, n_src=2, ref=3)
        add("over32i2", C=3, F=2, N=2, n_src=2, n_iter=2, ref=2)
        add("det2i3", C=2, F=2, N=3, n_iter=3)
    return c


def run(ctx, cfg):
    B = cfg.get("B", ())
    X = ctx.cpx("x", B + (cfg["C"], cfg["F"], cfg["N"]))
    x = ctx.arr(X)
    n_src = cfg.get("n_src", cfg["C"])
    ref = cfg.get("ref", 0)
    n_iter = cfg.get("n_iter", 1)
    eps = cfg.get("eps")
    m = cfg.get("model")
    model = K.AnyModel(ctx) if m == "any" else torchiva.GaussModel() if m == "gauss" else None
    algo = torchiva.AuxIVA_IP(n_iter=n_iter, n_src=n_src, model=model, proj_back_mic=ref, eps=eps)
    if n_src is not None and n_src > cfg["C"]:
        ctx.raises("more sources than channels", Exception, lambda: algo(X))
        return
    if cfg.get("verbose"):
        auxiva_ip.print = lambda *a: None
        try:
            Y = algo(X, verbose=True)
        finally:
            del auxiva_ip.print
    else:
        Y = algo(X)

    def one(i, xi):
        mod = K.Replayed([w[i] for w in model.outputs]) if m == "any" else L.gauss if m == "gauss" else L.laplace
        y = L.auxiva_ip(xi, mod, n_iter=n_iter, n_src=n_src, ref_mic=ref, eps=eps or 1e-5)
        if m == "any":
            for k, (a, b) in enumerate(zip(model.inputs, mod.inputs)):
                ctx.eq(f"model{i}{k}", a[i], b)
        return y

    ctx.eq("Y", Y, K.over_batch(one, x, 3))
