"""WPE removes the delayed linear prediction and nothing else."""
from checks import common as K
from checks import reflib as L
import torchiva

BOUNDS = "1-3 channels, 1-2 frequencies, 1-5 frames, 1-3 taps, delay 0-3, 0-2 iterations, 0-2 batch dimensions; default and arbitrary weights; one size at a time up to 135 frequencies, 150 frames, 5 taps, delay 9, 24 iterations, a batch of 9."
OUTSIDE = "larger sizes; systems beyond 3x3 rely on the contract A X = B of the linear solver; floating-point rounding."


def configs(tier):
    c = []

    def add(n, **k):
        k["name"] = n
        c.append(k)

    add("c1t1d0", C=1, F=1, N=3, n_taps=1, n_delay=0)
    add("c1t1d1", C=1, F=1, N=3, n_taps=1, n_delay=1)
    add("c1t2d1", C=1, F=2, N=4, n_taps=2, n_delay=1)
    add("c1t3d1", C=1, F=1, N=5, n_taps=3, n_delay=1)
    add("c1t1d3", C=1, F=2, N=5, n_taps=1, n_delay=3)
    add("c1t2d2i2", C=1, F=1, N=5, n_taps=2, n_delay=2, n_iter=2)
    add("c1t2i0", C=1, F=1, N=4, n_taps=2, n_delay=1, n_iter=0)
    add("c2t1d1", C=2, F=1, N=3, n_taps=1, n_delay=1)
    add("c2t1d0", C=2, F=2, N=2, n_taps=1, n_delay=0)
    add("c2t1d1i2", C=2, F=1, N=3, n_taps=1, n_delay=1, n_iter=2)
    add("c2t2d1", C=2, F=1, N=4, n_taps=2, n_delay=1)
    add("c3t1d1", C=3, F=1, N=3, n_taps=1, n_delay=1)
    add("any1", C=1, F=2, N=4, n_taps=2, n_delay=1, n_iter=2, model="any")
    add("any2", C=2, F=1, N=4, n_taps=1, n_delay=2, n_iter=2, model="any")
    add("batch", C=1, F=1, N=3, n_taps=1, n_delay=1, B=(2,))
    add("batch22", C=2, F=1, N=3, n_taps=1, n_delay=1, B=(2, 1))
    add("eps", C=1, F=1, N=4, n_taps=2, n_delay=1, eps=0.25)
    add("eps2", C=2, F=1, N=3, n_taps=1, n_delay=1, eps=0.125, n_iter=2)
    add("long", C=1, F=1, N=3, n_taps=4, n_delay=3)
    add("bigN", C=1, F=1, N=150, n_taps=1, n_delay=1)
    add("bigN2", C=2, F=1, N=66, n_taps=1, n_delay=1)
    add("bigF", C=1, F=135, N=3, n_taps=1, n_delay=1)
    add("bigi", C=1, F=1, N=3, n_taps=1, n_delay=1, n_iter=24)
    add("bigd", C=1, F=1, N=12, n_taps=1, n_delay=9)
    add("bigt", C=1, F=1, N=8, n_taps=5, n_delay=1, model="any")
    add("bigb", C=1, F=1, N=3, n_taps=1, n_delay=1, B=(9,))
    if tier == "thorough":
        add("c1t3d2i3", C=1, F=2, N=7, n_taps=3, n_delay=2, n_iter=3)
        add("c2t2d1i2", C=2, F=2, N=4, n_taps=2, n_delay=1, n_iter=2)
        add("c3t1d1i2", C=3, F=1, N=4, n_taps=1, n_delay=1, n_iter=2)
        add("c4t1", C=4, F=1, N=4, n_taps=1, n_delay=1)
    return c


class TFModel(K.AnyModel):
    """weights shared by the channels: (..., chan, freq, frames) -> (..., freq, frames)"""

    def forward(self, Y):
        k = len(self.inputs)
        self.inputs.append(self.ctx.arr(Y))
        w = self.ctx.real(f"{self.name}{k}", tuple(Y.shape[:-3]) + tuple(Y.shape[-2:]), self.lo, self.hi)
        self.outputs.append(self.ctx.arr(w))
        return w


def run(ctx, cfg):
    B = cfg.get("B", ())
    X = ctx.cpx("x", B + (cfg["C"], cfg["F"], cfg["N"]))
    x = ctx.arr(X)
    kw = {k: cfg[k] for k in ("n_taps", "n_delay", "eps") if k in cfg}
    kw["n_iter"] = cfg.get("n_iter", 1)
    model = TFModel(ctx) if cfg.get("model") else None
    Y = torchiva.WPE(model=model, **kw)(X)

    def one(i, xi):
        mod = K.Replayed([w[i] for w in model.outputs]) if model is not None else None
        y = L.wpe(xi, mod, **kw)
        if mod is not None:
            for k, (a, b) in enumerate(zip(model.inputs, mod.inputs)):
                ctx.eq(f"model{i}{k}", a[i], b)
        return y

    ctx.eq("Y", Y, K.over_batch(one, x, 3))
    # nothing is predicted before n_delay + 1 frames have been seen
    d = min(cfg["N"], cfg["n_delay"] + 1)
    ctx.eq("head", ctx.arr(Y)[..., :d], x[..., :d])
    ctx.eq("input", X, x)
