"""The memory-efficient mode of T-ISS gives the same outputs and gradients."""
import numpy as np
import torch

from checks import common as K
from checks import reflib as L
from symt import ref as R
import torchiva
from torchiva import t_iss

BOUNDS = "2-4 channels, 1-2 frequencies and 30, 1-4 frames and 60, 1-3 iterations, 0-2 taps, fewer sources than channels, 0-1 batch dimensions; outputs and the inputs of a source model of arbitrary weights, gradients with respect to the input and to the parameters of a learnable source model."
OUTSIDE = "more iterations and larger sizes; the comparison of the two modes' gradients covers the region of inputs where each clamp is in the state of the reference point; floating-point rounding."


def configs(tier):
    c = []

    def add(name, **k):
        k["name"] = name
        c.append(k)

    add("out2", C=2, F=1, N=2)
    add("out2i2", C=2, F=1, N=2, n_iter=2, budget=20)
    add("out2i2t", C=2, F=1, N=2, n_iter=2, n_taps=1, ref=None, budget=20)
    add("out2t", C=2, F=1, N=2, n_taps=1, n_delay=1)
    add("out3", C=3, F=1, N=2, budget=40)
    add("out3o", C=3, F=1, N=2, n_src=2)
    add("out3ot", C=3, F=1, N=2, n_src=1, n_taps=1, ref=2)
    add("out2b", C=2, F=1, N=2, B=(2,), ref=1)
    # a model with arbitrary weights: its inputs are compared as well
    add("any2", C=2, F=1, N=2, any=True)
    add("any2i2", C=2, F=1, N=2, n_iter=2, any=True)
    add("any2i3", C=2, F=1, N=2, n_iter=3, any=True)
    add("any2i2t", C=2, F=1, N=2, n_iter=2, n_taps=1, ref=None, any=True, budget=30)
    add("any3i2", C=3, F=1, N=2, n_iter=2, any=True)
    add("any3oi2", C=3, F=1, N=2, n_iter=2, n_src=2, any=True, budget=30)
    add("any2bi2", C=2, F=1, N=2, n_iter=2, B=(2,), any=True)
    add("any2F", C=2, F=30, N=2, any=True)
    add("any2N", C=2, F=1, N=60, any=True)
    add("any4", C=4, F=1, N=2, any=True)
    for k in (1, 2):
        add(f"ck{k}", C=2, F=1, N=3, grad="ck", n_iter=k)
    add("ckt", C=2, F=1, N=3, grad="ck", n_iter=2, n_taps=1, n_delay=1, ref=1)
    add("cko", C=3, F=1, N=4, grad="ck", n_iter=2, n_src=2, ref=2, cramer=1)
    add("ckb", C=2, F=1, N=3, grad="ck", n_iter=1, B=(2,), ref=None)
    add("ckr", C=2, F=1, N=3, grad="ck", n_iter=2, random=True)
    add("ckro", C=3, F=1, N=3, grad="ck", n_iter=2, n_src=2, random=True, cramer=1)
    add("cknmf", C=2, F=1, N=3, grad="ck", n_iter=1, nmf=True)
    add("cknmf2", C=2, F=1, N=3, grad="ck", n_iter=2, nmf=True)
    add("grad2", C=2, F=1, N=3, grad="plain", ref=None, budget=10, regular=True)
    add("grad2t", C=2, F=1, N=3, grad="plain", n_taps=1, budget=10, regular=True)
    add("grad2o", C=2, F=1, N=3, grad="plain", n_src=1, cramer=1, budget=60, regular=True)
    add("grad2r", C=2, F=1, N=3, grad="plain", ref=1, budget=60, regular=True)
    return c


class Learnable(torch.nn.Module):
    """positive weights with two parameters"""

    def __init__(self, ctx, random=False):
        super().__init__()
        self.random = random
        p = ctx.real("p", (2,), 0.5, 2)
        self.p = torch.nn.Parameter(p)

    def forward(self, Y):
        r = (Y.real.square() + Y.imag.square()).mean(dim=-2, keepdim=True)
        if self.random:  # such as dropout
            r = r + torch.rand_like(r)
        w = 1.0 / (self.p[0].square() + self.p[1].square() * r)
        return torch.broadcast_to(w, Y.shape)


def run(ctx, cfg):
    B = cfg.get("B", ())
    shape = B + (cfg["C"], cfg["F"], cfg["N"])
    kw = {k: cfg[k] for k in ("n_taps", "n_delay", "n_src") if k in cfg}
    kw["n_iter"] = cfg.get("n_iter", 1)
    kw["proj_back_mic"] = cfg.get("ref", 0)
    g = cfg.get("grad")
    res, seen = [], []
    plain = lambda f, *a, use_reentrant=None, preserve_rng_state=None, **k: f(*a, **k)  # noqa: E731
    for k in (0, 1):
        X = ctx.cpx("x", shape)
        model = K.AnyModel(ctx) if cfg.get("any") else torchiva.NMFModel(n_basis=1) if cfg.get("nmf") else Learnable(ctx, cfg.get("random", False))
        algo = torchiva.T_ISS(model=model, use_dmc=(k == 1 or g == "ck"), **kw)
        saved = t_iss.torch_checkpoint if hasattr(t_iss, "torch_checkpoint") else None
        if g == "ck" and k == 0 and saved is not None:
            # the same computation with its intermediate results kept in memory
            t_iss.torch_checkpoint = plain
        ctx.reseed()
        try:
            if g:
                X.requires_grad_(True)
                Y = algo(X)
                loss = (Y.real.square() + Y.imag.square()).sum() + Y.real.sum()
                try:
                    loss.backward()
                except RuntimeError as e:
                    if "second time" not in str(e):
                        raise
                    ctx.fail("backward", "cannot be run: " + str(e)[:60])
                    return
                res.append((Y.detach(), X.grad, model.p.grad if hasattr(model, "p") else None))
            else:
                with torch.no_grad():
                    res.append((algo(X),))
                if cfg.get("any"):
                    seen.append(model.inputs)
        finally:
            if saved is not None:
                t_iss.torch_checkpoint = saved
    for n, a, b in zip(("output", "input gradient", "parameter gradient"), res[0], res[1]):
        ctx.same(n + " exists", b is None, a is None)
        if a is not None and b is not None:
            ctx.eq(n, b, ctx.arr(a))
    if seen:
        ctx.same("calls of the model", len(seen[1]), len(seen[0]))
        for k, (a, b) in enumerate(zip(*seen)):
            ctx.eq(f"input of the model {k}", b, a)
