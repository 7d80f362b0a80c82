"""Shared parts of the beamformer checks."""
import numpy as np

from checks import common as K
from checks import reflib as L
from symt import ref as R
from torchiva import beamformer


def compare(ctx, cfg, cls, kw, spec):
    B = cfg.get("B", ())
    S, M = cfg.get("S", 1), cfg.get("M", 2)
    X = ctx.cpx("x", B + (cfg["C"], cfg["F"], cfg["N"]))
    x = ctx.arr(X)
    model = K.AnyModel(ctx, name="m", extra=(S, M))
    if "eps" in cfg:
        kw = dict(kw, eps=cfg["eps"])
    ref = cfg.get("ref", 0)
    bf = cls(model, ref_mic=ref, **kw)
    Y = bf(X)
    ctx.same("one call", len(model.inputs), 1)
    ctx.eq("model input", model.inputs[0], x[..., ref, :, :])
    m = model.outputs[0]
    ctx.eq("Y", Y, K.over_batch(lambda i, xi: spec(xi, m[i]), x, 3))
    ctx.eq("input kept", X, x)


def distortionless(ctx, cfg, kw):
    """the filter passes its own steering vector with unit gain, and the steering
    vector is one at the reference microphone (no clamp active)"""
    ref = cfg.get("ref", 0)
    Xt, Xn = ctx.cpx("t", (cfg["F"], cfg["C"], cfg["N"])), ctx.cpx("n", (cfg["F"], cfg["C"], cfg["N"]))
    xt, xn = ctx.arr(Xt), ctx.arr(Xn)
    Rt, Rn = R.mm(xt, R.H(xt)), R.mm(xn, R.H(xn))
    Rtt, Rnt = ctx.tensor(Rt), ctx.tensor(Rn)
    d = beamformer.compute_mvdr_rtf_eigh(Rtt, Rnt, ref_mic=ref, power_iterations=kw.get("n_power_iter"))
    ctx.eq("reference", ctx.arr(d)[..., ref], np.ones(cfg["F"]))
    D = ctx.cpx("d", (cfg["F"], cfg["C"]))
    dd = ctx.arr(D)
    a = L.solve_loaded(Rn, dd[..., None], load=1e-5)[..., 0]
    q = R.real(R.tsum(R.mul(R.conj(dd), a), axis=-1))
    for z in np.asarray(q).reshape(-1):
        ctx.assume(R.le(1e-5, z))
    w = ctx.arr(beamformer.compute_mvdr_bf(Rnt, D))
    g = R.tsum(R.mul(R.conj(dd), w), axis=-1)
    ctx.eq("gain", R.real(g), np.ones(cfg["F"]))
