"""Per-call options act for one call; calls do not influence each other."""
import numpy as np
import torch

from checks import common as K
from checks.c15_batch import Masks
import torchiva as t

BOUNDS = "every per-call option of T-ISS, AuxIVA-IP, AuxIVA-IP2, FIVE, WPE, MVDR, MWF and GEV, singly and combined, including zero and False; histories of three calls (plain, overridden, plain) on 2-3 channels, 1-2 frequencies, 2-4 frames, signals of equal and different sizes."
OUTSIDE = "longer histories, larger sizes; floating-point rounding."

CLS = dict(tiss=t.T_ISS, ip=t.AuxIVA_IP, ip2=t.AuxIVA_IP2, five=t.FIVE, wpe=t.WPE, mvdr=t.MVDRBeamformer, mwf=t.MWFBeamformer, gev=t.GEVBeamformer)

BSS = dict(n_iter=10, model="laplace", proj_back_mic=0, eps=1e-5)
DEFAULTS = dict(
    tiss=dict(BSS, n_taps=0, n_delay=0, n_src=2, use_dmc=False),
    ip=dict(BSS, n_src=2),
    ip2=BSS,
    five=BSS,
    wpe=dict(n_iter=3, n_taps=5, n_delay=3, eps=1e-5),
    mvdr=dict(ref_mic=0, eps=1e-5, mvdr_type="rtf"),
    mwf=dict(ref_mic=0, eps=1e-5, time_invariant=True),
    gev=dict(ref_mic=0, eps=1e-5),
)


def configs(tier):
    c = []

    def add(algo, base, over, C=2, F=1, N=2, **k):
        n = algo + "_" + "_".join(f"{a}{b}" for a, b in over.items())
        while any(q["name"] == n for q in c):
            n += "'"
        k.update(name=n, algo=algo, base=base, over=over, C=C, F=F, N=N)
        c.append(k)

    one = dict(n_iter=1)
    add("tiss", one, dict(n_iter=2))
    add("tiss", one, dict(n_iter=0))
    add("tiss", one, dict(n_taps=1))
    add("tiss", dict(n_iter=1, n_taps=1, n_delay=1), dict(n_taps=0), N=3)
    add("tiss", dict(n_iter=1, n_taps=1, n_delay=1), dict(n_delay=0), N=3)
    add("tiss", dict(n_iter=1, n_taps=1), dict(n_delay=2), N=3)
    add("tiss", one, dict(n_src=1), N=3)
    add("tiss", dict(n_iter=1, n_src=1), dict(n_src=2), N=3)
    add("tiss", one, dict(model="gauss"))
    add("tiss", dict(n_iter=1, model="gauss"), dict(model="laplace"), F=2)
    add("tiss", one, dict(proj_back_mic=1))
    add("tiss", dict(n_iter=1, proj_back_mic=1), dict(proj_back_mic=0))
    add("tiss", dict(n_iter=1, use_dmc=True), dict(use_dmc=False))
    add("tiss", one, dict(use_dmc=True))
    add("tiss", one, dict(eps=0.25))
    add("tiss", one, dict(n_src=2, proj_back_mic=2, n_taps=1), C=3, N=3)
    add("ip", one, dict(n_iter=2), N=3)
    add("ip", one, dict(n_iter=0))
    add("ip", one, dict(n_src=1), N=3)
    add("ip", dict(n_iter=1, n_src=1), dict(n_src=2), N=3)
    add("ip", one, dict(model="gauss"), F=2)
    add("ip", one, dict(proj_back_mic=1))
    add("ip", dict(n_iter=1, proj_back_mic=1), dict(proj_back_mic=0))
    add("ip", one, dict(eps=0.25))
    add("ip2", one, dict(n_iter=2))
    add("ip2", one, dict(n_iter=0))
    add("ip2", one, dict(model="gauss"), F=2)
    add("ip2", one, dict(proj_back_mic=1))
    add("ip2", dict(n_iter=1, proj_back_mic=1), dict(proj_back_mic=0))
    add("ip2", one, dict(eps=0.25))
    add("five", one, dict(n_iter=2), F=2)
    add("five", one, dict(n_iter=0), F=2)
    add("five", one, dict(model="gauss"), F=3)
    add("five", one, dict(proj_back_mic=1), F=2)
    add("five", dict(n_iter=1, proj_back_mic=1), dict(proj_back_mic=0), F=2)
    add("five", one, dict(n_power_iter=2), F=2)
    add("five", dict(n_iter=1, n_power_iter=1), dict(n_power_iter=3), F=2)
    w = dict(n_iter=1, n_taps=1, n_delay=1)
    add("wpe", w, dict(n_iter=2), N=3)
    add("wpe", w, dict(n_iter=0), N=3)
    add("wpe", w, dict(n_taps=2), C=1, N=4)
    add("wpe", w, dict(n_delay=0), N=3)
    add("wpe", w, dict(n_delay=2), N=4)
    add("wpe", w, dict(eps=0.25), N=3)
    add("wpe", w, dict(model="tf"), N=3)
    for b in ("mvdr", "mwf", "gev"):
        add(b, {}, dict(ref_mic=1))
        add(b, dict(ref_mic=1), dict(ref_mic=0))
        add(b, {}, dict(mask_model="other"))
    add("mvdr", {}, dict(eps=0.25))
    add("mwf", {}, dict(eps=0.25))
    add("mvdr", {}, dict(mvdr_type="scm"), N=3)
    add("mvdr", dict(mvdr_type="scm"), dict(mvdr_type="rtf"), N=3)
    add("mvdr", {}, dict(n_power_iter=2))
    add("mvdr", dict(n_power_iter=1), dict(n_power_iter=2))
    add("mwf", dict(M=4), dict(time_invariant=False))
    add("mwf", dict(M=4, time_invariant=False), dict(time_invariant=True))
    add("mvdr", dict(ref_mic=1), dict(ref_mic=0, n_power_iter=2, eps=0.125), C=3, N=3)
    # stateful source models start afresh with every signal
    add("tiss", dict(n_iter=1, model="nmf"), {}, N=3, F=2)
    add("tiss", dict(n_iter=2, model="nmf"), {}, N=2, F=2)
    add("ip", dict(n_iter=1, model="nmf"), {}, N=3, F=2)
    add("ip2", dict(n_iter=1, model="nmf"), {}, N=3, F=2)
    add("five", dict(n_iter=1, model="nmf"), {}, N=3, F=3)
    add("tiss", dict(n_iter=1, model="nmf"), {}, N=3, F=2, other=(2, 3, 2))
    # ... also when the model is an option of the call
    add("tiss", dict(n_iter=1), dict(model="nmf"), N=2, F=2)
    add("ip", dict(n_iter=1), dict(model="nmf"), N=2, F=2)
    add("ip2", dict(n_iter=1), dict(model="nmf"), N=2, F=2)
    add("five", dict(n_iter=1), dict(model="nmf"), N=2, F=3)
    add("tiss", dict(n_iter=1), dict(model="nmf", n_taps=1), N=3, F=1)
    # histories over signals of different sizes
    add("tiss", dict(n_iter=1, n_taps=1), {}, C=3, N=3, other=(2, 1, 2))
    add("ip", one, {}, C=2, N=3, other=(3, 2, 3))
    add("ip2", one, {}, C=2, N=3, other=(2, 2, 4))
    add("five", one, {}, C=2, F=2, N=3, other=(3, 3, 3))
    add("wpe", w, {}, C=1, F=2, N=3, other=(2, 1, 3))
    add("mvdr", {}, {}, C=2, F=2, N=3, other=(3, 1, 3))
    # an option that is given neither at construction nor in the call has its documented default
    for a, k in DEFAULTS.items():
        n = dict(wpe=8, ip2=5).get(a, 2)
        c.append(dict(name="default_" + a, algo=a, default=k, C=1 if a == "wpe" else 2, F=2 if a != "ip2" else 3, N=n + 1))
    return c


class TF(torch.nn.Module):
    def forward(self, Y):
        p = (Y.real.square() + Y.imag.square()).mean(dim=-3)
        return 1.0 / (1.0 + p)


def options(k):
    k = dict(k)
    m = k.pop("model", None)
    if m:
        k["model"] = dict(gauss=t.GaussModel, laplace=t.LaplaceModel, tf=TF, nmf=t.NMFModel)[m]()
    if k.get("mask_model") == "other":
        k["mask_model"] = Masks(2, 2)
    return k


def make(cfg, extra=()):
    k = dict(cfg["base"])
    k.update(dict(extra))
    k = options(k)
    if cfg["algo"] in ("mvdr", "mwf", "gev"):
        M = k.pop("M", 2)
        model = k.pop("mask_model", None) or Masks(1, M)
        return CLS[cfg["algo"]](model, **k)
    return CLS[cfg["algo"]](**k)


def public(a):
    """the documented settings of an algorithm object"""
    out = {}
    for n in ("n_iter", "n_taps", "n_delay", "n_src", "proj_back_mic", "use_dmc", "eps", "ref_mic", "mvdr_type", "n_power_iter", "time_invariant"):
        if hasattr(a, n):
            out[n] = getattr(a, n)
    for n in ("model", "mask_model"):
        if hasattr(a, n):
            out[n] = id(getattr(a, n))
    return out


def run(ctx, cfg):
    shape = (cfg["C"], cfg["F"], cfg["N"])
    if "default" in cfg:
        X = ctx.cpx("x", shape)
        with torch.no_grad():
            a = make(dict(algo=cfg["algo"], base={}))(X)
            b = make(dict(algo=cfg["algo"], base=cfg["default"]))(X)
        ctx.eq("defaults", a, ctx.arr(b))
        return
    X = ctx.cpx("x", shape)
    X2 = ctx.cpx("z", cfg.get("other", shape))
    x, x2 = ctx.arr(X), ctx.arr(X2)
    with torch.no_grad():
        a = make(cfg)
        before = public(a)
        first = ctx.arr(a(X))
        ctx.reseed()
        o = options(cfg["over"])
        over = a(X2, **o)
        ctx.reseed()
        if cfg["over"]:
            again = a(X, **o)
            ctx.reseed()
            ctx.eq("overridden again", again, ctx.arr(make(cfg, cfg["over"])(X)))
            ctx.reseed()
        third = a(X)
        ctx.reseed()
        ctx.same("settings kept", public(a), before)
        ctx.eq("overridden call", over, ctx.arr(make(cfg, cfg["over"])(X2)))
        ctx.reseed()
        ctx.eq("later call", third, first)
        ctx.eq("fresh object", third, ctx.arr(make(cfg)(X)))
    ctx.eq("input kept", X, x)
    ctx.eq("second input kept", X2, x2)
