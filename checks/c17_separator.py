"""The separator module is STFT, algorithm, inverse STFT; energetic selection."""
import warnings

import numpy as np
import torch

from checks import common as K
from checks.c15_batch import Masks
from symt import ref as R
import torchiva
from torchiva.nn import BSSSeparator, SepAlgo

BOUNDS = "1-4 channels, FFT lengths 4, 8 and 16, signals of 4-70 samples (multiples of the hop or not), up to 15 iterations, every algorithm name and every constructor option, 0-2 batch dimensions; energetic selection on up to 4 signals (all orders of power), and on larger sets and longer signals, every axis, up to 3 dimensions."
OUTSIDE = "longer signals and transforms (the transform itself: C01, the algorithms: C05-C14); floating-point rounding; ties of equal power in the selection are resolved either way."


class Weights(torch.nn.Module):
    def forward(self, Y):
        return 1.0 / (1.0 + Y.real.square() + Y.imag.square())


class Stateful(torch.nn.Module):
    """weights that depend on the number of uses since the last reset"""

    def __init__(self):
        super().__init__()
        self.calls = 0

    def reset(self):
        self.calls = 0

    def forward(self, Y):
        self.calls += 1
        return float(self.calls) / (1.0 + Y.real.square() + 2.0 * Y.imag.square())


def configs(tier):
    c = []

    def add(n, algo="tiss", C=2, L=8, fft=4, hop=2, B=(), **kw):
        c.append(dict(name=n, algo=algo, C=C, L=L, fft=fft, hop=hop, B=B, history=kw.pop("history", False), kw=kw))

    one = dict(n_iter=1)
    add("tiss", **one)
    add("tissdef", hop=None, L=5, **one)
    add("tissL9", L=9, **one)
    add("tissL7w", L=7, window="hamming", **one)
    add("tissL5h1", L=5, hop=1, window="hamming", **one)
    add("fft8", L=13, fft=8, hop=4, n_iter=0)
    add("fft6", L=8, fft=6, hop=3, window="blackman", n_iter=0)
    add("odd5", L=9, fft=5, hop=2, window="hamming", n_iter=0)
    add("iter0", n_iter=0)
    add("iter2", L=6, n_iter=2)
    add("taps", L=8, n_taps=1, n_delay=1, **one)
    add("delay2", L=8, n_taps=1, n_delay=2, window="hamming", **one)
    add("nsrc1", n_src=1, **one)
    add("nsrc2", C=3, L=6, n_src=2, **one)
    add("ref1", proj_back_mic=1, **one)
    add("nopb", proj_back_mic=None, **one)
    add("dmc", use_dmc=True, L=6, **one)
    add("eps", eps=0.25, **one)
    add("epsnone", eps=None, **one)
    add("model", source_model="w", **one)
    add("gauss", source_model="gauss", **one)
    add("dictmodel", source_model=dict(name="torchiva.models.GaussModel", kwargs=dict(eps=0.125)), **one)
    add("dictargs", source_model=dict(name="torchiva.models.LaplaceModel", args=[0.25]), **one)
    add("nmf", source_model="nmf", L=4, **one)
    add("enum", enum=True, **one)
    add("ip2", algo="ip2", **one)
    add("ip2ref1", algo="ip2", proj_back_mic=1, eps=0.125, source_model="w", **one)
    add("ip2nopb", algo="ip2", proj_back_mic=None, **one)
    add("ip2i0", algo="ip2", n_iter=0, L=7)
    add("five", algo="five", **one)
    add("fiveref", algo="five", proj_back_mic=1, source_model="gauss", **one)
    add("fivepow", algo="five", n_power_iter=2, source_model="w", **one)
    add("five0", algo="five", n_iter=0, n_src=1, L=9)
    for a in ("mvdr", "mwf", "gev"):
        add(a, algo=a, source_model="masks")
        add(a + "ref1", algo=a, source_model="masks2", proj_back_mic=1, L=7, window="hamming")
        add(a + "eps", algo=a, source_model="masks", eps=0.125)
        add(a + "b", algo=a, source_model="masks", B=(2,), L=6)
    add("mvdrpow", algo="mvdr", source_model="masks", n_power_iter=2)
    add("mvdr3", algo="mvdr", source_model="masks3")
    add("batch", B=(2,), L=6, **one)
    add("batch22", B=(2, 1), L=5, hop=1, window="hamming", **one)
    add("one", C=1, **one)
    for a in ("tiss", "ip2", "five"):
        add(a + "hist", algo=a, L=7, history=True, **one)
    add("mvdrhist", algo="mvdr", source_model="masks", L=5, history=True)
    for s in ((3,), (4,)):
        for num in range(1, s[0] + 1):
            c.append(dict(name=f"sel{s[0]}of{num}", sel=s + (2,), num=num, dim=-2, red=-1, max_paths=30))
    c.append(dict(name="selb", sel=(2, 2, 2), num=1, dim=-2, red=-1))
    c.append(dict(name="selb2", sel=(2, 3, 1), num=2, dim=-2, red=-1, max_paths=40))
    c.append(dict(name="seldim0", sel=(3, 2), num=2, dim=0, red=1))
    c.append(dict(name="seldim1", sel=(2, 3), num=2, dim=1, red=0))
    c.append(dict(name="selT", sel=(2, 2, 2), num=1, dim=-1, red=-2))
    c.append(dict(name="selfirst", sel=(3, 2, 1), num=2, dim=0, red=2, max_paths=40))
    c.append(dict(name="sel4d", sel=(1, 2, 2, 2), num=2, dim=2, red=3))
    c.append(dict(name="selcpx", sel=(3, 2), num=2, dim=-2, red=-1, cpx=True))
    c.append(dict(name="bad", bad=True))
    add("dflt", fft=2, hop=1, L=2)
    add("dfltfive", algo="five", fft=2, hop=1, L=2, source_model="gauss")
    for a in ("tiss", "ip2", "five"):
        c.append(dict(name="state" + a, algo=a, C=2, L=4, fft=4, hop=2, B=(), state=(True, False, True, None), kw=dict(n_iter=1, source_model="state")))
    c.append(dict(name="statei2", algo="tiss", C=2, L=2, fft=2, hop=1, B=(), state=(False, False, True), kw=dict(n_iter=2, source_model="state")))
    c.append(dict(name="statemix", algo="tiss", C=2, L=4, fft=4, hop=2, B=(), state=(None, False, None), kw=dict(n_iter=1, source_model="state", n_taps=1, n_delay=1)))
    for k, num in ((5, 3), (6, 2), (7, 7), (9, 4)):
        c.append(dict(name=f"bigsel{k}of{num}", sel=(k, 2), num=num, dim=-2, red=-1, max_paths=2))
    c.append(dict(name="bigsellong", sel=(3, 60), num=2, dim=-2, red=-1, max_paths=1))
    c.append(dict(name="bigselb", sel=(6, 2, 2), num=1, dim=-2, red=-1, max_paths=2))
    add("biglong", C=1, L=70, fft=8, hop=4, n_iter=1)
    add("bigfft", L=40, fft=16, hop=8, n_iter=1)
    add("bigb", B=(6,), L=4, **one)
    add("bigip2", algo="ip2", L=40, fft=8, hop=4, **one)
    add("bigfive", algo="five", L=40, fft=8, hop=4, **one)
    add("bigiter", L=4, n_iter=15)
    add("bigtaps", C=1, L=24, n_taps=5, n_delay=3, **one)
    add("big4", C=4, L=4, n_src=1, proj_back_mic=3, **one)
    if tier == "thorough":
        add("t8", L=17, fft=8, hop=2, n_iter=1, n_taps=1)
        add("t8o", C=3, L=12, fft=4, hop=1, n_iter=2, n_src=2)
        add("t3b", C=3, B=(2, 2), L=8, **one)
        c.append(dict(name="sel5", sel=(5, 2), num=3, dim=-2, red=-1, max_paths=130))
        c.append(dict(name="selb3", sel=(2, 3, 2), num=2, dim=-2, red=-1, max_paths=40))
    return c


def model(k):
    t = torchiva
    return dict(w=Weights, gauss=t.GaussModel, nmf=t.NMFModel, masks=lambda: Masks(1, 2), masks2=lambda: Masks(2, 2), masks3=lambda: Masks(1, 3), state=Stateful)[k]()


def build(cfg, kw):
    """the named algorithm with the options of the separator"""
    m = kw.get("source_model")
    eps = kw.get("eps", 1e-5)
    ref = kw.get("proj_back_mic", 0)
    n_iter = kw.get("n_iter", 20)
    p = kw.get("n_power_iter")
    if isinstance(m, dict):
        m = {"torchiva.models.GaussModel": lambda: torchiva.GaussModel(eps=0.125), "torchiva.models.LaplaceModel": lambda: torchiva.LaplaceModel(eps=0.25)}[m["name"]]()
    if m is None:
        m = torchiva.LaplaceModel()
    a = cfg["algo"]
    if a == "tiss":
        return torchiva.T_ISS(n_iter=n_iter, n_taps=kw.get("n_taps", 0), n_delay=kw.get("n_delay", 0), n_src=kw.get("n_src"), model=m, proj_back_mic=ref, use_dmc=kw.get("use_dmc", False), eps=eps), m
    if a == "ip2":
        return torchiva.AuxIVA_IP2(n_iter=n_iter, model=m, proj_back_mic=ref, eps=eps), m
    if a == "five":
        return torchiva.FIVE(n_iter=n_iter, model=m, proj_back_mic=ref, eps=eps, n_power_iter=p), m
    if a == "mvdr":
        return torchiva.MVDRBeamformer(m, ref_mic=ref, eps=eps, mvdr_type="rtf", n_power_iter=p), m
    if a == "mwf":
        return torchiva.MWFBeamformer(m, ref_mic=ref, eps=eps, time_invariant=True), m
    return torchiva.GEVBeamformer(m, ref_mic=ref, eps=eps), m


def run(ctx, cfg):
    if "sel" in cfg:
        return select(ctx, cfg)
    if cfg.get("bad"):
        ctx.real("u", (1,))
        for a in ("ip", "nope", ""):
            ctx.raises(f"algo {a}", (ValueError, NotImplementedError), lambda: BSSSeparator(n_fft=4, algo=a))
        for a in SepAlgo:
            ctx.same(a.value, BSSSeparator(n_fft=4, algo=a, source_model=Masks(1, 2)).algo, a.value)
        return
    if "state" in cfg:
        return state(ctx, cfg)
    kw = dict(cfg["kw"])
    enum = kw.pop("enum", False)
    m = kw.get("source_model")
    inst = model(m) if isinstance(m, str) else m
    if m is not None:
        kw["source_model"] = inst
    x = ctx.real("x", cfg["B"] + (cfg["C"], cfg["L"]))
    xa = ctx.arr(x)
    with torch.no_grad():
        sep = BSSSeparator(n_fft=cfg["fft"], hop_length=cfg["hop"], algo=SepAlgo(cfg["algo"]) if enum else cfg["algo"], **kw)
        if cfg.get("history"):  # an earlier signal of another length and layout
            sep(torch.linspace(-1, 1, cfg["C"] * (cfg["L"] + 3)).reshape(1, cfg["C"], -1))
        y = sep(x)
        again = None
        if m != "nmf":
            again = ctx.arr(sep(x))
        ctx.reseed()
        kr = dict(kw)
        if isinstance(m, str):
            kr["source_model"] = model(m)
        alg, _ = build(cfg, kr)
        stft = torchiva.STFT(cfg["fft"], hop_length=cfg["hop"], window=kw.get("window"))
        z = ctx.arr(stft.inv(alg(stft(x))))
    L = cfg["L"]
    e = np.zeros(z.shape[:-1] + (L,), dtype=z.dtype)
    k = min(L, z.shape[-1])
    e[..., :k] = z[..., :k]
    ctx.eq("y", y, e)
    if again is not None:
        ctx.eq("second call", again, e)
    ctx.eq("x kept", x, xa)


def state(ctx, cfg):
    """each call starts from the state after a reset, unless asked not to reset"""
    kw = dict(cfg["kw"])
    xs = [ctx.real(f"x{k}", (cfg["C"], cfg["L"])) for k in range(len(cfg["state"]))]
    with torch.no_grad():
        kw["source_model"] = Stateful()
        sep = BSSSeparator(n_fft=cfg["fft"], hop_length=cfg["hop"], algo=cfg["algo"], **kw)
        kw["source_model"] = Stateful()
        alg, m = build(cfg, kw)
        stft = torchiva.STFT(cfg["fft"], hop_length=cfg["hop"])
        for k, reset in enumerate(cfg["state"]):
            y = sep(xs[k]) if reset is None else sep(xs[k], reset=reset)
            if reset is not False:
                m.reset()
            z = ctx.arr(stft.inv(alg(stft(xs[k]))))
            e = np.zeros(z.shape[:-1] + (cfg["L"],), dtype=z.dtype)
            n = min(cfg["L"], z.shape[-1])
            e[..., :n] = z[..., :n]
            ctx.eq(f"y{k}", y, e)


def rows(a, dim):
    return np.moveaxis(a, dim, 0)


def select(ctx, cfg):
    shape = cfg["sel"]
    x = ctx.cpx("x", shape) if cfg.get("cpx") else ctx.real("x", shape)
    xa = ctx.arr(x)
    kw = {}
    if (cfg["dim"], cfg["red"]) != (-2, -1):
        kw = dict(dim=cfg["dim"], dim_reduc=cfg["red"])
    y = ctx.arr(torchiva.select_most_energetic(x, cfg["num"], **kw))
    dim, red = cfg["dim"] % len(shape), cfg["red"] % len(shape)
    es = list(shape)
    es[dim] = cfg["num"]
    ctx.same("shape", y.shape, tuple(es))
    if y.shape != tuple(es):
        return
    # to (batch..., signals, samples)
    X = np.moveaxis(xa, (dim, red), (-2, -1))
    Y = np.moveaxis(y, (dim, red), (-2, -1))
    for b in np.ndindex(*X.shape[:-2]):
        pick = []
        for k in range(cfg["num"]):
            js = [j for j in range(X.shape[-2]) if j not in pick and all(same(Y[b][k][i], X[b][j][i]) for i in range(X.shape[-1]))]
            if not js:
                ctx.fail(f"signal{list(b)}{k}", "is not one of the inputs (unchanged, not used twice)")
                return
            pick.append(js[0])
        p = [R.mean(R.abs2(X[b][j])) for j in range(X.shape[-2])]
        for k in range(1, cfg["num"]):
            ctx.le(f"order{list(b)}{k}", p[pick[k]], p[pick[k - 1]])
        for j in range(X.shape[-2]):
            if j not in pick:
                ctx.le(f"left out{list(b)}{j}", p[j], p[pick[-1]])
    ctx.eq("x kept", x, xa)


def same(a, b):
    if a is b:
        return True
    if hasattr(a, "real") and hasattr(a.real, "fp"):
        return a.real is b.real and a.imag is b.imag if hasattr(a, "imag") and not hasattr(a, "fp") else a is b
    return a == b
