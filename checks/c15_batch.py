"""Signals processed in one batch do not influence each other."""
import numpy as np
import torch

from checks import common as K
from symt import ref as R
import torchiva
from torchiva import auxiva_ip

BOUNDS = "batches of shape (1,), (2,), (3,), (7,), (2,1), (2,2), (5,2) and (1,2,1) of signals with 1-3 channels, 1-3 frequencies and 2-4 frames, and up to 15 frequencies or 40 frames; one or two iterations; stateless source models and mask models."
OUTSIDE = "larger batches and sizes; NMF (random initial state) and other stateful models; the reweighted minimum distortion, whose stopping test is global to the call; floating-point rounding."


class Masks(torch.nn.Module):
    """deterministic masks of the documented shape (..., n_src, n_masks, freq, frames)"""

    def __init__(self, S, M):
        super().__init__()
        self.S, self.M = S, M

    def forward(self, X):
        p = X.real.square() + X.imag.square()
        rows = []
        for s in range(self.S):
            rows.append(torch.stack([1.0 / (1.0 + (s + 2 * k + 1) * p) + 0.125 * k for k in range(self.M)], dim=-3))
        return torch.stack(rows, dim=-4)


def algo(cfg):
    n, k = cfg["algo"], cfg.get("kw", {})
    t = torchiva
    if n in ("tiss", "ip", "ip2", "five", "wpe"):
        cls = dict(tiss=t.T_ISS, ip=t.AuxIVA_IP, ip2=t.AuxIVA_IP2, five=t.FIVE, wpe=t.WPE)[n]
        k = dict(k)
        m = k.pop("model", None)
        if m:
            k["model"] = dict(gauss=t.GaussModel, laplace=t.LaplaceModel)[m]()
        k.setdefault("n_iter", 1)
        a = cls(**k)
        return lambda X: a(X)
    if n == "cost":
        # the cost that the verbose mode of AuxIVA-IP prints, one value per item
        def g(X):
            seen = []
            auxiva_ip.print = seen.append
            try:
                t.AuxIVA_IP(n_iter=1, **k)(X, verbose=True)
            finally:
                del auxiva_ip.print
            return torch.stack(seen, dim=-1) if seen else torch.zeros(X.shape[:-3])

        return g
    if n in ("mvdr", "mwf", "gev"):
        k = dict(k)
        M = k.pop("M", 2)
        S = k.pop("S", 1)
        a = dict(mvdr=t.MVDRBeamformer, mwf=t.MWFBeamformer, gev=t.GEVBeamformer)[n](Masks(S, M), **k)
        return lambda X: a(X)
    if n == "laplace":
        return t.LaplaceModel()
    if n == "gauss":
        return t.GaussModel()
    if n == "energetic":
        return lambda X: t.select_most_energetic(X.real[..., 0, :], num=k["num"])
    if n == "stft":
        s = t.STFT(4, hop_length=2, dtype=torch.float64)
        return lambda X: s.inv(s(X.real[..., 0, :]))
    if n == "sep":
        sep = t.nn.BSSSeparator(n_fft=4, hop_length=2, n_iter=1, algo=k["algo"], window="hamming", n_power_iter=k.get("p"))
        sep.stft = sep.stft.double()
        return lambda X: sep(X.real[..., 0, :])
    two = dict(
        pb=t.projection_back,
        l2=t.minimum_distortion,
        phase=t.minimum_distortion_l2_phase,
        lp=lambda Y, Z: t.minimum_distortion(Y, Z, p=1.0, max_iter=2),
        lpq=lambda Y, Z: t.minimum_distortion(Y, Z, p=1.0, q=2.0, max_iter=2),
        fft=lambda Y, Z: t.fftconvolve(Y.real[..., 0, :], Z.real[..., :1, :], mode="full"),
    )
    return lambda X: two[n](X[..., :-1, :, :], X[..., -1, :, :])


def configs(tier):
    c = []

    def add(n, **k):
        k["name"] = n
        c.append(k)

    def many(n, shapes, **k):
        for i, B in enumerate(shapes):
            add(f"{n}{'x'.join(map(str, B))}", B=B, **k)

    S = [(2,), (2, 2)]
    many("tiss", S + [(1,), (1, 2, 1)], algo="tiss", C=2, F=1, N=2)
    many("tisst", [(2,)], algo="tiss", C=2, F=2, N=3, kw=dict(n_taps=1, n_delay=1, n_iter=2, proj_back_mic=1))
    many("tisso", [(2,), (1, 2)], algo="tiss", C=3, F=1, N=3, kw=dict(n_src=2, proj_back_mic=2))
    many("tissot", [(2,)], algo="tiss", C=3, F=1, N=3, kw=dict(n_src=1, n_taps=1, model="gauss"))
    many("tissdmc", [(2,)], algo="tiss", C=2, F=1, N=2, kw=dict(use_dmc=True))
    many("ip", S, algo="ip", C=2, F=1, N=3, kw=dict(eps=1e-5))
    many("ipo", [(2,)], algo="ip", C=3, F=1, N=3, kw=dict(n_src=2, proj_back_mic=2))
    many("ipcost", [(2,), (2, 1)], algo="cost", C=2, F=1, N=2)
    many("ipcosto", [(2,)], algo="cost", C=3, F=1, N=2, kw=dict(n_src=2))
    many("ip2", S, algo="ip2", C=2, F=2, N=2)
    many("ip2i", [(2,)], algo="ip2", C=2, F=1, N=3, kw=dict(n_iter=2, proj_back_mic=1, model="gauss"))
    many("five", S, algo="five", C=2, F=2, N=2)
    many("fivep", [(3,)], algo="five", C=2, F=2, N=2, kw=dict(n_power_iter=2))
    many("wpe", S, algo="wpe", C=1, F=1, N=4, kw=dict(n_taps=2, n_delay=1))
    many("wpe2", [(2,), (2, 1)], algo="wpe", C=2, F=2, N=3, kw=dict(n_taps=1, n_delay=1, n_iter=2))
    many("mvdr", S, algo="mvdr", C=2, F=1, N=2)
    many("mvdrp", [(2,)], algo="mvdr", C=2, F=2, N=2, kw=dict(n_power_iter=2, ref_mic=1, S=2))
    many("mvdrscm", [(2,)], algo="mvdr", C=2, F=2, N=3, kw=dict(mvdr_type="scm", S=2))
    many("mvdr3", [(2,)], algo="mvdr", C=3, F=1, N=3, kw=dict(M=3))
    many("mwf", S, algo="mwf", C=2, F=2, N=2, kw=dict(S=2))
    many("mwft", [(2,)], algo="mwf", C=2, F=2, N=2, kw=dict(M=4, S=2, time_invariant=False))
    many("gev", S, algo="gev", C=2, F=2, N=2, kw=dict(S=2, ref_mic=1))
    many("gev3", [(2,)], algo="gev", C=3, F=1, N=3)
    many("laplace", S + [(3,)], algo="laplace", C=2, F=2, N=2)
    many("gauss", S + [(3,)], algo="gauss", C=2, F=2, N=2)
    many("pb", [(2,), (2, 1)], algo="pb", C=3, F=1, N=2, max_paths=3)
    many("pbf", [(2,)], algo="pb", C=2, F=2, N=3, max_paths=3)
    many("l2", S, algo="l2", C=3, F=2, N=2)
    many("phase", S, algo="phase", C=3, F=2, N=2)
    many("lp", [(2,)], algo="lp", C=2, F=2, N=2, explore=False)
    many("lpq", [(2,)], algo="lpq", C=2, F=2, N=2, explore=False)
    many("stft", S, algo="stft", C=2, F=1, N=6)
    many("fft", S, algo="fft", C=3, F=1, N=3)
    many("energetic", [(2,), (2, 2)], algo="energetic", C=3, F=1, N=2, kw=dict(num=2), max_paths=4)
    many("septiss", [(2,)], algo="sep", C=2, F=1, N=4, kw=dict(algo="tiss"))
    many("sepip2", [(2,)], algo="sep", C=2, F=1, N=4, kw=dict(algo="ip2"))
    # larger batches, one more frequency, more frames
    for n, C, kw in (("tiss", 2, {}), ("ip", 2, {}), ("ip2", 2, {}), ("five", 2, {}), ("mvdr", 2, {}), ("mwf", 2, dict(S=2)), ("gev", 2, {}), ("laplace", 2, {}), ("gauss", 2, {}), ("l2", 3, {}), ("phase", 3, {})):
        many(f"big{n}", [(7,), (5, 2)], algo=n, C=C, F=2 if n == "five" else 1, N=2, kw=kw)
        many(f"wide{n}", [(2,)], algo=n, C=C, F=15, N=3, kw=kw)
        many(f"long{n}", [(2,)], algo=n, C=C, F=2, N=40, kw=kw)
    many("bigwpe", [(7,), (5, 2)], algo="wpe", C=1, F=1, N=4, kw=dict(n_taps=1, n_delay=1))
    many("widewpe", [(2,)], algo="wpe", C=1, F=6, N=4, kw=dict(n_taps=1, n_delay=1))
    many("longwpe", [(2,)], algo="wpe", C=1, F=1, N=20, kw=dict(n_taps=2, n_delay=1))
    many("bigpb", [(6,)], algo="pb", C=2, F=1, N=2, max_paths=1)
    many("widepb", [(2,)], algo="pb", C=2, F=5, N=4, max_paths=2)
    many("widelp", [(2,), (6,)], algo="lp", C=2, F=5, N=3, explore=False)
    many("widelpq", [(2,), (6,)], algo="lpq", C=2, F=5, N=3, explore=False)
    many("bigstft", [(7,), (5, 2)], algo="stft", C=2, F=1, N=6)
    many("bigfft", [(7,), (5, 2)], algo="fft", C=3, F=1, N=3)
    many("bigenergetic", [(6,)], algo="energetic", C=3, F=1, N=2, kw=dict(num=2), max_paths=2)
    if tier == "thorough":
        many("tissbig", [(3, 2)], algo="tiss", C=3, F=2, N=4, kw=dict(n_src=2, n_taps=1, n_delay=1, n_iter=2))
        many("ipbig", [(3,)], algo="ip", C=3, F=2, N=4, kw=dict(n_src=2, n_iter=2))
        many("fivebig", [(2, 2)], algo="five", C=3, F=3, N=4, kw=dict(n_iter=2))
        many("mvdrbig", [(2, 3)], algo="mvdr", C=3, F=2, N=4, kw=dict(S=2, M=3))
        many("wpebig", [(2, 2)], algo="wpe", C=2, F=2, N=5, kw=dict(n_taps=2, n_delay=2, n_iter=2))
    return c


def run(ctx, cfg):
    B = cfg["B"]
    X = ctx.cpx("x", B + (cfg["C"], cfg["F"], cfg["N"]))
    x = ctx.arr(X)
    f = algo(cfg)
    with torch.no_grad():
        Y = f(X)
        y = ctx.arr(Y)
        for i in np.ndindex(*B):
            one = ctx.arr(f(X[i].clone()))
            if one.shape != y[i].shape:
                ctx.fail(f"item{i}", f"shape {y[i].shape} in the batch, {one.shape} alone")
                continue
            ctx.eq(f"item{i}", y[i], one)
    ctx.eq("input kept", X, x)
