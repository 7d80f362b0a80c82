"""The MWF and GEV beamformers apply the filters of their masks."""
import numpy as np

from checks import beam as BM
from checks import reflib as L
from symt import ref as R
import torchiva
from torchiva import beamformer

BOUNDS = "2-3 channels, 1-2 frequencies, 1-4 frames, 1-2 sources, arbitrary positive masks, every reference microphone, time-invariant and time-varying Wiener filter, all-channel Wiener filter, 0-2 batch dimensions; one size at a time up to 5 channels, 135 frequencies, 260 frames, 7 sources, a batch of 9."
OUTSIDE = "larger sizes; the eigensolver for 3 and more channels is assumed to satisfy A V = V L, V unitary; floating-point rounding."


def configs(tier):
    c = []

    def add(n, **k):
        k["name"] = n
        c.append(k)

    add("w2", f="mwf", C=2, F=2, N=3)
    add("w2r1s2", f="mwf", C=2, F=1, N=3, S=2, ref=1)
    add("w1", f="mwf", C=1, F=2, N=2, S=2)
    add("w3", f="mwf", C=3, F=1, N=3, ref=2)
    add("w2eps", f="mwf", C=2, F=1, N=3, eps=0.125)
    add("w2b", f="mwf", C=2, F=2, N=2, B=(2,), S=2)
    add("w2b22", f="mwf", C=2, F=1, N=2, B=(2, 2), ref=1)
    add("wsq", f="mwf", C=2, F=2, N=2, B=(2,), S=2, ref=1)
    add("wneg", f="mwf", C=2, F=1, N=2, ref=-1)
    add("wneg3", f="mwf", C=3, F=1, N=2, ref=-2)
    add("w1f", f="mwf", C=2, F=1, N=1, S=3)
    add("tneg", f="tv", C=2, F=1, N=2, ref=-1)
    add("t1f", f="tv", C=2, F=1, N=1, S=3)
    add("gneg", f="gev", C=2, F=1, N=2, ref=-1)
    add("gneg3", f="gev", C=3, F=1, N=3, ref=-2)
    add("g2s3", f="gev", C=2, F=1, N=2, S=3)
    add("t2", f="tv", C=2, F=1, N=3)
    add("t2r1s2", f="tv", C=2, F=2, N=2, S=2, ref=1)
    add("t3", f="tv", C=3, F=1, N=3, ref=2)
    add("t2eps", f="tv", C=2, F=1, N=2, eps=0.125)
    add("t2b", f="tv", C=2, F=2, N=2, B=(2,), S=2)
    add("t2b22", f="tv", C=2, F=1, N=3, B=(1, 2))
    add("all2", f="all", C=2, F=2)
    add("all3", f="all", C=3, F=1)
    add("all2eps", f="all", C=2, F=2, eps=0.25)
    add("g2", f="gev", C=2, F=1, N=3)
    add("g2r1", f="gev", C=2, F=2, N=2, ref=1)
    add("g2s2", f="gev", C=2, F=2, N=2, S=2, ref=1)
    add("g2s2f3", f="gev", C=2, F=3, N=2, S=2)
    add("g3", f="gev", C=3, F=1, N=3)
    add("g3r2", f="gev", C=3, F=1, N=4, ref=2, S=2)
    add("g2b", f="gev", C=2, F=1, N=2, B=(2,), S=2)
    add("g2b22", f="gev", C=2, F=2, N=2, B=(2, 2), ref=1)
    for k in ("mwf", "tv", "gev"):
        add(f"bigF{k}", f=k, C=2, F=135, N=2)
        add(f"bigN{k}", f=k, C=2, F=1, N=30 if k == "tv" else 100, S=2)
        add(f"bigS{k}", f=k, C=2, F=1, N=2, S=7, ref=1)
        add(f"bigC{k}", f=k, C=4, F=1, N=2, ref=3)
        add(f"big5{k}", f=k, C=5, F=1, N=2, ref=-1)
        add(f"bigB{k}", f=k, C=2, F=1, N=2, B=(9,))
    if tier == "thorough":
        add("w4", f="mwf", C=4, F=2, N=4, ref=3, S=3)
        add("t4", f="tv", C=4, F=2, N=2, S=2, ref=1)
        add("g4", f="gev", C=4, F=2, N=4, S=2, ref=3)
        add("g3b", f="gev", C=3, F=2, N=3, S=2, B=(2, 2), ref=1)
        add("w3b", f="mwf", C=3, F=2, N=3, S=2, B=(2, 2), ref=1)
    return c


def run(ctx, cfg):
    ref, eps, f = cfg.get("ref", 0), cfg.get("eps", 1e-5), cfg["f"]
    if f == "gev":
        BM.compare(ctx, cfg, torchiva.GEVBeamformer, {}, lambda x, m: L.gev(x, m, ref))
    elif f == "mwf":
        BM.compare(ctx, cfg, torchiva.MWFBeamformer, {}, lambda x, m: L.mwf(x, m, ref, eps))
    elif f == "tv":
        cfg = dict(cfg, M=4)
        BM.compare(ctx, cfg, torchiva.MWFBeamformer, {"time_invariant": False}, lambda x, m: L.mwf(x, m, ref, eps, False))
    else:
        n, F = cfg["C"], cfg["F"]
        a, b = (ctx.arr(ctx.cpx(k, (F, n, n))) for k in "tn")
        Rt, Rn = R.mm(a, R.H(a)), R.mm(b, R.H(b))
        W = beamformer.compute_mwf_bf(ctx.tensor(Rt), ctx.tensor(Rn), eps=eps)
        S = R.add(Rt, Rn)
        ctx.eq("W", W, L.solve_loaded(S, Rt, load=eps))
