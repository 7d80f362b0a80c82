"""The MVDR beamformer is the minimum-variance distortionless filter of its masks."""
from checks import beam as BM
from checks import reflib as L
import torchiva

BOUNDS = "2-3 channels, 1-2 frequencies, 1-4 frames, 1-2 sources, two or three masks with arbitrary positive values, every reference microphone, eigendecomposition, 1-3 power iterations or covariance form, 0-2 batch dimensions; one size at a time up to 5 channels, 135 frequencies, 260 frames, 7 sources, a batch of 9, 12 power iterations."
OUTSIDE = "larger sizes; the eigensolver for 3 and more channels is assumed to satisfy A V = V L, V unitary; floating-point rounding."


def configs(tier):
    c = []

    def add(n, **k):
        k["name"] = n
        c.append(k)

    add("c2", C=2, F=1, N=3)
    add("c2r1", C=2, F=2, N=2, ref=1)
    add("c2s2", C=2, F=1, N=2, S=2)
    add("c2f2s2", C=2, F=2, N=3, S=2, ref=1)
    for p in (1, 2, 3):
        add(f"c2p{p}", C=2, F=1, N=3, p=p, ref=p % 2)
    add("neg", C=2, F=1, N=2, ref=-1)
    add("neg3", C=3, F=1, N=3, ref=-2)
    add("negp", C=2, F=1, N=2, ref=-1, p=2)
    add("negscm", C=2, F=1, N=2, ref=-1, kind="scm")
    add("negm3", C=2, F=1, N=2, ref=-1, M=3)
    add("s3", C=2, F=1, N=2, S=3)
    add("c2scm", C=2, F=2, N=3, kind="scm")
    add("c2scmr1", C=2, F=1, N=3, kind="scm", ref=1, S=2)
    add("c2m3", C=2, F=1, N=3, M=3)
    add("c2m3p2", C=2, F=2, N=2, M=3, p=2, ref=1)
    add("c2eps", C=2, F=1, N=3, eps=0.125)
    add("c2epsp", C=2, F=1, N=3, eps=0.25, p=2)
    add("c3", C=3, F=1, N=4)
    add("c3r2", C=3, F=1, N=3, ref=2, S=2)
    add("c3m3", C=3, F=1, N=4, M=3, ref=1)
    add("c3p1", C=3, F=1, N=4, p=1, ref=2)
    add("c3p2", C=3, F=1, N=4, p=2)
    add("c3scm", C=3, F=1, N=4, kind="scm", ref=2)
    add("b2", C=2, F=1, N=2, B=(2,))
    add("b2p", C=2, F=2, N=2, B=(2,), p=2, S=2)
    add("b22", C=2, F=1, N=2, B=(2, 2), M=3)
    add("b2scm", C=2, F=1, N=3, B=(2,), kind="scm", S=2)
    add("dist2", C=2, F=1, N=3, prop="distortionless")
    add("dist2p", C=2, F=1, N=3, prop="distortionless", p=1, ref=1)
    for p in (6, 9, 12):
        add(f"bigp{p}", C=2, F=1, N=2, p=p)
    for k in ("rtf", "scm"):
        add(f"bigF{k}", C=2, F=135, N=2, kind=k)
        add(f"bigN{k}", C=2, F=1, N=260, kind=k, S=2)
        add(f"bigS{k}", C=2, F=1, N=2, kind=k, S=7, ref=1)
        add(f"bigC{k}", C=4, F=1, N=6, kind=k, ref=3)
        add(f"big5{k}", C=5, F=1, N=7, kind=k, ref=-1)
        add(f"bigB{k}", C=2, F=1, N=2, kind=k, B=(9,))
    add("big4p", C=4, F=1, N=2, p=5)
    add("bigBp", C=2, F=1, N=2, p=2, B=(9,))
    add("bigFp", C=2, F=135, N=2, p=2)
    if tier == "thorough":
        add("c3f2s2", C=3, F=2, N=5, S=2, ref=1)
        add("c4", C=4, F=1, N=4, ref=3)
        add("c4p3", C=4, F=2, N=5, p=3, S=2)
        add("c4scm", C=4, F=1, N=5, kind="scm", ref=2)
        add("b23", C=3, F=2, N=3, B=(2, 3), M=3, ref=2)
    return c


def run(ctx, cfg):
    kw = {}
    if "p" in cfg:
        kw["n_power_iter"] = cfg["p"]
    if "kind" in cfg:
        kw["mvdr_type"] = cfg["kind"]
    if cfg.get("prop"):
        return BM.distortionless(ctx, cfg, kw)
    BM.compare(ctx, cfg, torchiva.MVDRBeamformer, kw, lambda x, m: L.mvdr(x, m, cfg.get("ref", 0), eps=cfg.get("eps", 1e-5), kind=cfg.get("kind", "rtf"), power=cfg.get("p")))
