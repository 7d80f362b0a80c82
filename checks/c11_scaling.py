"""Resolving the scale: projection back and minimum distortion."""
import numpy as np

from checks import common as K
from symt import ref as R
import torchiva
from torchiva import five

BOUNDS = "1-3 channels, 1-3 frequencies, 1-4 frames, 0-2 batch dimensions; lp and mixed norms for several exponents, 1-6 reweighting iterations; one size at a time up to 8 channels, 130 frequencies, 150 frames, a batch of 9, 60 iterations."
OUTSIDE = "larger sizes, more reweighting iterations; real powers other than halves are uninterpreted functions of base and exponent (both sides); floating-point rounding."


def configs(tier):
    c = []

    def add(name, **k):
        k["name"] = name
        c.append(k)

    add("pb1", f="pb", C=1, F=1, N=2)
    add("pb1n", f="pb", C=1, F=2, N=3)
    add("pb2", f="pb", C=2, F=1, N=2)
    add("pb2f", f="pb", C=2, F=2, N=3, max_paths=12)
    add("pb3", f="pb", C=3, F=1, N=3, max_paths=3)
    add("pb2b", f="pb", C=2, F=1, N=2, B=(2,), max_paths=4)
    add("pb1b2", f="pb", C=1, F=2, N=2, B=(2, 2), max_paths=4)
    for n, k in dict(l2=dict(C=2, F=2, N=2), l2n1=dict(C=3, F=1, N=1), l2c1=dict(C=1, F=3, N=3), l2b=dict(C=1, F=2, N=3, B=(2,)), l2b2=dict(C=1, F=3, N=2, B=(1, 2)), l2sq=dict(C=2, F=2, N=2, B=(2,))).items():
        add(n, f="l2", **k)
        add(n + "opt", f="l2opt", **k)
        add(n + "phase", f="phase", **k)
    add("l2p2", f="l2", C=2, F=2, N=2, kw=dict(p=2.0))
    add("l2p2q2", f="l2", C=2, F=2, N=2, kw=dict(p=2.0, q=2.0))
    for n, p, q in (("p1", 1.0, None), ("p05", 0.5, None), ("p15", 1.5, None), ("p1q1", 1.0, 1.0), ("p1q2", 1.0, 2.0), ("p1q15", 1.0, 1.5), ("p05q1", 0.5, 1.0)):
        for it in (1, 2):
            add(f"{n}i{it}", f="lp", C=2, F=2, N=2, p=p, q=q, it=it, explore=it < 2)
    add("p1i3", f="lp", C=1, F=1, N=2, p=1.0, q=None, it=3, max_paths=4)
    add("p1i3b", f="lp", C=1, F=2, N=3, p=1.0, q=2.0, it=3, max_paths=2)
    add("p1i3loose", f="lp", C=2, F=1, N=2, p=1.0, q=2.0, it=3, rtol=10.0, max_paths=2)
    add("p1stop", f="lp", C=1, F=2, N=3, p=1.0, q=None, it=4, rtol=0.03, max_paths=1)
    add("p1q2stop", f="lp", C=2, F=2, N=2, p=1.0, q=2.0, it=4, rtol=0.1, max_paths=1)
    add("p1dflt", f="lp", C=1, F=2, N=3, p=1.0, q=None, it=6, max_paths=1)
    add("p1i0", f="lp", C=2, F=2, N=2, p=1.0, q=None, it=0)
    add("scale", f="global", C=2, F=2, N=2)
    add("scaleb", f="global", C=1, F=2, N=2, B=(2,))
    add("p1b", f="lp", C=2, F=1, N=2, p=1.0, q=None, it=1, B=(2,))
    add("p1bi2", f="lp", C=1, F=2, N=3, p=1.0, q=2.0, it=2, B=(2, 1), explore=False)
    add("pb2f3", f="pb", C=2, F=3, N=4, max_paths=4)
    add("pb1f5", f="pb", C=1, F=5, N=4, max_paths=4)
    add("pb2f8n20", f="pb", C=2, F=8, N=20, max_paths=1)
    add("pb1n60", f="pb", C=1, F=2, N=60, max_paths=1)
    add("pb1f40", f="pb", C=1, F=40, N=3, max_paths=1)
    add("pb1b7", f="pb", C=1, F=2, N=2, B=(7,), max_paths=1)
    for n, k in dict(N=dict(C=1, F=1, N=150), F=dict(C=1, F=130, N=2), C=dict(C=8, F=2, N=2), b=dict(C=1, F=2, N=2, B=(9,))).items():
        for f in ("l2", "phase", "global"):
            if not (f == "global" and n == "F"):
                add(f"big{f}{n}", f=f, **k)
        for q in (None, 2.0):
            add(f"biglp{n}{'q' if q else ''}", f="lp", p=1.0, q=q, it=2, rtol=1e-9, max_paths=1, **k)
    for it in (9, 25, 60):
        add(f"lpi{it}", f="lp", C=1, F=1, N=2, p=1.0, q=None, it=it, rtol=-1.0, max_paths=1)
    if tier == "thorough":
        add("pb2n4", f="pb", C=2, F=2, N=4, max_paths=40)
        add("pb3n4", f="pb", C=3, F=2, N=4, max_paths=24)
        add("pb4", f="pb", C=4, F=1, N=4, max_paths=4)
        add("l2big", f="l2opt", C=3, F=3, N=5, B=(2, 2))
        add("phasebig", f="phase", C=3, F=3, N=5, B=(2, 2))
        for it in (1, 2, 3):
            add(f"lpbig{it}", f="lp", C=2, F=3, N=3, p=0.5, q=1.5, it=it, max_paths=3, B=(2,))
    return c


def run(ctx, cfg):
    B = cfg.get("B", ())
    C, F, N = cfg["C"], cfg["F"], cfg["N"]
    Y = ctx.cpx("y", B + (C, F, N))
    Z = ctx.cpx("r", B + (F, N))
    y, z = ctx.arr(Y), ctx.arr(Z)
    zc = z[..., None, :, :]
    f = cfg["f"]
    if f == "pb":
        out = torchiva.projection_back(Y, Z)
        want = K.over_batch(lambda i, yi: project(ctx, yi, z[i]), y, 3)
        ctx.eq("Y", out, want)
    elif f in ("l2", "l2opt"):
        if f == "l2opt":
            # the residual is orthogonal to the signal: the scale is optimal
            for e in R.mean(R.abs2(y), axis=-1).reshape(-1):
                ctx.assume(R.le(1e-5, e))
        out = torchiva.minimum_distortion(Y, Z, **cfg.get("kw", {}))
        if f == "l2":
            num = R.mean(R.mul(R.conj(y), zc), axis=-1, keepdims=True)
            den = R.vmax(R.mean(R.abs2(y), axis=-1, keepdims=True), 1e-7)
            ctx.eq("Y", out, R.mul(y, R.div(num, den)))
        else:
            res = R.sub(zc, ctx.arr(out))
            ctx.eq("residual", R.tsum(R.mul(R.conj(y), res), axis=-1), np.zeros(B + (C, F)), tol=1e-5)
    elif f == "global":
        if not hasattr(five, "adjust_global_scale"):
            return
        out = five.adjust_global_scale(Y, Z[..., None, :, :])
        num = R.mean(R.mul(R.conj(y), zc), axis=(-2, -1), keepdims=True)
        den = R.vmax(R.mean(R.abs2(y), axis=(-2, -1), keepdims=True), 1e-7)
        ctx.eq("Y", out, R.mul(y, R.div(num, den)))
    elif f == "phase":
        out = torchiva.minimum_distortion_l2_phase(Y, Z)
        num = R.mean(R.mul(R.conj(y), zc), axis=-1, keepdims=True)
        den = R.vmax(R.sqrt(R.abs2(num)), 1e-5)
        ctx.eq("Y", out, R.mul(y, R.div(num, den)))
    else:
        kw = {k: cfg[k] for k in ("p", "q", "rtol") if k in cfg}
        out = torchiva.minimum_distortion(Y, Z, max_iter=cfg["it"], **kw)
        ctx.eq("Y", out, distortion(ctx, y, zc, cfg["p"], cfg["q"], cfg.get("rtol", 1e-2), cfg["it"]))
    ctx.eq("Y kept", Y, y)
    ctx.eq("ref kept", Z, z)


def project(ctx, y, z):
    """the scales reproduce the reference on the most energetic frames, up to a
    load of 1e-5"""
    C, F, N = y.shape
    en = R.tsum(R.sqrt(R.abs2(y)), axis=(0, 1))
    order = np.argsort(R.value(en), kind="stable")
    for a, b in zip(order[:-1], order[1:]):
        ctx.le(f"order{a},{b}", en[a], en[b])
    fr = order[-C:]
    out = R.zeros(y.shape, y)
    for f in range(F):
        A = R.add(y[:, f, :][:, fr].T, 1e-5 * np.eye(C))
        c = R.solve(A, z[f][fr][:, None])
        out[:, f, :] = R.mul(y[:, f, :], c)
    return out


def distortion(ctx, y, zc, p, q, rtol, it):
    c = np.ones(y.shape[:-1] + (1,))
    prev = None
    for k in range(it):
        e = R.absv(R.sub(zc, R.mul(y, c)))
        if q is None or p == q:
            d = R.power(e, 2 - p)
        else:
            e = R.add(e, 1e-5)
            s = R.tsum(R.add(R.power(e, q), 1e-5), axis=-2, keepdims=True)
            d = R.mul(R.power(s, 1 - p / q), R.power(e, 2 - q))
        w = R.div(p, R.vmax(R.mul(2.0, d), 1e-5))
        num = R.tsum(R.mul(R.mul(zc, R.conj(y)), w), axis=-1, keepdims=True)
        den = R.tsum(R.mul(R.abs2(y), w), axis=-1, keepdims=True)
        c = R.div(num, R.vmax(den, 1e-5))
        if prev is not None and k + 1 < it:
            step = R.sqrt(R.tsum(R.abs2(R.sub(c, prev))))
            size = R.sqrt(R.tsum(R.abs2(prev)))
            stop = float(R.value(R.div(step, size))) < rtol
            small = R.lt(R.div(step, size), rtol)
            ctx.true(f"step{k}", small if stop else R.le(rtol, R.div(step, size)))
            if stop:
                break
        prev = c
    return R.mul(y, c)
