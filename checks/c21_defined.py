"""No division by zero on silent and degenerate signals."""
import numpy as np
import torch

from checks import c15_batch as B15
from symt import sign as G
from symt import term as T
import torchiva

BOUNDS = "T-ISS, AuxIVA-IP2, FIVE (eigendecomposition), WPE, MWF, the classic source models and the l2 scalings on signals with 1-4 channels, 1-3 frequencies, 1-6 frames, up to three iterations; every finite input with entries up to 1000 in magnitude. MVDR and GEV on one all-zero frequency."
OUTSIDE = "overflow, underflow and rounding of floats (a nonsingular system may be so ill-conditioned that LAPACK fails); AuxIVA-IP and projection_back, whose unloaded systems are singular for particular non-silent inputs; FIVE with power iterations; the reweighted minimum distortion; MVDR and GEV beyond all-zero frequencies."

def configs(tier):
    c = []

    def add(n, **k):
        k["name"] = n
        k.setdefault("B", ())
        k["definedness"] = True
        k.setdefault("explore", False)
        c.append(k)

    one = dict(C=2, F=1, N=2)
    add("tiss", algo="tiss", **one)
    add("tiss1", algo="tiss", C=2, F=1, N=1)
    add("tissg", algo="tiss", kw=dict(model="gauss"), C=2, F=2, N=2)
    add("tiss2", algo="tiss", kw=dict(n_iter=2), **one)
    add("tisst", algo="tiss", C=2, F=1, N=3, kw=dict(n_taps=1, n_delay=1))
    add("tisst2", algo="tiss", C=1, F=1, N=4, kw=dict(n_taps=2, n_delay=1, n_iter=2))
    add("tisso", algo="tiss", C=3, F=1, N=2, kw=dict(n_src=2))
    add("tissot", algo="tiss", C=2, F=1, N=3, kw=dict(n_src=1, n_taps=1, n_delay=1, proj_back_mic=1))
    add("tissdmc", algo="tiss", kw=dict(use_dmc=True), **one)
    add("tissnopb", algo="tiss", kw=dict(proj_back_mic=None), **one)
    add("tissnmf", algo="tiss", kw=dict(model="nmf"), C=2, F=2, N=2)
    add("ip2", algo="ip2", **one)
    add("ip2i", algo="ip2", kw=dict(n_iter=2, model="gauss"), **one)
    add("ip2nopb", algo="ip2", kw=dict(proj_back_mic=None), **one)
    add("five", algo="five", C=2, F=2, N=2)
    add("five3", algo="five", C=3, F=2, N=2)
    add("five2", algo="five", C=2, F=2, N=2, kw=dict(n_iter=2, model="gauss"))
    add("fivenopb", algo="five", kw=dict(proj_back_mic=None), C=2, F=2, N=2)
    add("wpe", algo="wpe", C=1, F=1, N=4, kw=dict(n_taps=2, n_delay=1))
    add("wpe2", algo="wpe", C=2, F=1, N=4, kw=dict(n_taps=1, n_delay=1, n_iter=2))
    add("wpe2t", algo="wpe", C=2, F=1, N=5, kw=dict(n_taps=2, n_delay=1))
    add("mwf", algo="mwf", C=2, F=1, N=2, kw=dict(S=2))
    add("mwf3", algo="mwf", C=3, F=2, N=2)
    add("mwft", algo="mwf", C=2, F=1, N=2, kw=dict(M=4, time_invariant=False))
    add("laplace", algo="laplace", C=2, F=2, N=2)
    add("gauss", algo="gauss", C=2, F=2, N=2)
    add("nmf", algo="nmf", C=2, F=2, N=3)
    add("l2", algo="l2", C=3, F=2, N=2)
    add("phase", algo="phase", C=3, F=2, N=2)
    add("mvdr0", algo="mvdr", zero=True, **one)
    add("mvdr0p", algo="mvdr", zero=True, kw=dict(n_power_iter=2), **one)
    add("mvdr0scm", algo="mvdr", zero=True, kw=dict(mvdr_type="scm"), **one)
    add("gev0", algo="gev", zero=True, **one)
    if tier == "thorough":
        add("tiss4", algo="tiss", C=4, F=2, N=3, kw=dict(n_iter=2))
        add("tiss3t", algo="tiss", C=3, F=2, N=5, kw=dict(n_taps=2, n_delay=1, n_iter=2))
        add("tisso4", algo="tiss", C=4, F=2, N=3, kw=dict(n_src=2, n_iter=2))
        add("tissot2", algo="tiss", C=3, F=1, N=4, kw=dict(n_src=2, n_taps=1, n_delay=1, n_iter=2))
        add("tissdmc3", algo="tiss", C=3, F=2, N=2, kw=dict(use_dmc=True, n_iter=2))
        add("tissnmf2", algo="tiss", kw=dict(model="nmf"), C=2, F=3, N=3)
        add("ip2f", algo="ip2", C=2, F=3, N=4, kw=dict(n_iter=3))
        add("five4", algo="five", C=4, F=3, N=4, kw=dict(n_iter=3))
        add("wpe3", algo="wpe", C=3, F=2, N=6, kw=dict(n_taps=2, n_delay=2, n_iter=2))
        add("mwf4", algo="mwf", C=4, F=2, N=3, kw=dict(S=2))
        add("mwft3", algo="mwf", C=3, F=2, N=2, kw=dict(M=4, time_invariant=False, S=2))
        add("nmf3", algo="nmf", C=2, F=3, N=4)
        add("laplace3", algo="laplace", C=4, F=5, N=6)
        add("gauss3", algo="gauss", C=4, F=5, N=6)
        add("l23", algo="l2", C=4, F=3, N=5)
        add("phase3", algo="phase", C=4, F=3, N=5)
    return c


def make(cfg):
    kw = dict(cfg.get("kw", {}))
    if cfg["algo"] == "nmf":
        return torchiva.NMFModel()
    if kw.get("model") == "nmf":
        return torchiva.T_ISS(n_iter=1, model=torchiva.NMFModel())
    return B15.algo(cfg)


def nonzero(n, memo):
    return G.nonzero(n, memo) or guarded(n, memo) or (n.op == "*" and all(nonzero(k, memo) for k, e in n.args)) or (n.op == "abs" and nonzero(n.args[0], memo)) or (n.op == "+" and n.args[0] == 0 and len(n.args[1]) == 1 and nonzero(n.args[1][0][0], memo))


def ratio(p, q):
    """p / q for terms that are products, else None"""
    if q is T.ZERO or p is T.ZERO:
        return None
    (c, p), (d, q) = T._prim(p), T._prim(q)
    if p is q:
        return T.const(c / d)
    e = dict(p.args) if p.op == "*" else {p: 1}
    for k, v in q.args if q.op == "*" else ((q, 1),):
        e[k] = e.get(k, 0) - v
        if e[k] < 0:
            return None
    r = T.const(c / d)
    for k, v in e.items():
        for _ in range(v):
            r = r * k
    return r


def psd(P, Q, memo):
    """P Q = sum_k w_k v_k v_k^H, w_k >= 0, v_k the conjugate of row k of Q (or column k of P)"""
    n, K = P.shape
    for k in range(K):
        p, q = [T.cx(z) for z in P[:, k]], [conj(z) for z in Q[k]]
        if same(p, q):
            continue
        for u, v in ((p, q), (q, p)):
            w = None
            for i in range(n):
                for a, b in ((u[i].real, v[i].real), (u[i].imag, v[i].imag)):
                    w = ratio(a, b) if w is None else w
            if w is not None and G.nonneg(w, memo) and same(u, [T.Cx(z.real * w, z.imag * w) for z in v]):
                break
            if all(zero(z.real) and zero(z.imag) for z in u):
                break
        else:
            return False
    return True


def same(u, v):
    return all(a.real is b.real and a.imag is b.imag for a, b in zip(u, v))


def guarded(n, memo):
    """sum of squares whose terms choose between two values by a test |value| < e"""
    if not (isinstance(n, T.Node) and n.op == "+"):
        return False
    conds = {i.args[0] for k, _ in n.args[1] for i, e in (k.args if k.op == "*" else ((k, 1),)) if i.op == "ite"}
    for c in conds:
        if c.op != "lt":
            continue
        a, b = (pick(n, c, t) for t in (True, False))
        x, e = c.args
        if G.positive(a, memo) and e.op == "c" and e.args > 0:
            d, x = T._prim(x)
            if x.op == "sqrt" and zero(b - x.args[0] * T.const(d * d)):
                return G.chosen(a, memo)
    return False


def pick(n, c, t):
    """the sum with the choices made by c resolved"""
    r = T.const(n.args[0])
    for k, v in n.args[1]:
        p = T.const(v)
        for i, e in k.args if k.op == "*" else ((k, 1),):
            if i.op == "ite" and i.args[0] is c:
                i = i.args[1] if t else i.args[2]
            for _ in range(e):
                p = p * i
        r = r + p
    return r


def cmat(M):
    return np.array([[T.cx(z) for z in r] for r in M], dtype=object).reshape(M.shape)


def semidefinite(products, memo):
    """the recorded products that are positive semidefinite"""
    out, seen = [], set()
    square = []
    for P, Q, R in products:
        n, m = R.shape
        if n == m:
            square.append((P, Q, R))
        elif n > m:  # several matrices computed at once
            for rows in [list(range(i * m, i * m + m)) for i in range(n // m)] + [list(range(i, n, n // m)) for i in range(n // m)]:
                square.append((P[rows], Q, R[rows]))
        else:
            for cols in [list(range(i * n, i * n + n)) for i in range(m // n)] + [list(range(i, m, m // n)) for i in range(m // n)]:
                square.append((P, Q[:, cols], R[:, cols]))
    for P, Q, R in square:
        R = cmat(R)
        k = tuple(id(z.real) for z in R.reshape(-1)) + tuple(id(z.imag) for z in R.reshape(-1))
        if k in seen:
            continue
        seen.add(k)
        if psd(P, Q, memo):
            out.append(R)
    return out


def gram(M, mats, memo):
    """M = R + diag(positive) or R + R' + diag(positive), R, R' in mats"""
    n = M.shape[0]
    M = cmat(M)
    mats = [R for R in mats if R.shape == M.shape]
    off = [(i, j) for i in range(n) for j in range(n) if i != j]

    def rest(R):
        return all(zero(M[i, j].real - R[i, j].real) and zero(M[i, j].imag - R[i, j].imag) for i, j in off) and all(
            G.positive(M[i, i].real - R[i, i].real, memo) and zero(M[i, i].imag - R[i, i].imag) for i in range(n)
        )

    if any(rest(R) for R in mats):
        return True
    i, j = off[0] if off else (0, 0)
    if off:
        first = {}
        for R in mats:
            first.setdefault(R[i, j].real, []).append(R)
        pairs = ((R, Q) for R in mats for Q in first.get(M[i, j].real - R[i, j].real, ()))
    else:
        pairs = ((R, Q) for R in mats for Q in mats)
    for R, Q in pairs:
        if rest(np.array([[T.Cx(a.real + b.real, a.imag + b.imag) for a, b in zip(r, q)] for r, q in zip(R, Q)], dtype=object).reshape(n, n)):
            return True
    return False


def scaled(mats, hints):
    return mats + [np.array([[T.Cx(z.real * h, z.imag * h) for z in r] for r in R], dtype=object) for R in mats for h in hints]


def zero(n):
    return n.op == "c" and n.args == 0


def conj(z):
    z = T.cx(z)
    return T.Cx(z.real, -z.imag)


def run(ctx, cfg):
    X = ctx.cpx("x", cfg["B"] + (cfg["C"], cfg["F"], cfg["N"]), box=1000)
    if cfg.get("zero"):
        X = torch.zeros(cfg["C"], cfg["F"], cfg["N"], dtype=torch.complex128)
    ctx.reseed()
    bad = None
    with torch.no_grad():
        try:
            Y = make(cfg)(X)
        except (RuntimeError, ZeroDivisionError) as e:
            bad = e
    if bad is not None:
        ctx.fail("finite", f"{type(bad).__name__} {bad}"[:200])
        return
    with torch._C._DisableTorchDispatch():
        ctx.same("finite", bool(torch.isfinite(torch.view_as_real(Y.resolve_conj().resolve_neg()) if Y.is_complex() else Y).all()), True)
    if not ctx.symbolic or cfg.get("zero"):
        return
    noted, T.Ctx.defined = T.Ctx.defined, None
    memo = {x: G.NN for x, lo, _ in ctx.sh.rnd_bounds if lo >= 0}
    mats = semidefinite([n for kind, n in noted if kind == "prod"], memo)
    if cfg["algo"] == "mwf" and not cfg.get("kw", {}).get("time_invariant", True):
        with ctx.sh:
            V = ctx.arr(B15.Masks(cfg["kw"].get("S", 1), 4)(X[0])[..., 2:, :, :])
        mats = scaled(mats, [v for v in V.reshape(-1) if G.nonneg(v, memo)])
    seen = set()
    for kind, n in noted:
        if kind == "prod":
            continue
        if kind == "inv":
            key = tuple(id(z) for z in n.reshape(-1))
            if key in seen:
                continue
            seen.add(key)
            ok = gram(n, mats, memo) and G.definite(n.shape[0])
            ctx.true(f"system {len(seen)}", True if ok else singular(n))
            continue
        if (kind, n.id) in seen:
            continue
        seen.add((kind, n.id))
        if kind == "nz":
            ctx.true(f"denominator {n!r}"[:80], True if nonzero(n, memo) else T.bnot(T.eq(n, T.ZERO)))
        else:
            ctx.true(f"radicand {n!r}"[:80], True if G.nonneg(n, memo) else T.le(T.ZERO, n))
    T.Ctx.defined = noted


def singular(M):
    from symt.ops import det_adj

    d, T.Ctx.defined = T.Ctx.defined, None
    det = T.cx(det_adj(M)[0])
    T.Ctx.defined = d
    return T.bnot(T.band(T.eq(det.real, T.ZERO), T.eq(det.imag, T.ZERO)))
