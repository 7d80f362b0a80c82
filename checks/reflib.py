"""Reference specifications of the published algorithms (see DESIGN.md)."""
from fractions import Fraction

import numpy as np

from symt import ref as R


# ---------------------------------------------------------------- source models
def laplace(Y, eps=1e-5):
    """1 / max(2 sqrt(sum_f |y_fn|^2), eps), constant over frequency"""
    r = R.mul(R.sqrt(R.tsum(R.abs2(Y), axis=-2, keepdims=True)), 2)
    w = R.rec(R.vmax(r, eps))
    return np.broadcast_to(w, Y.shape)


def gauss(Y, eps=1e-5):
    r = R.mean(R.abs2(Y), axis=-2, keepdims=True)
    return np.broadcast_to(R.rec(R.vmax(r, eps)), Y.shape)


# ---------------------------------------------------------------- regularised solve
def solve_general(A, b, load=1e-5, eps=1e-5):
    """(A'^H A' + load I)^{-1} A'^H b' with rows of A (and b) scaled by
    1/max(|row|, eps)"""
    w = R.rec(R.vmax(R.sqrt(R.tsum(R.abs2(A), axis=-1, keepdims=True)), eps))
    A2, b2 = R.mul(A, w), R.mul(b, w)
    n = A.shape[-1]
    return R.solve(R.add(R.mm(R.H(A2), A2), np.eye(n) * load), R.mm(R.H(A2), b2))


# ---------------------------------------------------------------- T-ISS
def delayed(X, n_taps, n_delay):
    """X_bar[..., t, n] = X[..., n - (n_taps + n_delay) + t], zero before the start"""
    P = R.pad_front(X, n_taps + n_delay)
    N = X.shape[-1]
    return np.stack([P[..., t : t + N] for t in range(n_taps)], axis=-2) if n_taps else np.empty(X.shape[:-1] + (0, N), dtype=P.dtype)


def tiss(X, model, n_iter=1, n_taps=0, n_delay=0, n_src=None, ref_mic=0, eps=1e-5, want="Y", recompute=False):
    """X: (chan, freq, frames), no batch. Works on one frequency at a time except
    for the source model, which couples the frequencies."""
    C, F, N = X.shape
    S = C if n_src is None else n_src
    Xb = delayed(X, n_taps, n_delay)  # (C,F,t,N)
    # demixing: y_s(f) = sum_c W[s,f,c] x_c - sum_ct H[s,f,c,t] xbar
    W = R.zeros((S, F, C), X)
    for s in range(S):
        for f in range(F):
            W[s, f, s] = _one(X)
    Hh = R.zeros((S, F, C, n_taps), X)
    Y = X[:S]
    J = None
    # cross statistics of input and output
    if S < C:
        J = background(Y, X, S, eps)
    for it in range(n_iter):
        if recompute and it > 0:
            Y = demix(X, Xb, W, Hh)
        w = model(Y)
        g = R.vmax(R.mean(R.abs2(Y), axis=(-2, -1), keepdims=True), eps)
        q = R.vmax(R.sqrt(g), eps)
        Y = R.div(Y, q)
        W = R.div(W, q)
        Hh = R.div(Hh, q[..., None])
        w = R.mul(w, g)
        if S < C:
            # E[Y X^H] = W E[X X^H] - H E[X_bar X^H]
            A = R.mm(np.moveaxis(W, 1, 0), cov(X, X))
            for t in range(n_taps):
                A = R.sub(A, R.mm(np.moveaxis(Hh[..., t], 1, 0), cov(Xb[:, :, t], X)))
            J = background_from(A, S, 1e-3)
        # sources
        for s in range(S):
            num = R.mean(R.mul(w, R.mul(Y, R.conj(Y[s])[None])), axis=-1)
            den = R.mean(R.mul(w, R.abs2(Y[s])[None]), axis=-1)
            v = R.div(num, R.vmax(den, eps))
            v = v.copy()
            v[s] = R.sub(1, R.rec(R.sqrt(R.vmax(den[s], eps))))
            Y = R.sub(Y, R.mul(v[:, :, None], Y[s][None]))
            W = R.sub(W, R.mul(v[:, :, None], W[s][None]))
            Hh = R.sub(Hh, R.mul(v[:, :, None, None], Hh[s][None]))
        # background
        for b in range(C - S):
            Z = R.sub(R.tsum(R.mul(np.moveaxis(J[b], -1, 0)[:, :, None], X[:S]), axis=0), X[S + b])
            v = _tap(w, Y, Z, eps)
            Y = R.sub(Y, R.mul(v[:, :, None], Z[None]))
            W = W.copy()
            W[:, :, :S] = R.sub(W[:, :, :S], R.mul(v[:, :, None], J[b][None]))
            W[:, :, S + b] = R.add(W[:, :, S + b], v)
        # dereverberation
        for c in range(C):
            for t in range(n_taps):
                Z = Xb[c, :, t]
                v = _tap(w, Y, Z, eps)
                Y = R.sub(Y, R.mul(v[:, :, None], Z[None]))
                Hh = Hh.copy()
                Hh[:, :, c, t] = R.add(Hh[:, :, c, t], v)
    if recompute and n_iter > 0:
        Y = demix(X, Xb, W, Hh)
    if want == "WHJ":
        return Y, W, Hh, J
    if ref_mic is not None and n_iter > 0:
        a = pb_weights(W, J, ref_mic)
        Y = R.mul(a, Y)
    return Y


def demix(X, Xb, W, Hh):
    """y_s(f,n) = sum_c W[s,f,c] x_c(f,n) - sum_ct H[s,f,c,t] xbar_ct(f,n)"""
    Y = np.moveaxis(R.mm(np.moveaxis(W, 1, 0), np.moveaxis(X, 1, 0)), 0, 1)
    for t in range(Xb.shape[-2]):
        Y = R.sub(Y, np.moveaxis(R.mm(np.moveaxis(Hh[..., t], 1, 0), np.moveaxis(Xb[:, :, t], 1, 0)), 0, 1))
    return Y


def _one(like):
    from symt import term as T

    return T.Cx(1, 0) if R.is_sym(like) else 1.0


def _tap(w, Y, Z, eps):
    num = R.tsum(R.mul(w, R.mul(Y, R.conj(Z)[None])), axis=-1)
    den = R.tsum(R.mul(w, R.abs2(Z)[None]), axis=-1)
    return R.div(num, R.vmax(den, eps))


def cov(A, B):
    """E[a b^H] per frequency: (F, A, B)"""
    return R.mul(R.mm(np.moveaxis(A, 1, 0), R.H(np.moveaxis(B, 1, 0))), Fraction(1, A.shape[-1]))


def background_from(A, S, eps):
    """J (C-S, F, S) such that z = J x_1 - x_2 is uncorrelated with the outputs:
    A = E[Y X^H], A_1 J^H = A_2, row-normalised least squares with loading"""
    JH = solve_general(A[..., :S], A[..., S:], load=eps, eps=eps)
    return np.moveaxis(R.H(JH), 0, 1)


def background(Y, X, S, eps):
    return background_from(cov(Y, X), S, eps)


def pb_weights(W, J, ref):
    """scale of each source at the reference microphone: row `ref` of the inverse
    of the complete demixing matrix [[W],[J, -I]]"""
    S, F, C = W.shape
    Wf = np.moveaxis(W, 1, 0)  # (F,S,C)
    if S == C:
        B = Wf
        rhs = np.eye(S)[:, [ref]]
    else:
        Jf = np.moveaxis(J, 1, 0)  # (F, C-S, S)
        B = R.add(Wf[..., :S], R.mm(Wf[..., S:], Jf))
        if ref < S:
            rhs = np.eye(S)[:, [ref]]
        else:
            rhs = np.swapaxes(Jf[:, [ref - S], :], -1, -2)
    a = solve_general(np.swapaxes(B, -1, -2), rhs)  # (F,S,1)
    return np.moveaxis(a, 1, 0)


# ---------------------------------------------------------------- loaded solves
def load_factor(A, load):
    return R.vmax(R.mul(maxabs(A), load), load)


def maxabs(A):
    a = R.absv(A)
    m = a.reshape(a.shape[:-2] + (-1,))
    r = m[..., 0]
    for k in range(1, m.shape[-1]):
        r = R.vmax(r, m[..., k])
    return r


def solve_loaded(A, b, load=1e-6):
    """(A + max(load * max|A_ij|, load) I)^{-1} b"""
    f = np.asarray(load_factor(A, load))
    n = A.shape[-1]
    return R.solve(R.add(A, R.mul(f[..., None, None], np.eye(n))), b)


# ---------------------------------------------------------------- AuxIVA-IP
def auxiva_ip(X, model, n_iter=1, n_src=None, ref_mic=0, eps=1e-5):
    """iterative projection, with the orthogonality-constrained background when
    there are more channels than sources. X: (C, F, N)"""
    C, F, N = X.shape
    S = C if n_src is None else n_src
    W = R.zeros((F, S, C), X)
    for f in range(F):
        for s in range(S):
            W[f, s, s] = _one(X)
    Y = X[:S]
    Cx = cov(X, X)

    def ortho(W):
        if S == C:
            return None
        A = R.mm(W, Cx)
        return R.H(solve_general(A[..., :S], A[..., S:], load=eps, eps=eps))  # (F, C-S, S)

    J = ortho(W)
    for _ in range(n_iter):
        w = model(Y)
        g = R.vmax(R.mean(R.abs2(Y), axis=(-2, -1), keepdims=True), eps)  # (S,1,1)
        q = R.vmax(R.sqrt(g), eps)
        W = R.div(W, q.reshape(1, S, 1))
        w = R.mul(w, g)
        for k in range(S):
            J = ortho(W)
            Xf = np.moveaxis(X, 1, 0)  # (F,C,N)
            V = R.mm(R.mul(Xf, w[k][:, None, :]), R.H(Xf))
            WV = R.mm(W, V)
            if J is not None:
                WV = np.concatenate([WV, R.sub(R.mm(J, V[:, :S]), V[:, S:])], axis=-2)
            u = R.conj(solve_general(WV, np.eye(C)[:, [k]], load=eps, eps=eps))[..., 0]  # (F,C)
            # scale: w^T V conj(w), with w the row of the demixing matrix
            sc = R.real(R.mm(R.mm(u[:, None, :], V), R.conj(u)[..., None]))[:, 0, 0]
            u = R.div(u, R.sqrt(R.vmax(sc, eps))[:, None])
            W = W.copy()
            W[:, k] = u
        Y = np.moveaxis(R.mm(W, np.moveaxis(X, 1, 0)), 0, 1)
    if ref_mic is not None:
        a = pb_weights(np.moveaxis(W, 1, 0), None if J is None else np.moveaxis(J, 1, 0), ref_mic)
        Y = R.mul(a, Y)
    return Y


# ---------------------------------------------------------------- 2x2 GEVD
def gevd2(A, B, eps):
    """eigenvalues (ascending) and unit eigenvectors of A v = l B v for 2x2
    Hermitian matrices; the discriminant and det B are bounded below by eps"""
    a11, a12, a22 = A[..., 0, 0], A[..., 0, 1], A[..., 1, 1]
    b11, b12, b22 = B[..., 0, 0], B[..., 0, 1], B[..., 1, 1]
    a11, a22, b11, b22 = map(R.real, (a11, a22, b11, b22))
    tr = R.sub(R.add(R.mul(a11, b22), R.mul(a22, b11)), R.mul(2, R.real(R.mul(a12, R.conj(b12)))))
    dA = R.sub(R.mul(a11, a22), R.abs2(a12))
    dB = R.sub(R.mul(b11, b22), R.abs2(b12))
    disc = R.vmax(R.sub(R.mul(tr, tr), R.mul(4, R.mul(dA, dB))), eps)
    rt = R.sqrt(disc)
    half = Fraction(1, 2)
    lam, vec = [], []
    for sg in (-1, 1):
        l = R.div(R.mul(half, R.add(tr, R.mul(sg, rt))), R.vmax(dB, eps))
        v0 = R.sub(R.mul(l, b12), a12)
        v1 = R.sub(a11, R.mul(l, b11))
        nrm = R.vmax(R.sqrt(R.add(R.abs2(v0), R.abs2(v1))), eps)
        lam.append(l)
        vec.append(np.stack([np.asarray(R.div(v0, nrm)), np.asarray(R.div(v1, nrm))], axis=-1))
    return np.stack(lam, axis=-1), np.stack(vec, axis=-1)


# ---------------------------------------------------------------- AuxIVA-IP2
def hsym(V):
    return R.mul(Fraction(1, 2), R.add(V, R.H(V)))


def wcov(w, X):
    """sum_n w(f,n) x(f,n) x(f,n)^H, (F,C,C); X (C,F,N), w (F,N)"""
    Xf = np.moveaxis(X, 1, 0)
    return R.mm(R.mul(Xf, w[:, None, :]), R.H(Xf))


def ip2(X, model, n_iter=1, ref_mic=0, eps=1e-5):
    N = X.shape[-1]
    Y, W = X, None
    for _ in range(n_iter):
        w = model(Y)
        g = R.vmax(R.mean(R.abs2(Y), axis=(-2, -1), keepdims=True), 1e-5)
        w = R.mul(w, g)
        V = [hsym(R.mul(Fraction(1, N), wcov(w[k], X))) for k in (0, 1)]
        _, U = gevd2(V[1], V[0], eps)
        cols = []
        for k in (0, 1):
            u = U[..., :, 1 - k]
            q = R.absv(R.mm(R.conj(u)[..., None, :], R.mm(V[k], u[..., None])))[..., 0, 0]
            q = R.vmax(R.sqrt(R.vmax(q, 1e-7)), eps)
            cols.append(R.div(u, np.asarray(q)[..., None]))
        W = R.conj(np.stack(cols, axis=-2))  # rows w_k^H
        Y = np.moveaxis(R.mm(W, np.moveaxis(X, 1, 0)), 0, 1)
    if ref_mic is not None and n_iter > 0:
        det = R.sub(R.mul(W[..., 0, 0], W[..., 1, 1]), R.mul(W[..., 0, 1], W[..., 1, 0]))
        small = R.lt(R.absv(det), 1e-6)
        det = R.where(small, 1e-6, det)
        r = ref_mic
        # row r of the inverse
        row = [W[..., 1, 1], R.mul(-1, W[..., 0, 1])] if r == 0 else [R.mul(-1, W[..., 1, 0]), W[..., 0, 0]]
        a = np.stack([np.asarray(R.div(z, det)) for z in row], axis=0)[..., None]
        Y = R.mul(a, Y)
    return Y


# ---------------------------------------------------------------- FIVE
def five(X, model, n_iter=1, ref_mic=0, n_power_iter=None):
    """X (C,F,N) -> (1,F,N); the DC bin is dropped and returned as zero"""
    C, F, N = X.shape
    Xo = X[:, 1:]
    Cx = hsym(cov(Xo, Xo))
    lam, E = R.eigh(Cx)
    lam, E = lam[..., ::-1], E[..., ::-1]
    q = R.sqrt(R.vmax(lam, 1e-5))  # (F,C)
    Q = R.mul(R.rec(q)[..., :, None], R.H(E))
    Qi = R.mul(E, q[..., None, :])
    Z = np.moveaxis(R.mm(Q, np.moveaxis(Xo, 1, 0)), 0, 1)
    Y = Z[0]
    if ref_mic is not None:
        z = R.mm(Q[..., [0], :], Cx[..., :, [ref_mic]])[..., 0]  # (F,1)
        Y = R.mul(z, Y)
    for _ in range(n_iter):
        w = model(Y)
        V = hsym(wcov(w, Z))
        if n_power_iter is None:
            _, U = R.eigh(V)
            u = U[..., :, 0]
        else:
            Vi = R.inv(R.add(V, R.mul(np.asarray(load_factor(V, 1e-5))[..., None, None], np.eye(C))))
            u = Vi[..., :, 0]
            u = R.div(u, R.sqrt(R.tsum(R.abs2(u), axis=-1, keepdims=True)))
            for _ in range(n_power_iter - 1):
                u = R.mm(Vi, u[..., None])[..., 0]
                u = R.div(u, R.sqrt(R.tsum(R.abs2(u), axis=-1, keepdims=True)))
            u = R.mul(u, R.conj(R.sgn(u[..., :1])))
        if ref_mic is not None:
            z = R.tsum(R.mul(Qi[..., ref_mic, :], u), axis=-1, keepdims=True)
            u = R.mul(u, R.conj(z))
        Y = R.mm(R.conj(u)[:, None, :], np.moveaxis(Z, 1, 0))[:, 0]
    Y = np.concatenate([R.zeros((1, N), X), Y], axis=0)
    return Y[None]


# ---------------------------------------------------------------- WPE
def wpe_weights(Y, eps=1e-5):
    w = R.rec(R.vmax(R.mean(R.abs2(Y), axis=0), eps))  # (F,N)
    return R.div(w, R.tsum(w, axis=-1, keepdims=True))


def wpe(X, model=None, n_iter=1, n_delay=1, n_taps=1, eps=1e-5):
    C, F, N = X.shape
    Xb = delayed(X, n_taps, n_delay)  # (C,F,T,N)
    G = np.moveaxis(Xb, 1, 0).reshape(F, C * n_taps, N)
    Xf = np.moveaxis(X, 1, 0)
    Y = X
    for _ in range(n_iter):
        w = wpe_weights(Y, eps) if model is None else model(Y)
        Gw = R.mul(G, w[:, None, :])
        H = solve_loaded(R.mm(Gw, R.H(G)), R.mm(Gw, R.H(Xf)), load=eps)  # (F, CT, C)
        Y = R.sub(X, np.moveaxis(R.mm(R.H(H), G), 0, 1))
    return Y


# ---------------------------------------------------------------- beamformers
def gevd(A, Bm):
    """A v = l B v through B^{-1/2} A B^{-1/2}, unit vectors, ascending"""
    bl, bv = R.eigh(Bm)
    q = R.rec(R.sqrt(R.vmax(bl, 1e-5)))
    S = R.mm(bv, R.mul(q[..., :, None], R.H(bv)))
    l, u = R.eigh(R.mm(R.mm(S, A), R.H(S)))
    v = R.mm(R.H(S), u)
    return l, R.div(v, R.vmax(R.sqrt(R.tsum(R.abs2(v), axis=-2, keepdims=True)), 1e-5))


def pencil(A, B):
    return gevd2(A, B, 1e-15) if A.shape[-1] == 2 else gevd(A, B)


def mcov(m, X):
    """sum_n m(s,f,n) x x^H: (S,F,C,C) for X (C,F,N)"""
    Xf = np.moveaxis(X, 1, 0)  # (F,C,N)
    return R.mm(R.mul(m[..., None, :], Xf), R.H(Xf))


def rtf(Rt, Rn, ref, power=None):
    """relative transfer function of the target, (S,F,C)"""
    if power is None:
        v = pencil(Rt, Rn)[1][..., -1:]
    else:
        P = solve_loaded(Rn, Rt, load=1e-5)
        v = P[..., :1]
        for _ in range(power - 1):
            v = R.mm(P, v)
            v = R.div(v, R.vmax(R.sqrt(R.tsum(R.abs2(v), axis=-2, keepdims=True)), 1e-12))
    a = R.mm(Rn, v)[..., 0]
    return R.div(a, a[..., [ref]])


def mvdr(X, masks, ref, eps=1e-5, kind="rtf", power=None):
    Rs = [mcov(masks[:, k], X) for k in range(masks.shape[1])]
    if len(Rs) == 2 and kind == "scm":
        P = R.solve(Rs[1], Rs[0])
        tr = P[..., 0, 0]
        for k in range(1, P.shape[-1]):
            tr = R.add(tr, P[..., k, k])
        w = R.div(P[..., :, ref], tr[..., None])
    else:
        d = rtf(Rs[0], Rs[1] if len(Rs) == 2 else Rs[2], ref, power)
        a = solve_loaded(Rs[1], d[..., None], load=eps)[..., 0]
        q = R.real(R.tsum(R.mul(R.conj(d), a), axis=-1, keepdims=True))
        w = R.div(a, R.vmax(q, eps))
    return beam(w, X)


def beam(w, X):
    """w(s,f,c)^H x(c,f,n) -> (S,F,N)"""
    return R.tsum(R.mul(R.conj(w)[..., None], np.moveaxis(X, 1, 0)), axis=-2)


def mwf(X, masks, ref, eps=1e-5, time_invariant=True):
    Rt, Rn = [mcov(masks[:, k], X) for k in range(2)]
    if time_invariant:
        return beam(solve_loaded(R.add(Rt, Rn), Rt[..., [ref]], load=eps)[..., 0], X)
    vt, vn = masks[:, 2][..., None, None], masks[:, 3][..., None, None]
    Rt, Rn = R.mul(Rt[:, :, None], vt), R.mul(Rn[:, :, None], vn)
    w = solve_loaded(R.add(Rt, Rn), Rt[..., [ref]], load=eps)[..., 0]  # (S,F,N,C)
    return R.tsum(R.mul(R.conj(w), np.moveaxis(X, 0, -1)), axis=-1)


def gev(X, masks, ref):
    Rt, Rn = [mcov(masks[:, k], X) for k in range(2)]
    V = pencil(Rt, Rn)[1]
    C = V.shape[-1]
    e = np.zeros((C, 1))
    e[-1] = 1
    a = R.solve(R.H(V), np.broadcast_to(R.emap(lambda z: z, lambda z: z, e.astype(object) if R.is_sym(V) else e), V.shape[:-1] + (1,)))
    return R.mul(beam(V[..., -1], X), a[..., ref, :][..., :1])
