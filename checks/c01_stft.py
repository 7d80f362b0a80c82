"""STFT: analysis follows its definition, synthesis inverts it."""
import numpy as np
import torch

from checks import common as K
from symt import ref as R
import torchiva

BOUNDS = "every signal with samples in [-4, 4] (both maps are shown linear, so every signal up to scale), n_fft 4-8, hops n_fft/4 to n_fft/2 (or default), 2-5 frames, lengths that are and are not multiples of the hop, 0-2 batch dimensions, hann, hamming, blackman and custom windows (array, tensor); transforms of 12-128 samples on 80-1100 samples of signal (up to 138 frames) with 4 symbolic samples among fixed ones."
OUTSIDE = "longer transforms and signals; float rounding beyond the 1e-9 tolerance used for the irrational twiddle factors."
BOX = 4


def configs(tier):
    c = []

    def add(n, **k):
        k["name"] = n
        k.setdefault("trim", 1 << 30)
        c.append(k)

    for fft in (4, 6, 8):
        for hop in sorted({max(1, fft // 4), fft // 2, None}, key=str):
            for ln in (0, 1):
                h = hop or fft // 4
                add(f"fft{fft}h{hop}x{ln}", n_fft=fft, hop=hop, L=(h * 3 if h * 3 > fft // 2 else fft) + ln)
    add("odd5", n_fft=5, hop=2, L=8)
    add("odd7", n_fft=7, hop=3, L=9)
    add("fft8h3", n_fft=8, hop=3, L=9)
    add("hamming", n_fft=8, hop=4, L=12, window="hamming")
    add("blackman", n_fft=8, hop=2, L=10, window="blackman")
    add("custom_np", n_fft=4, hop=2, L=8, window="np")
    add("custom_t", n_fft=6, hop=2, L=9, window="torch")
    add("custom_npn", n_fft=4, hop=2, L=8, window="np", dtype=None)
    add("custom_tn", n_fft=6, hop=3, L=9, window="torch", dtype=None)
    add("hammingd", n_fft=6, hop=3, L=9, window="hamming", dtype=torch.float64)
    add("hannd", n_fft=4, hop=2, L=7, dtype=torch.float64)
    add("custom_tdt", n_fft=4, hop=1, L=7, window="torch")
    add("batch2", n_fft=4, hop=2, L=6, B=(2,))
    add("batch32", n_fft=4, hop=1, L=4, B=(3, 2))
    add("batch221", n_fft=6, hop=3, L=6, B=(2, 2, 1))
    # longer transforms and signals: a few symbolic samples among fixed ones
    for fft, hop, ln in ((32, 8, 100), (32, 11, 91), (64, 16, 200), (64, 32, 300), (12, 3, 160), (128, 32, 400), (16, 8, 1100)):
        add(f"long{fft}h{hop}x{ln}", n_fft=fft, hop=hop, L=ln, sparse=True)
    add("longhamming", n_fft=32, hop=16, L=80, sparse=True, window="hamming")
    add("longwin", n_fft=24, hop=8, L=80, sparse=True, window="np")
    if tier == "thorough":
        for fft in (10, 12, 16):
            for hop in (fft // 4, fft // 2, fft // 2 - 1, None):
                for ln in (0, 1, 2):
                    add(f"t{fft}h{hop}x{ln}", n_fft=fft, hop=hop, L=fft * 2 + ln, B=(2,))
        add("t32", n_fft=32, hop=8, L=70)
        add("t16w", n_fft=16, hop=4, L=40, window="np", B=(2, 2))
    return c


def custom(n):
    w = np.array([0.25 + ((3 * k + 1) % n) / n for k in range(n)])
    return w


def analysis(x, w, n_fft, hop):
    """X[f, n] = sum_t w[t] x~[n hop + t] e^{-2 pi i f t / n_fft}; x~ is the signal
    extended by reflection on n_fft // 2 samples on each side"""
    p = n_fft // 2
    L = len(x)
    idx = [abs(i) if i < L else 2 * (L - 1) - i for i in range(-p, L + p)]
    xt = [x[i] for i in idx]
    N = 1 + (L + 2 * p - n_fft) // hop
    F = n_fft // 2 + 1
    rows = []
    for f in range(F):
        tw = np.exp(-2j * np.pi * f * np.arange(n_fft) / n_fft) * w
        row = []
        for n in range(N):
            seg = np.array([xt[n * hop + t] for t in range(n_fft)], dtype=x.dtype)
            row.append(R.tsum(R.mul(seg, tw)))
        rows.append(row)
    out = np.empty((F, N), dtype=object if x.dtype == object else complex)
    for f in range(F):
        for n in range(N):
            out[f, n] = rows[f][n]
    return out


def run(ctx, cfg):
    n_fft, hop, L = cfg["n_fft"], cfg["hop"], cfg["L"]
    B = cfg.get("B", ())
    win = cfg.get("window")
    from scipy.signal import get_window

    if win in ("np", "torch"):
        w = custom(n_fft)
        arg = w.copy() if win == "np" else torch.from_numpy(w.copy())
        st = torchiva.STFT(n_fft, hop_length=hop, window=arg, dtype=cfg.get("dtype", torch.float64))
    else:
        w = get_window(win or "hann", n_fft)
        st = torchiva.STFT(n_fft, hop_length=hop, window=win, dtype=cfg.get("dtype"))
    h = hop if hop is not None else n_fft // 4
    if cfg.get("sparse"):
        return longer(ctx, st, w, n_fft, h, L)
    x = ctx.real("x", B + (L,), -BOX, BOX)
    xa = ctx.arr(x)
    X = st(x)
    ctx.near("X", X, K.over_batch(lambda i, v: analysis(v, w, n_fft, h), xa, 1), tol=1e-9)
    y = st.inv(X)
    n = (X.shape[-1] - 1) * h + n_fft % 2
    ctx.same("length", tuple(y.shape), B + (n,))
    m = min(n, L)
    ctx.near("y", y[..., :m], xa[..., :m], tol=1e-9)
    ctx.near("x unchanged", x, xa, tol=1e-12)
    ctx.same("n_freq", st.n_freq, n_fft // 2 + 1)
    ctx.same("n_fft", st.n_fft, n_fft)
    ctx.eq("window", st.window, w)
    ctx.same("window dtype", st.window.dtype, torch.float64)
    # synthesis of an arbitrary (possibly inconsistent) spectrogram
    Z = ctx.cpx("z", B + (n_fft // 2 + 1, 3), box=BOX)
    za = ctx.arr(Z)
    ctx.near("z", st.inv(Z), K.over_batch(lambda i, v: synthesis(v, w, n_fft, h), za, 2), tol=1e-9)


def longer(ctx, st, w, n_fft, h, L):
    x, xa = K.sparse(ctx, "x", L, 4)
    X = st(x)
    want = analysis(xa, w, n_fft, h)
    ctx.same("shape", tuple(X.shape), want.shape)
    F, N = want.shape
    fs = sorted({0, 1, F // 3, F // 2, F - 2, F - 1})
    ns = sorted({0, 1, N // 2, N - 2, N - 1})
    ctx.near("X", ctx.arr(X)[np.ix_(fs, ns)], want[np.ix_(fs, ns)], tol=1e-9)
    y = st.inv(X)
    n = (N - 1) * h + n_fft % 2
    ctx.same("length", tuple(y.shape), (n,))
    m = min(n, L)
    at = sorted({i for k in range(0, m, max(1, m // 8)) for i in (k, k + 1)} | {m - 2, m - 1})
    at = [i for i in at if 0 <= i < m]
    ctx.near("y", ctx.arr(y)[at], xa[at], tol=1e-8)
    ctx.near("x unchanged", x, xa, tol=1e-12)


def synthesis(Z, w, n_fft, hop):
    """weighted overlap-add: sum_n w[t - n hop] z_n[t - n hop] / sum_n w^2[t - n hop]"""
    F, N = Z.shape
    p = n_fft // 2
    T = n_fft + hop * (N - 1)
    acc, den = [0] * T, [0.0] * T
    for n in range(N):
        for t in range(n_fft):
            v = R.real(Z[0, n])
            for f in range(1, F):
                mult = 1 if 2 * f == n_fft else 2
                ang = 2 * np.pi * f * t / n_fft
                v = R.add(v, R.mul(mult * np.cos(ang), R.real(Z[f, n])))
                if mult == 2:
                    v = R.sub(v, R.mul(mult * np.sin(ang), R.imag(Z[f, n])))
            acc[n * hop + t] = R.add(acc[n * hop + t], R.mul(v, w[t] / n_fft))
            den[n * hop + t] += w[t] ** 2
    out = np.empty(T - 2 * p, dtype=Z.dtype if Z.dtype == object else float)
    for t in range(p, T - p):
        out[t - p] = R.mul(acc[t], 1 / den[t])
    return out
