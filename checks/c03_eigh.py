"""Hermitian eigendecompositions return eigenpairs."""
import numpy as np
import torch

from checks import common as K
from checks import reflib as L
from symt import ref as R
from symt import term as T
import torchiva
from torchiva import linalg

BOUNDS = "every Hermitian (complex or real symmetric) A, and B with determinant and discriminant above the clamping constant, of size 2 in closed form; size 1-6 for the LAPACK-based decomposition (contract: A V = V L, V unitary, ascending); 0-2 batch dimensions of up to 9 by 3, A and B broadcast against each other (2x2)."
OUTSIDE = "the eigensolver of torch (assumed to meet its contract); larger sizes; 2x2 pencils whose discriminant or det B is below the clamp, or that are simultaneously diagonal (known finding)."


def configs(tier):
    c = []

    def add(name, **k):
        k["name"] = name
        c.append(k)

    for kind in ("c", "r"):
        add(f"gevd2{kind}", f="gevd2", kind=kind)
        add(f"gevd2{kind}b2", f="gevd2", kind=kind, B=(2,))
        add(f"gevd2{kind}eps", f="gevd2", kind=kind, eps=1e-15, api="eigh")
        add(f"gevdres{kind}", f="residual", kind=kind)
        add(f"val2{kind}", f="evd2values", kind=kind)
        add(f"vec2{kind}", f="evd2vectors", kind=kind)
        for n in (1, 2, 3):
            add(f"evd{n}{kind}", f="evd", n=n, kind=kind)
        add(f"gevd3{kind}", f="gevd", n=3, kind=kind)
        add(f"gevd1{kind}", f="gevd", n=1, kind=kind)
    add("vec2conj", f="evd2conj")
    add("evd2cb22", f="evd", n=2, kind="c", B=(2, 2))
    add("evd2cpu", f="evd", n=2, kind="c", cpu=True)
    add("evd3cpu", f="evd", n=3, kind="c", cpu=True, B=(2,))
    add("gevd3cpu", f="gevd", n=3, kind="c", cpu=True)
    add("gevd3b2", f="gevd", n=3, kind="c", B=(2,))
    add("gevd2bc", f="gevd2", kind="c", B=(2,), BB=())
    add("gevd2bc2", f="gevd2", kind="c", B=(), BB=(2,))
    add("gevd2bc3", f="gevd2", kind="r", B=(2, 1), BB=(2,))
    add("gevd2diag", f="diag", kind="c")
    for kind in ("c", "r"):
        for n in (4, 5, 6):
            add(f"bigevd{n}{kind}", f="evd", n=n, kind=kind)
            if n < 6:
                add(f"biggevd{n}{kind}", f="gevd", n=n, kind=kind)
        add(f"bigevdb{kind}", f="evd", n=2, kind=kind, B=(9, 3))
        add(f"biggevd2b{kind}", f="gevd2", kind=kind, B=(9,))
        add(f"biggevdb{kind}", f="gevd", n=3, kind=kind, B=(7,))
    if tier == "thorough":
        add("gevd4c", f="gevd", n=4, kind="c")
        add("gevd4r", f="gevd", n=4, kind="r", B=(2,))
        add("evd4c", f="evd", n=4, kind="c", B=(2, 2))
        add("gevd2b23", f="gevd2", kind="c", B=(2, 3))
    return c


def herm(ctx, name, n, kind, B=(), pd=False):
    """an arbitrary Hermitian matrix (tensor and element array)"""
    d = ctx.arr(ctx.real(name + "d", B + (n,)))
    o = ctx.arr(ctx.cpx(name + "o", B + (n, n)) if kind == "c" else ctx.real(name + "o", B + (n, n)))
    sym = R.is_sym(d)
    M = np.empty(B + (n, n), dtype=object if sym else (complex if kind == "c" else float))
    for i in np.ndindex(*B):
        for r in range(n):
            for c in range(n):
                if r == c:
                    v = d[i + (r,)]
                    if pd:
                        v = R.add(R.mul(v, v), 4 * n)
                    M[i + (r, c)] = T.cx(v) if sym and kind == "c" else v
                else:
                    v = o[i + (min(r, c), max(r, c))]
                    M[i + (r, c)] = v if r < c else R.conj(v)
    return ctx.tensor(M, torch.complex128 if kind == "c" else torch.float64), M


def vectors(ctx, vec, v, A, Bm, lam, l):
    """`vec` are the reference's vectors `v`: identical terms when decided symbolically; on replay
    (numbers), a vector may differ by its phase, or within an eigenspace, so what is compared is
    that it is a unit eigenvector (or, where the reference clamps, the reference's up to a phase)"""
    if R.is_sym(v):
        ctx.eq("vectors", vec, v)
        return
    got, val = np.asarray(ctx.arr(vec)), np.asarray(ctx.arr(lam))
    if got.shape != v.shape or val.shape != l.shape:
        ctx.eq("vectors", vec, v)
        return
    out, want = [], []
    for i in np.ndindex(*v.shape[:-2]):
        for c in range(v.shape[-1]):
            a, b, g, r = A[i], Bm[i], got[i][:, c], v[i][:, c]
            scale = np.abs(a).max() + np.abs(l[i][c] * b).max() + 1e-30
            if np.abs(a @ r - l[i][c] * (b @ r)).max() <= 1e-7 * scale and abs(np.linalg.norm(r) - 1) < 1e-7:
                e = (a @ g - val[i][c] * (b @ g)) / scale
                out += [np.concatenate([e, [np.linalg.norm(g)]])]
                want += [np.concatenate([np.zeros(len(g)), [1.0]])]
            else:
                z = np.vdot(r, g)
                out += [np.concatenate([g, [0.0]])]
                want += [np.concatenate([r * (z / abs(z) if abs(z) > 1e-12 else 1.0), [0.0]])]
    ctx.eq("vectors", np.array(out), np.array(want))


def run(ctx, cfg):
    return globals()["run_" + cfg["f"]](ctx, cfg)


def run_gevd2(ctx, cfg):
    """closed form of the 2x2 pencil, eigenvalues ascending, unit eigenvectors"""
    B = cfg.get("B", ())
    BB = cfg.get("BB", B)
    At, A = herm(ctx, "a", 2, cfg["kind"], B)
    Bt, Bm = herm(ctx, "b", 2, cfg["kind"], BB, pd=True)
    if cfg.get("api") == "eigh":
        lam, vec = linalg.eigh(At, Bt)
        eps = 1e-15
    else:
        eps = cfg.get("eps", 0.0)
        lam, vec = linalg.eigh_2x2(At, Bt, eps=eps)
    Ab, Bb = np.broadcast_arrays(A, Bm)
    l, v = L.gevd2(Ab, Bb, eps)
    ctx.eq("values", lam, l)
    vectors(ctx, vec, v, Ab, Bb, lam, l)
    ctx.le("ascending", lam[..., 0], lam[..., 1])
    ctx.eq("A kept", At, A)
    ctx.eq("B kept", Bt, Bm)


def pencil(A, Bm):
    a11, a12, a22 = R.real(A[0, 0]), A[0, 1], R.real(A[1, 1])
    b11, b12, b22 = R.real(Bm[0, 0]), Bm[0, 1], R.real(Bm[1, 1])
    tr = R.sub(R.add(R.mul(a11, b22), R.mul(a22, b11)), R.mul(2, R.real(R.mul(a12, R.conj(b12)))))
    dA = R.sub(R.mul(a11, a22), R.abs2(a12))
    dB = R.sub(R.mul(b11, b22), R.abs2(b12))
    return R.sub(R.mul(tr, tr), R.mul(4, R.mul(dA, dB))), dB


def run_residual(ctx, cfg):
    """A v = l B v itself, where no clamp is active"""
    At, A = herm(ctx, "a", 2, cfg["kind"])
    Bt, Bm = herm(ctx, "b", 2, cfg["kind"], pd=True)
    lam, vec = linalg.eigh_2x2(At, Bt)
    disc, dB = pencil(A, Bm)
    ctx.assume(R.lt(0, disc))
    ctx.assume(R.lt(0, dB))
    l, v = ctx.arr(lam), ctx.arr(vec)
    lhs, rhs = R.mm(A, v), R.mul(R.mm(Bm, v), l[None, :])
    ctx.eq("A v = l B v", lhs, rhs)


def run_evd2values(ctx, cfg):
    """roots of the characteristic polynomial of a 2x2 matrix"""
    At, A = herm(ctx, "a", 2, cfg["kind"])
    lam, vec = linalg.eigh_2x2(At)
    l = ctx.arr(lam)
    a, d = R.real(A[0, 0]), R.real(A[1, 1])
    det = R.sub(R.mul(a, d), R.abs2(A[0, 1]))
    tr = R.add(a, d)
    disc = R.sub(R.mul(tr, tr), R.mul(4, det))
    ctx.assume(R.le(0, disc))
    ctx.eq("sum", R.add(l[0], l[1]), tr)
    ctx.eq("product", R.mul(l[0], l[1]), det)
    ctx.le("ascending", lam[..., 0], lam[..., 1])


def run_evd2vectors(ctx, cfg):
    """A v = l v for the specialised 2x2 routine (non-degenerate matrices)"""
    At, A = herm(ctx, "a", 2, cfg["kind"])
    lam, vec = linalg.eigh_2x2(At)
    l, v = ctx.arr(lam), ctx.arr(vec)
    a, d = R.real(A[0, 0]), R.real(A[1, 1])
    tr = R.add(a, d)
    disc = R.sub(R.mul(tr, tr), R.mul(4, R.sub(R.mul(a, d), R.abs2(A[0, 1]))))
    ctx.assume(R.lt(0, disc))
    if cfg["kind"] == "c":
        # recorded finding: the vectors are the conjugates of the eigenvectors, so
        # A v = l v fails; see vec2conj for what has to hold
        ctx.eq("A v = l v", R.mm(A, v), R.mul(v, l[None, :]))
    else:
        ctx.eq("A v = l v", R.mm(A, v), R.mul(v, l[None, :]))


def run_evd2conj(ctx, cfg):
    """up to conjugation, the specialised 2x2 routine returns the eigenvectors"""
    At, A = herm(ctx, "a", 2, "c")
    lam, vec = linalg.eigh_2x2(At)
    l, v = ctx.arr(lam), ctx.arr(vec)
    a, d = R.real(A[0, 0]), R.real(A[1, 1])
    tr = R.add(a, d)
    disc = R.sub(R.mul(tr, tr), R.mul(4, R.sub(R.mul(a, d), R.abs2(A[0, 1]))))
    ctx.assume(R.lt(0, disc))
    s = R.conj(v)
    res = [R.sub(R.mm(A, w), R.mul(w, l[None, :])) for w in (v, s)]
    # one of the two residuals vanishes (product of the entries)
    ctx.eq("A v = l v or A conj(v) = l conj(v)", R.mul(R.abs2(res[0]), R.abs2(res[1])), np.zeros((2, 2)))


def run_evd(ctx, cfg):
    B = cfg.get("B", ())
    At, A = herm(ctx, "a", cfg["n"], cfg["kind"], B)
    r = linalg.eigh(At, use_eigh_cpu=True) if cfg.get("cpu") else linalg.eigh(At)
    lam, vec = r
    ctx.eq("fields", r.eigenvalues, lam)
    ctx.eq("fieldv", r.eigenvectors, vec)
    l, v = R.eigh(A)
    ctx.eq("values", lam, l)
    vectors(ctx, vec, v, A, np.broadcast_to(np.eye(cfg["n"]), A.shape), lam, l)


def run_gevd(ctx, cfg):
    """A v = l B v through B^{-1/2} A B^{-1/2}"""
    B = cfg.get("B", ())
    n = cfg["n"]
    At, A = herm(ctx, "a", n, cfg["kind"], B)
    Bt, Bm = herm(ctx, "b", n, cfg["kind"], B, pd=True)
    lam, vec = linalg.eigh(At, Bt, use_eigh_cpu=True) if cfg.get("cpu") else linalg.eigh(At, Bt)
    l, v = L.gevd(A, Bm)
    ctx.eq("values", lam, l)
    vectors(ctx, vec, v, A, Bm, lam, l)


def run_diag(ctx, cfg):
    """pencils without cross terms: both eigenvectors have unit norm"""
    # the specific pencil of the recorded finding; one entry symbolic and unused
    ctx.real("u", (1,))
    A = torch.tensor([[2.0, 0], [0, 1.0]], dtype=torch.complex128)
    Bm = torch.eye(2, dtype=torch.complex128)
    lam, vec = linalg.eigh_2x2(A, Bm, eps=1e-15)
    ctx.eq("values", lam, np.array([1.0, 2.0]))
    n = R.tsum(R.abs2(ctx.arr(vec)), axis=0)
    ctx.eq("unit norm", n, np.ones(2))
