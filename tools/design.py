"""Development aid: fills the generated sections of DESIGN.md from the check modules' own BOUNDS and
OUTSIDE texts, the notes below and the planted bugs' meta files. No check uses this."""
import ast
import glob
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.chdir(HERE)

# what is encoded / oracle, why solver
HOW = {
    "C01": ("`STFT.forward` and `STFT.inv` run on a symbolic signal; every output coefficient is a linear form in the samples and is compared with the DFT sum "
            "written from the definition (`reflib.dft`-style sums over the window that torch/numpy define for the name), every resynthesised sample with the input. "
            "The twiddle factors are irrational, so obligations are `|difference| <= 1e-9` over the box [-4,4]^n: linear real arithmetic, one z3 query each. Linearity makes the box no restriction.",
            "one wrong sample position, window parity or crop shows as a coefficient of a linear form, whatever signal a test would draw"),
    "C02": ("`fftconvolve` on two symbolic signals; every output sample is compared with the convolution sum, again in LRA with monomials x_i y_j as bounded unknowns (1e-9 tolerance).",
            "wrap-around and cropping errors depend on length parities; each (length, length, mode, axis, layout) is decided for all values"),
    "C03": ("`linalg.eigh_2x2`, `linalg.eigh`. Closed form: values and vectors equal the reference closed form; and, separately, `A v = l B v` itself, ascending order, and sum/product of the roots are shown as polynomial identities modulo the square-root definition. "
            "General sizes: LAPACK is its contract, the code around it (B^{-1/2} A B^{-1/2}, back-transformation, norms, ordering, device copies) is executed. On replay vectors are compared up to what the property fixes (unit norm, eigenpair), so another phase is no alarm.",
            "sign, conjugation and clamp errors show for entries random matrices rarely have"),
    "C04": ("each helper of `linalg.py` on symbolic matrices against its textbook definition (Cramer's rule for solves up to 3x3; contract above), plus `M x = b` identities for the loaded systems and positivity of loads.",
            "clamps and scale-dependent loads act on small or zero inputs only"),
    "C05": ("`T_ISS.forward` with its helpers against `reflib.tiss`, a transcription of the published equations (sources, background, taps, projection back); the source model is either classic or *any* model (fresh positive weights at every call). The sweep merges intermediate quantities pairwise, so up to three iterations on four channels are decided.",
            "background channels with taps, reference on a background channel, batched use are branches no test compares numerically"),
    "C06": ("the three models against their formulas, positivity and the 1/eps bound as inequalities (abstracted queries), NMF updates for every initial state over two calls and after reset.",
            "zeros, single frames and batch layout are decided rather than sampled"),
    "C07": ("`T_ISS(use_dmc=True)` against `use_dmc=False`: outputs, and the gradients autograd produces (the backward pass runs through the same dispatcher, so torch's real derivative formulas and the recomputation of the checkpoint are what is encoded).",
            "a stale closure or a missing argument in the recomputation changes gradients only"),
    "C08": ("`AuxIVA_IP.forward` against `reflib.auxip`: weighted covariances, demixing solves, orthogonality constraint of the background, projection back.", "no numerical test exists"),
    "C09": ("`AuxIVA_IP2.forward` against the reference: covariances, 2x2 closed-form pencil, normalisation, projection back; refusal of other channel counts.", "swapped or conjugated filters still separate"),
    "C10": ("`FIVE.forward` against the reference: whitening, DC-bin exclusion, minimal eigenvector by contract or by explicit power iterations, scale.", "single power iteration, no projection and batched use are untested"),
    "C11": ("`projection_back`, `minimum_distortion` and `minimum_distortion_l2_phase` against their definitions; reweighting steps with uninterpreted powers; the stopping test is explored on both sides.", "exponents, loudest-frame selection and stopping depend on values"),
    "C12": ("`WPE.forward` against the normal equations written out; larger systems by the contract A X = B shared when both sides provably pose the same system.", "zero delay, single taps, short signals"),
    "C13": ("`MVDRBeamformer` (eigendecomposition, power method, covariance form) against the RTF/MVDR formulas with arbitrary masks.", "mask count, reference index, batch layout"),
    "C14": ("`MWFBeamformer`, `GEVBeamformer` against their formulas, time-varying and all-channel variants.", "reference indices (negative too), eps, time-varying branch"),
    "C15": ("the same function is run on a batch and on each item of it (symbolic throughout); equal terms for every item.", "cross-talk needs specific contents of the other item"),
    "C16": ("three calls on one object (plain, with per-call options, plain) against fresh objects constructed with those options; stateful models are reseeded so that random draws are shared symbols.", "histories; falsy option values"),
    "C17": ("`BSSSeparator.forward` against STFT, algorithm and inverse STFT composed by hand for each algorithm name and constructor option (length, padding, precision kept); `select_most_energetic` over all orders of power (the argsort branches are path conditions).", "lengths that are no multiple of the hop; all power orders"),
    "C18": ("`separate.main` is run with command lines covering every option, on symbolic wav contents handed out by stand-ins for `torchaudio.load/save` inside a scratch folder: which files are written where, and each saved sample against the composition required by the options; nothing outside is touched, refusals leave everything alone.", "option combinations, file-name shapes, overlapping folders"),
    "C19": ("`load_separator` with stand-ins for the network: each transfer ends completely, empty, truncated or killed, and a second process may run before, within or after it (every placement is a symbolic choice explored by path); afterwards the loaded options and symbolic weights equal those published, or the call raised.", "crash points and schedules"),
    "C20": ("the networks run with symbolic weights and inputs against `reference` implementations of the published layers (GLU blocks with batch norm, LSTM cells, mel/log features, masks); ranges as inequalities.", "weights are trained elsewhere, so tests use random ones and compare nothing"),
    "C21": ("every division, square root, logarithm, inverse and linear solve executed yields a definedness obligation. `sign.py` derives the sign (or a positive lower bound) of the denominator bottom-up, each step an instance of a lemma discharged by z3 per operator shape; "
            "solves are justified by a Gram certificate: the matrix is proved equal to a sum of products Z Z^H (found among the products the code computed) plus a positive diagonal, hence nonsingular. Guarded denominators (|det| < eps selections) are shown reachable only under their guard.",
            "silence, rank-deficient and single-frame inputs"),
    "C22": ("the code is run under default dtype float32 and float64 on the same double-precision symbols; a cast to lower precision is an uninterpreted rounding function applied to the term, so equality of both runs for every input means that no data passes through single precision.", "rounding is invisible to the loose tolerances of the tests"),
}

STRENGTHENED = {
    "c02-equal": "equal even lengths added", "c06-nmfclamp": "single frames added", "c14-gevref": "negative references added", "c16-nmfreset": "model passed per call added",
    "c18-nmfeps": "pairs of options added", "c18-suffix": "file names with dots added", "c20-perm": "the replay used a sum that failed on replay",
}
try:
    STRENGTHENED.update(json.load(open("tools/strengthened.json")))
except FileNotFoundError:
    pass


def consts(path):
    t = ast.parse(open(path).read())
    d = {n.targets[0].id: ast.literal_eval(n.value) for n in t.body if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") in ("BOUNDS", "OUTSIDE")}
    return d


def cost(pid):
    try:
        d = json.load(open("tools/cost.json"))[pid]
    except (FileNotFoundError, KeyError):
        return ""
    return f" Cost (8 cores): quick {d['quick']}, thorough {d['thorough']}."


out = []
props = {json.loads(l)["id"]: json.loads(l) for l in open("properties.jsonl")}
for pid, p in props.items():
    f = glob.glob(f"checks/{pid.lower()}_*.py")[0]
    c = consts(f)
    h, why = HOW[pid]
    out.append(f"### {pid} {p['title']}\n`{f}`. {h}\n*Bounds:* {c['BOUNDS']}\n*Outside:* {c['OUTSIDE']}\n*Beyond tests:* {why}.{cost(pid)}\n")
tab = ["| planted change | property | needs | caught by | strengthened for it |", "|---|---|---|---|---|"]
for d in sorted(glob.glob("seeded/*/meta.json")):
    m = json.load(open(d))
    i = d.split("/")[1]
    tab.append(f"| {i} | {m['property']} | {m['needs']} | {m['property']} quick | {STRENGTHENED.get(i, '')} |")
s = open("DESIGN.md").read()
for tag, txt in (("PROPERTIES", "\n".join(out)), ("PLANTED", "\n".join(tab))):
    a, b = f"<!-- {tag} -->\n", f"<!-- /{tag} -->\n"
    i, j = s.index(a) + len(a), s.index(b)
    s = s[:i] + txt + "\n" + s[j:]
open("DESIGN.md", "w").write(s)
