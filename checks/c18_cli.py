"""The separate command: options, channels, selection, lengths, paths, refusals."""
import contextlib
import io
import json
import os
import shutil
import tempfile
from pathlib import Path

import numpy as np
import torch
import torchaudio

from checks.c15_batch import Masks
import torchiva
import torchiva.separate as S
from torchiva.nn import BSSSeparator

BOUNDS = "command lines covering every option, 1-6 channels per file, 1-5 sources, FFT lengths 2-8, files of 2-9 samples (multiples of the hop or not) and one of 150, up to 70 files, a tree of depth 3 and one deeper; all orders of source power; the default of 20 iterations on two frequencies."
OUTSIDE = "the wav codec of torchaudio (replaced by a stand-in that hands out symbolic signals and records what is saved); the default FFT length 2048; devices other than the CPU; the __main__ guard; symbolic links."

WARM = False


def configs(tier):
    c = []

    def add(n, args, files=None, out="out", sep=None, mic=2, src=2, **k):
        c.append(dict(name=n, args=args.split(), files=files or {"a.wav": (2, 5)}, inp=k.pop("inp", "in/a.wav"), out=out, sep=sep or {}, mic=mic, src=src, **k))

    one = "--model-type gauss --nfft 4 --hop 2 -n 1"
    d = dict(n_fft=4, hop_length=2, n_iter=1, source_model="gauss", eps=None, n_src=2)

    def D(**k):
        return dict(d, **k)

    # a single file
    add("gauss", one, out="o.wav", sep=D())
    add("laplace", "--model-type laplace --nfft 4 --hop 2 -n 1 -q", out="o.wav", sep=D(source_model="laplace"))
    add("modeleps", "--model-type laplace --model-eps 0.25 --nfft 4 --hop 2 -n 1", out="o.wav", sep=D(source_model=("laplace", dict(eps=0.25))))
    add("gausseps", "--model-type gauss --model-eps 0.5 --nfft 4 --hop 2 -n 1", out="o.wav", sep=D(source_model=("gauss", dict(eps=0.5))))
    add("nmf", "--model-type nmf --nfft 2 --hop 1 -n 1", out="o.wav", sep=D(source_model="nmf", n_fft=2, hop_length=1), files={"a.wav": (2, 3)})
    add("nmfbasis", "--model-type nmf --n-basis 3 --model-eps 0.125 --nfft 2 --hop 1 -n 1", out="o.wav", sep=D(source_model=("nmf", dict(n_basis=3, eps=0.125)), n_fft=2, hop_length=1), files={"a.wav": (2, 3)})
    add("dir", one, out="od/", sep=D())
    add("iters", "--model-type gauss --nfft 2 --hop 1", out="o.wav", sep=D(n_fft=2, hop_length=1, n_iter=20), files={"a.wav": (2, 2)})
    add("n0", "--model-type gauss --nfft 4 --hop 2 -n 0", out="o.wav", sep=D(n_iter=0))
    add("nlong", "--model-type gauss --nfft 4 --hop 2 --n_iter 2", out="o.wav", sep=D(n_iter=2), files={"a.wav": (2, 3)})
    add("nohop", "--model-type gauss --nfft 4 -n 1", out="o.wav", sep=D(hop_length=None))
    add("win", one + " --win hamming", out="o.wav", sep=D(window="hamming"))
    add("taps", one + " -t 1 -d 1", out="o.wav", sep=D(n_taps=1, n_delay=1), files={"a.wav": (2, 7)})
    add("delay2", one + " --taps 1 --delay 2", out="o.wav", sep=D(n_taps=1, n_delay=2), files={"a.wav": (2, 8)})
    add("ref1", one + " --ref 1", out="o.wav", sep=D(proj_back_mic=1))
    add("eps", one + " --eps 0.25", out="o.wav", sep=D(eps=0.25))
    add("tiss", one + " -a tiss", out="o.wav", sep=D(algo="tiss"))
    add("ip2", one + " --algo ip2", out="o.wav", sep=D(algo="ip2"))
    add("ip2s1", one + " --algo ip2 -s 1", out="o.wav", sep=D(algo="ip2", n_src=1), src=1, max_paths=6)
    add("ip2ref", one + " --algo ip2 --ref 1 --eps 0.25", out="o.wav", sep=D(algo="ip2", proj_back_mic=1, eps=0.25))
    add("five", one + " -a five", out="o.wav", sep=D(algo="five", n_src=1), src=1)
    add("five1", one + " -a five -s 1 --ref 1", out="o.wav", sep=D(algo="five", n_src=1, proj_back_mic=1), src=1)
    add("five3", one + " -a five -m 3", out="o.wav", sep=D(algo="five", n_src=1), src=1, mic=3, files={"a.wav": (3, 3)})
    add("mic3", one + " -m 3", out="o.wav", sep=D(), mic=3, files={"a.wav": (3, 4)})
    add("mic3s3", one + " -m 3 -s 3", out="o.wav", sep=D(n_src=3), mic=3, src=3, files={"a.wav": (3, 4)})
    add("mic2of3", one + " -m 2", out="o.wav", sep=D(), files={"a.wav": (3, 5)})
    add("mic1of3", one + " --mic 1 --src 1", out="o.wav", sep=D(n_src=1), mic=1, src=1, files={"a.wav": (3, 5)})
    add("few", one + " -m 3 -s 2", out="o.wav", sep=D(), mic=3)
    add("src1", one + " -s 1", out="o.wav", sep=D(n_src=1), src=1)
    add("cpu", one + " --device cpu", out="o.wav", sep=D())
    for L in (3, 4, 6, 9):
        add(f"len{L}", one, out="o.wav", sep=D(), files={"a.wav": (2, L)})
    add("len8", "--model-type gauss --nfft 8 --hop 4 -n 0", out="o.wav", sep=D(n_fft=8, hop_length=4, n_iter=0), files={"a.wav": (2, 9)})
    # options together: each must reach its own place
    many = "--nfft 4 --hop 2 -n 1 --eps 0.25 --model-eps 0.5 --ref 1 --win hamming"
    dm = dict(eps=0.25, proj_back_mic=1, window="hamming")
    for m, x, mk in (("gauss", "", {}), ("laplace", "", {}), ("nmf", " --n-basis 3", dict(n_basis=3)), ("gauss", " --n-basis 3 -a tiss", {})):
        k = f"all{m}{len(x)}"
        add(k, f"--model-type {m} {many}{x}", out="o.wav", sep=D(source_model=(m, dict(eps=0.5, **mk)), **dm), files={"a.wav": (2, 3)})
        if m != "nmf":
            add(k + "t", f"--model-type {m} {many}{x} -t 1 -d 2 -m 3 -s 2", out="o.wav", sep=D(source_model=(m, dict(eps=0.5, **mk)), n_taps=1, n_delay=2, **dm), files={"a.wav": (3, 7)}, mic=3)
    for al, src in (("ip2", 2), ("five", 1)):
        add(f"all{al}", f"--model-type gauss {many} -a {al} -s {src} -t 1 -d 1", out="o.wav", sep=D(source_model=("gauss", dict(eps=0.5)), algo=al, n_src=src, n_taps=1, n_delay=1, **dm), src=src, files={"a.wav": (2, 3)})
    add("ref2", one + " -m 3 --ref 2", out="o.wav", sep=D(proj_back_mic=2), mic=3, files={"a.wav": (3, 4)})
    add("ref2s1", one + " -m 3 -s 1 --ref 2", out="o.wav", sep=D(proj_back_mic=2, n_src=1), mic=3, src=1, files={"a.wav": (3, 4)})
    # file names
    for i, name in enumerate(("a.b.wav", "a.wav.wav", ".a.wav", "a b.wav", "ä.wav", "wav.wav", "a.mp3.wav", "-a.wav")):
        add(f"name{i}", one, inp="in/" + name, out="od/", sep=D(), files={name: (2, 3)})
        add(f"name{i}f", one, inp="in", sep=D(), files={name: (2, 3), "d.e/" + name: (2, 3)})
    add("outname", one, out="o.x.wav", sep=D(), files={"a.wav": (2, 3)})
    add("outplain", one, out="o", sep=D(), files={"a.wav": (2, 3)})
    add("dotdir", one, inp="in/d.e/a.wav", out="od.f/", sep=D(), files={"d.e/a.wav": (2, 3)})
    # folders
    tree = {"a.wav": (2, 5), "b.wav": (3, 3), "sub/a.wav": (2, 4), "sub/deep/a.wav": (2, 6), "other/c.wav": (2, 3)}
    add("tree", one, inp="in", sep=D(), files=tree, extra=["notes.txt", "sub/a.flac"])
    add("treeq", one + " -q", inp="in", out="some/where/out", sep=D(), files=tree)
    add("treeold", one + " -q", inp="in", sep=D(), files={"a.wav": (2, 3), "s/a.wav": (2, 3)}, pre=["out/s/"])
    add("treenmf", "--model-type nmf --nfft 2 --hop 1 -n 0", inp="in", sep=D(source_model="nmf", n_fft=2, hop_length=1, n_iter=0), files=tree)
    add("nested", one, inp="in", out="in/out", sep=D(n_src=2), files={"a.wav": (2, 3), "s/b.wav": (2, 3)})
    tiny = "--model-type gauss --nfft 2 --hop 1 -n 0"
    dt = D(n_fft=2, hop_length=1, n_iter=0)
    add("many", tiny, inp="in", sep=dt, files={f"{'s/' * (k % 3)}f{k}.wav": (2, 2) for k in range(70)}, max_paths=1)
    add("deep", tiny, inp="in", sep=dt, files={"/".join("abcdefghijkl"[:k]) + f"{'/' if k else ''}x.wav": (2, 2) for k in range(0, 13, 3)}, max_paths=1)
    add("wide", tiny, inp="in", sep=dt, files={f"d{k}/x.wav": (2, 2) for k in range(12)}, max_paths=1)
    add("long", tiny, out="o.wav", sep=dt, files={"a.wav": (2, 150)}, max_paths=1)
    add("mic6", one + " -m 6 -s 2 --ref 5", out="o.wav", sep=D(proj_back_mic=5), mic=6, files={"a.wav": (6, 3)}, max_paths=1)
    add("mic6s5", tiny + " -m 6 -s 5", out="o.wav", sep=D(n_src=5, n_fft=2, hop_length=1, n_iter=0), mic=6, src=5, files={"a.wav": (6, 2)}, max_paths=1)
    add("iter9", "--model-type gauss --nfft 2 --hop 1 -n 9", out="o.wav", sep=D(n_fft=2, hop_length=1, n_iter=9), files={"a.wav": (2, 2)})
    add("basis9", "--model-type nmf --n-basis 9 --nfft 2 --hop 1 -n 1", out="o.wav", sep=D(source_model=("nmf", dict(n_basis=9)), n_fft=2, hop_length=1), files={"a.wav": (2, 2)})
    add("taps4", one + " -t 4 -d 3", out="o.wav", sep=D(n_taps=4, n_delay=3), files={"a.wav": (2, 17)})
    add("empty", one, inp="in", sep=D(), files={"x/y.txt": None})
    # trained models: the stored configuration, the overrides of the command line
    cf = dict(n_fft=4, hop_length=2, n_taps=0, n_delay=0, algo="tiss", n_iter=5, source_model=dict(name="torchiva.models.GaussModel", kwargs=dict(eps=0.25)), eps=0.125)

    def nn(n, args, conf=(), **k):
        stored = dict(cf, **dict(conf))
        sep = dict(stored, n_src=2, proj_back_mic=0, use_dmc=False)
        sep.update(k.pop("over", {}))
        add("nn" + n, args, out=k.pop("out", "o.wav"), sep=sep, stored=stored, **k)

    nn("", "-n 1", over=dict(n_iter=1))
    nn("explicit", "-n 1 --model-type nn -a tiss --ref 1", over=dict(n_iter=1, proj_back_mic=1))
    nn("taps", "-n 1", conf=dict(n_taps=1, n_delay=1), over=dict(n_iter=1))
    nn("dmc", "-n 0", conf=dict(use_dmc=True), over=dict(n_iter=0))
    nn("ip2", "-n 1 -a ip2", over=dict(n_iter=1, algo="ip2"))
    nn("five", "-n 1 -a five", over=dict(n_iter=1, algo="five", n_src=1), src=1)
    nn("src1", "-n 1 -s 1", over=dict(n_iter=1, n_src=1), src=1)
    nn("mvdr", "-s 1", conf=dict(source_model=dict(name="checks.c18_cli.OneMask"), algo="mvdr"), over=dict(n_src=1), src=1)
    nn("mwf", "-a mwf -s 1 --ref 1", conf=dict(source_model=dict(name="checks.c18_cli.TwoMasks"), algo="mvdr"), over=dict(algo="mwf", n_src=1, proj_back_mic=1), src=1, max_paths=6, files={"a.wav": (2, 3)})
    nn("gev", "-a gev", conf=dict(source_model=dict(name="checks.c18_cli.TwoMasks"), algo="mvdr"), over=dict(algo="gev"), files={"a.wav": (2, 3)})
    nn("tree", "-n 1 -q", over=dict(n_iter=1), inp="in", out="out", files={"a.wav": (2, 3), "s/a.wav": (2, 5)})
    # the spellings of the options, and the values they have when left out
    c.append(dict(name="spelling", parse=True))
    # refusals
    for n, a, k in (
        ("src>mic", one + " -s 3", {}),
        ("ip2mic3", one + " -a ip2 -m 3", {}),
        ("ip2nn", "-a ip2 -m 3 --model-path MODEL", {}),
        ("mvdr", one + " -a mvdr", {}),
        ("mwf", one + " -a mwf", {}),
        ("gev", one + " -a gev", {}),
        ("notwav", one, dict(inp="in/a.mp3", files={"a.mp3": (2, 4)})),
        ("missing", one, dict(inp="in/zz.wav", nofile=True)),
        ("samefile", one, dict(out="in/a.wav")),
        ("samedir", one, dict(inp="in", out="in")),
        ("itsdir", one, dict(out="in/")),
        ("otherspelling", one, dict(out="in/../in/a.wav")),
        ("dirspelling", one, dict(inp="in", out="in/sub/..", files={"a.wav": (2, 4), "sub/b.wav": (2, 4)})),
        ("absdir", one, dict(inp="in", out="ABS/in")),
        ("absfile", one, dict(out="ABS/in/a.wav")),
        ("outfile", one, dict(inp="in", out="of", pre=["of"])),
        ("ip2mic1", one + " -a ip2 -m 1 -s 1", {}),
        ("ip2src3", one + " -a ip2 -m 2 -s 3", {}),
        ("ip2mic3s3", one + " -a ip2 -m 3 -s 3", {}),
        ("fivesrc", one + " -a five -m 1 -s 2", {}),
        ("badalgo", one + " -a nope", {}),
        ("badmodel", "--model-type nope", {}),
        ("badwin", one + " --win nope", {}),
    ):
        add("no_" + n, a, refuse=True, **dict(dict(out="o.wav"), **k))
    if tier == "thorough":
        add("it3", "--model-type laplace --nfft 4 --hop 1 -n 3", out="o.wav", sep=D(n_iter=3, hop_length=1, source_model="laplace"), files={"a.wav": (3, 7)})
        add("m3t", one + " -m 3 -s 2 -t 2 -d 1", out="o.wav", sep=D(n_taps=2, n_delay=1), mic=3, files={"a.wav": (3, 13)})
        add("treebig", one + " -m 3 -s 2", inp="in", sep=D(), mic=3, files={f"{p}{k}.wav": (2 + k % 2, 3 + k) for k in range(4) for p in ("", "s/", "s/t/u/")})
    return c


class OneMask(Masks):
    def __init__(self):
        super().__init__(1, 2)


class TwoMasks(Masks):
    def __init__(self):
        super().__init__(2, 2)


MODELS = dict(gauss=torchiva.GaussModel, laplace=torchiva.LaplaceModel, nmf=torchiva.NMFModel)


def expected_separator(sep):
    kw = dict(sep)
    m = kw["source_model"]
    if isinstance(m, dict):
        m = dict(m)
    elif isinstance(m, tuple):
        m = MODELS[m[0]](**m[1])
    else:
        m = MODELS[m]()
    kw["source_model"] = m
    return BSSSeparator(**kw)


@contextlib.contextmanager
def standins(load, save):
    """torchaudio's file access, also under names the command imported it by"""
    old = {"load": torchaudio.load, "save": torchaudio.save}
    new = {"load": load, "save": save}
    undo = []
    for k in old:
        undo.append((torchaudio, k, old[k]))
        setattr(torchaudio, k, new[k])
        for n, v in list(vars(S).items()):
            if v is old[k]:
                undo.append((S, n, v))
                setattr(S, n, new[k])
    try:
        yield
    finally:
        for o, n, v in undo:
            setattr(o, n, v)


SPELLINGS = [
    ("-q", "--quiet"),
    ("-m 3", "--mic 3"),
    ("-s 3", "--src 3"),
    ("-a ip2", "--algo ip2"),
    ("-n 7", "--n_iter 7"),
    ("-t 5", "--taps 5"),
    ("-d 4", "--delay 4"),
    ("", "--device cpu"),
    ("", "-m 2"),
    ("", "-s 2"),
    ("", "--nfft 2048"),
    ("", "-n 20"),
    ("", "-t 0"),
    ("", "-d 0"),
    ("", "--ref 0"),
    ("", "--n-basis 2"),
    ("", "--model-type nn"),
    ("", "--model-path " + "https://raw.githubusercontent.com/fakufaku/torchiva/master/trained_models/tiss"),
]
DISTINCT = "-q|-m 3|-s 3|-a ip2|-n 7|-t 5|-d 4|--device 1|--nfft 64|--hop 16|--win hann|--ref 1|--eps 0.5|--model-type nmf|--model-path zz|--n-basis 3|--model-eps 0.5".split("|")


def parse(ctx):
    def ns(a):
        with contextlib.redirect_stderr(io.StringIO()):
            try:
                return {k: str(v) for k, v in vars(S.get_parser().parse_args(["i.wav", "o.wav"] + a.split())).items()}
            except SystemExit:
                return "refused"

    ctx.real("u", (1,))
    for a, b in SPELLINGS:
        ctx.same(f"{a or 'left out'} is {b}", ns(a), ns(b))
    base = ns("")
    for a in DISTINCT:
        v = ns(a)
        if v == "refused":
            ctx.fail(a, "refused")
            continue
        # one option changes one value, to what was given
        diff = [k for k in v if v[k] != base.get(k)]
        ctx.same(f"{a} changes", len(diff), 1)
        if " " in a and "device" not in a:
            ctx.same(f"{a} value", [v[k] for k in diff], [a.split()[1]])
    for a, b in (("0", "cuda:0"), ("1", "cuda:1"), ("12", "cuda:12")):
        ctx.same(f"device {a}", ns("--device " + a), ns("--device " + b))
        ctx.same(f"device {a} value", [v for k, v in ns("--device " + a).items() if v != base[k]], [b])
    for a in ("--model-type nope", "-a nope", "-n x", "-m x", "--nfft x", "--eps x"):
        ctx.same(f"{a} refused", ns(a), "refused")


def run(ctx, cfg):
    if cfg.get("parse"):
        return parse(ctx)
    root = tempfile.mkdtemp(prefix="c18_")
    here = os.getcwd()
    try:
        os.chdir(root)
        with torch.no_grad(), contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            work(ctx, cfg, Path(root).resolve())
    finally:
        os.chdir(here)
        shutil.rmtree(root)


def work(ctx, cfg, root):
    sig, rate, content = {}, {}, {}
    (root / "in").mkdir()
    for k, (name, size) in enumerate(cfg["files"].items()):
        p = root / "in" / name
        p.parent.mkdir(parents=True, exist_ok=True)
        p.write_text(f"content {k}")
        content[p] = f"content {k}"
        if size is None:
            continue
        sig[p] = ctx.real(f"x{k}", size)
        rate[p] = 8000 + k
    if not sig:
        ctx.real("x", (1,))
    for name in cfg.get("extra", ()):
        (root / "in" / name).write_text("text")
    for name in cfg.get("pre", ()):
        p = root / name
        if name.endswith("/"):
            p.mkdir(parents=True)
        else:
            p.write_text("old")
    out = cfg["out"].replace("ABS", str(root))
    if out.endswith("/"):
        (root / out).mkdir(exist_ok=True)
    saved = {}
    before = {p: ctx.arr(t) for p, t in sig.items()}

    def load(uri, *a, **k):
        p = Path(uri).resolve()
        if p not in sig:
            raise RuntimeError(f"cannot read {uri}")
        k = {**dict(zip(("frame_offset", "num_frames", "normalize", "channels_first"), a)), **k}
        for o, v in (("frame_offset", 0), ("num_frames", -1), ("normalize", True), ("channels_first", True)):
            if k.get(o, v) != v:
                raise RuntimeError("the whole file is expected to be read")
        return sig[p], rate[p]

    def save(uri, src, sample_rate, *a, **k):
        p = Path(uri).resolve()
        if not p.parent.is_dir():
            raise RuntimeError(f"no folder for {uri}")
        saved.setdefault(p, []).append((src, sample_rate))
        p.write_text("saved")
        if len(saved) > 100:
            raise RuntimeError("too many files")

    args = list(cfg["args"])
    if "stored" in cfg:
        store(cfg, root)
        args += ["--model-path", str(root / "model")]
    elif "MODEL" in args:
        store(dict(stored=dict(n_fft=4, hop_length=2)), root)
        args[args.index("MODEL")] = str(root / "model")
    with standins(load, save):
        ctx.reseed()
        err = None
        try:
            S.main(S.get_parser().parse_args([cfg["inp"], out] + args))
        except (AssertionError, ValueError, OSError, RuntimeError, NotImplementedError, SystemExit) as e:
            err = e
    for p, s in content.items():
        ctx.same(f"input {p.name} kept", p.read_text(), s)
    if cfg.get("refuse"):
        ctx.same("refused", err is not None and not isinstance(err, (torch.jit.Error,)), True)
        ctx.same("nothing written", sorted(map(str, saved)), [])
        return
    if err is not None:
        ctx.fail("runs", repr(err))
        return
    # the mirrored location
    want = {}
    if cfg["inp"] == "in":
        for p in sig:
            want[root / out / p.relative_to(root / "in")] = p
    else:
        p = root / cfg["inp"]
        want[root / out / p.name if out.endswith("/") else root / out] = p
    ctx.same("files", sorted(map(str, saved)), sorted(str(q.resolve()) for q in want))
    for q, p in want.items():
        if len(saved.get(q.resolve(), ())) != 1:
            ctx.fail(f"{q.relative_to(root)}", "not written exactly once")
            continue
        y, fs = saved[q.resolve()][0]
        ctx.same(f"rate {q.relative_to(root)}", fs, rate[p])
        ctx.reseed()
        x = sig[p]
        z = expected_separator(cfg["sep"])(x[: cfg["mic"]])
        if z.shape[-2] > cfg["src"]:
            z = torchiva.select_most_energetic(z, num=cfg["src"])
        ctx.same(f"length {p.name}", tuple(y.shape)[-1], x.shape[-1])
        ctx.eq(f"{p.relative_to(root)}", y, z)
        ctx.eq(f"{p.relative_to(root)} kept", x, before[p])


def store(cfg, root):
    """a trained model as published: a configuration and weights"""
    d = root / "model"
    d.mkdir()
    (d / "model_config.yaml").write_text(json.dumps(cfg["stored"]))
    sep = BSSSeparator(**cfg["stored"])
    torch.save(sep.state_dict(), d / "model_weights.ckpt")
