"""Loading a separator: stored options and weights, overrides, downloads that fail."""
import contextlib
import io
import json
import os
import shutil
import tempfile
import urllib.error
import urllib.request
from pathlib import Path

import numpy as np
import torch

import torchiva
import torchiva.loader as L
from torchiva.nn import BSSSeparator

BOUNDS = ("histories of up to 3 loads of 1-2 models; every download is complete, fails before the first byte, fails half way, or is killed half way, and another load of the same model may run "
          "before, in the middle of or after any download; every option of the separator stored and overridden, with every falsy value; all weights.")
OUTSIDE = "the checkpoint and yaml codecs for the symbolic weights (torch.load is a stand-in that refuses a truncated file; the real one is used in two configurations); the order of writes on a power cut; file systems without atomic rename; the other process is atomic relative to the paused one."


class Weighted(torch.nn.Module):
    """a source model with trained parameters"""

    def __init__(self, n_freq=3, a=1.0):
        super().__init__()
        self.w = torch.nn.Parameter(torch.ones(n_freq, 1, dtype=torch.float64))
        self.a = a

    def forward(self, Y):
        return 1.0 / (self.a + self.w.square() * (Y.real.square() + Y.imag.square()))


NAME = "checks.c19_loader.Weighted"
CONF = dict(n_fft=4, hop_length=2, n_iter=1, source_model=dict(name=NAME, kwargs=dict(n_freq=3)))
TINY = dict(n_fft=2, hop_length=1, n_iter=1, source_model=dict(name=NAME, kwargs=dict(n_freq=2)))


class Killed(BaseException):
    """the process ends in the middle of a download"""

WARM = False


def configs(tier):
    c = []

    def hist(n, loads, paths=80, **k):
        c.append(dict(name=n, loads=loads, max_paths=paths, **k))

    A, A2, B = "https://host.org/models/tiss", "https://host.org/other/tiss", "http://second.org/models/mvdr"
    # (URL, downloads may fail)
    hist("clean", [(A, False), (A, False)])
    hist("slash", [(A + "/", False), (A, False)])
    hist("fault", [(A, True), (A, False), (A, False)])
    hist("fault2", [(A, True), (A, True), (A, False)])
    hist("two", [(A, True), (B, True), (A, False), (B, False)])
    hist("samename", [(A, False), (A2, False), (A, False)])
    hist("samenamefault", [(A, True), (A2, True), (A, False), (A2, False)])
    hist("query", [("https://h.org/get?m=tiss", False), ("https://h.org/get?m=mvdr", False)])
    hist("other", [(A, "mix"), (A, False)], paths=120)
    hist("over", [(A, True, dict(n_iter=0)), (A, False), (A, False, dict(n_iter=0))])
    # options
    stored = dict(n_fft=4, hop_length=2, n_iter=1)

    def opt(n, st=(), over=(), C=2, Lx=4, **k):
        c.append(dict(name="opt_" + n, stored=dict(stored, **dict(st)), over=dict(over), C=C, L=Lx, **k))

    opt("plain")
    opt("n_iter", dict(n_iter=2))
    opt("n_iter0", dict(n_iter=2), dict(n_iter=0))
    opt("n_iter1", dict(n_iter=0), dict(n_iter=1))
    opt("taps", dict(n_taps=1, n_delay=1), Lx=6)
    opt("taps0", dict(n_taps=1, n_delay=1), dict(n_taps=0))
    opt("taps1", {}, dict(n_taps=1, n_delay=1), Lx=6)
    opt("pb", dict(proj_back_mic=1))
    opt("pb0", dict(proj_back_mic=1), dict(proj_back_mic=0))
    opt("pbnone", dict(proj_back_mic=1), dict(proj_back_mic=None))
    opt("pbsaved", dict(proj_back_mic=None))
    opt("dmc", dict(use_dmc=True))
    opt("dmcoff", dict(use_dmc=True), dict(use_dmc=False))
    opt("src", dict(n_src=1))
    opt("srcnone", dict(n_src=1), dict(n_src=None))
    opt("eps", dict(eps=0.25), dict(eps=0.5))
    opt("epsnone", dict(eps=0.25), dict(eps=None))
    opt("hop", dict(hop_length=2), dict(hop_length=1), Lx=3)
    opt("hopnone", dict(hop_length=2), dict(hop_length=None), Lx=3)
    opt("win", dict(window="hamming"))
    opt("algo", dict(), dict(algo="ip2"))
    opt("five", dict(algo="five", n_power_iter=2), dict(n_power_iter=None))
    opt("five2", dict(algo="five"), dict(n_power_iter=2))
    opt("model", dict(), dict(source_model=dict(name=NAME, kwargs=dict(n_freq=3, a=2.0))))
    opt("local", dict(), dict(n_iter=0), how="folder")
    opt("files", dict(), dict(n_iter=0), how="files")
    opt("filesstr", dict(), dict(proj_back_mic=1), how="filesstr")
    opt("real", dict(n_iter=1), dict(), how="folder", real=True)
    opt("real2", dict(n_iter=2), dict(n_iter=1, proj_back_mic=1), how="files", real=True)
    c.append(dict(name="errors", errors=True))
    if tier == "thorough":
        hist("fault3", [(A, True), (A, True), (A, True), (A, False)], paths=500)
        hist("two2", [(A, True), (A2, True), (A, True), (A2, False), (A, False)], paths=800)
        hist("other2", [(A, "mix"), (A, "mix"), (A, False)], paths=1500)
    return c


def stored_conf(url):
    return dict(TINY, eps=0.25 if "mvdr" in url else 0.125 if "other" in url else 0.0625)


def content(url):
    """the published file"""
    conf = stored_conf(url)
    if url.split("?")[0].endswith(".yaml") or url.endswith(".yaml"):
        s = "".join(f"{k}: {json.dumps(v)}\n" for k, v in conf.items())
        return s
    return "WEIGHTS " + url + "\n" + "0123456789\n" * 3 + "END"


def half(s):
    k = s.rfind("\n", 0, len(s) // 2 + 8)
    return s[: k + 1]


@contextlib.contextmanager
def standins(retrieve, tload):
    undo = []

    def put(o, n, v):
        undo.append((o, n, getattr(o, n)))
        setattr(o, n, v)

    ur, tl = urllib.request.urlretrieve, torch.load
    put(urllib.request, "urlretrieve", retrieve)
    if tload is not None:
        put(torch, "load", tload)
    for n, v in list(vars(L).items()):
        if v is ur:
            put(L, n, retrieve)
        elif v is tl and tload is not None:
            put(L, n, tload)
    try:
        yield
    finally:
        for o, n, v in reversed(undo):
            setattr(o, n, v)


def run(ctx, cfg):
    root = tempfile.mkdtemp(prefix="c19_")
    home = os.environ.get("HOME")
    try:
        os.environ["HOME"] = root
        with torch.no_grad(), contextlib.redirect_stdout(io.StringIO()):
            if cfg.get("errors"):
                errors(ctx, Path(root))
            elif "loads" in cfg:
                history(ctx, cfg, Path(root))
            else:
                options(ctx, cfg, Path(root))
    finally:
        if home is None:
            del os.environ["HOME"]
        else:
            os.environ["HOME"] = home
        shutil.rmtree(root)


def weights(ctx, tag, stored, keep):
    """a state dict with arbitrary trained values"""
    ref = BSSSeparator(**stored)
    sd = {}
    for k, v in ref.state_dict().items():
        if k.endswith(".w"):
            if tag not in keep:
                keep[tag] = ctx.real(f"w{tag}", tuple(v.shape))
            v = keep[tag]
        sd[k] = v
    return sd


def history(ctx, cfg, root):
    served, keep = {}, {}
    x = ctx.real("x", (1, 2))
    kinds = ctx.real("d", (24,), 0, 1)
    state = dict(k=0, mode=False, depth=0)

    def choose(n):
        """one of n outcomes, decided by a symbolic variable"""
        v = kinds[state["k"]]
        state["k"] += 1
        for i in range(1, n):
            if bool(v < i / n):
                return i - 1
        return n - 1

    def other(url):
        """another process loads the same model at this point"""
        if state["mode"] != "mix" or state["depth"]:
            return
        if choose(2):
            return
        base = url[: url.rfind("/")]
        state["depth"] = 1
        try:
            L.load_separator(base)
        except (OSError, Killed):
            pass
        finally:
            state["depth"] = 0

    def retrieve(url, filename=None, reporthook=None, data=None):
        s = content(url)
        if filename is None:
            fd, filename = tempfile.mkstemp(dir=root)
            os.close(fd)
        other(url)
        what = 3
        if state["mode"] is True or state["depth"]:
            what = choose(4)
        if what == 0:
            raise urllib.error.URLError("no connection")
        with open(filename, "w") as f:
            f.write(half(s))
            f.flush()
            other(url)
            if what == 1:
                raise urllib.error.ContentTooShortError("connection lost", None)
            if what == 2:
                raise Killed()
            f.write(s[len(half(s)):])
        served[url] = served.get(url, 0) + 1
        other(url)
        return str(filename), None

    def tload(f, *a, **k):
        s = Path(f).read_text() if not hasattr(f, "read") else f.read()
        if isinstance(s, bytes):
            s = s.decode()
        if not s.startswith("WEIGHTS ") or not s.endswith("END"):
            raise RuntimeError("truncated checkpoint")
        tag = s.split()[1]
        return weights(ctx, tag, TINY, keep)

    with standins(retrieve, tload):
        for i, (url, mode, *over) in enumerate(cfg["loads"]):
            over = over[0] if over else {}
            state["mode"] = mode
            base = url.rstrip("/")
            try:
                sep = L.load_separator(url, **over)
            except (OSError, Killed) as e:
                if mode is not True:
                    ctx.fail(f"load {i}", f"fails although every download works: {e!r}")
                    return
                continue
            except Exception as e:
                ctx.fail(f"load {i}", f"{e!r}")
                return
            w = weights(ctx, base + "/model_weights.ckpt", TINY, keep)["source_model.w"]
            ctx.eq(f"weights {i}", sep.source_model.w, w)
            ref = BSSSeparator(**dict(stored_conf(base), **over))
            ref.source_model.w.copy_(w)
            ctx.eq(f"output {i}", sep(x), ref(x))
    for u, n in served.items():
        if not any(m == "mix" for _, m, *_ in cfg["loads"]):
            ctx.same(f"{u} downloaded once", n, 1)


def options(ctx, cfg, root):
    stored, over = cfg["stored"], cfg["over"]
    # FIVE leaves out the lowest frequency
    stored = dict(stored, source_model=dict(name=NAME, kwargs=dict(n_freq=1 if stored.get("algo") == "five" else 3)))
    keep = {}
    d = root / "m"
    d.mkdir()
    (d / "model_config.yaml").write_text(json.dumps(stored))
    x = ctx.real("x", (cfg["C"], cfg["L"]))
    real = cfg.get("real")
    if real:
        sd = BSSSeparator(**stored).state_dict()
        for k in sd:
            if k.endswith(".w"):
                sd[k] = torch.tensor([[0.5], [0.25], [0.75]], dtype=torch.float64)
        torch.save(sd, d / "model_weights.ckpt")
        w = sd["source_model.w"]
    else:
        (d / "model_weights.ckpt").write_text("weights")
        w = weights(ctx, "w", stored, keep)["source_model.w"]

    def retrieve(url, filename=None, reporthook=None, data=None):
        p = d / url.split("/")[-1]
        filename = filename or root / "dl"
        shutil.copy(p, filename)
        return str(filename), None

    def tload(f, *a, **k):
        s = Path(f).read_text() if not hasattr(f, "read") else f.read()
        if s not in ("weights", b"weights"):
            raise RuntimeError("not a checkpoint")
        return weights(ctx, "w", stored, keep)

    over0 = json.dumps(over)
    with standins(retrieve, None if real else tload):
        how = cfg.get("how", "url")
        if how == "url":
            sep = L.load_separator("https://h.org/x/m", **over)
        elif how == "folder":
            sep = L.load_separator(str(d), **over)
        elif how == "files":
            sep = torchiva.load_separator_model(d / "model_weights.ckpt", d / "model_config.yaml", **over)
        else:
            sep = torchiva.load_separator_model(str(d / "model_weights.ckpt"), str(d / "model_config.yaml"), **over)
    ctx.same("arguments kept", json.dumps(over), over0)
    y = ctx.arr(sep(x))
    kw = dict(stored)
    kw.update(over)
    ref = BSSSeparator(**kw)
    ref.source_model.w.copy_(w)
    ctx.eq("weights", sep.source_model.w, w)
    ctx.eq("y", y, ref(x))
    for k, v in kw.items():
        if k in ("n_iter", "n_src", "algo") and hasattr(sep, k):
            ctx.same(k, getattr(sep, k), v)


def errors(ctx, root):
    ctx.real("x", (1,))
    d = root / "m"
    d.mkdir()
    bad = (ValueError, OSError)
    conf = dict(CONF)
    ctx.raises("missing folder", bad, lambda: L.load_separator(str(root / "none")))
    ctx.raises("empty folder", bad, lambda: L.load_separator(str(d)))
    (d / "model_config.yaml").write_text(json.dumps(conf))
    ctx.raises("no weights", bad, lambda: L.load_separator(str(d)))
    ctx.raises("no weights file", bad, lambda: L.load_separator_model(d / "model_weights.ckpt", d / "model_config.yaml"))
    torch.save(BSSSeparator(**conf).state_dict(), d / "model_weights.ckpt")
    ctx.same("complete", type(L.load_separator(str(d))).__name__, "BSSSeparator")
    ctx.raises("a file", bad, lambda: L.load_separator(str(d / "model_weights.ckpt")))
    ctx.raises("no config file", bad, lambda: L.load_separator_model(d / "model_weights.ckpt", d / "other.yaml"))
    os.remove(d / "model_config.yaml")
    ctx.raises("no config", bad, lambda: L.load_separator(str(d)))
    ctx.raises("other scheme", bad, lambda: L.load_separator("ftp://h.org/m"))
    # weights of another model
    (d / "model_config.yaml").write_text(json.dumps(dict(conf, source_model=dict(name=NAME, kwargs=dict(n_freq=5)))))
    ctx.raises("weights do not fit", (ValueError, RuntimeError), lambda: L.load_separator(str(d)))
    (d / "model_config.yaml").write_text(json.dumps(dict(conf, source_model=dict(name="torchiva.models.GaussModel"))))
    ctx.raises("unknown weights", (ValueError, RuntimeError), lambda: L.load_separator(str(d)))
    (d / "model_config.yaml").write_text(json.dumps(dict(conf, nonsense=1)))
    ctx.raises("unknown option", (ValueError, TypeError), lambda: L.load_separator(str(d)))
