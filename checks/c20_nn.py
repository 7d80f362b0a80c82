"""Neural source models: the published network, ranges, shapes, independence."""
import contextlib

import numpy as np
import torch
from torchaudio.transforms import MelScale

from symt import ref as R
from symt import term as T
import torchiva.models as M

BOUNDS = "all weights, biases and batch statistics (symbolic) and all inputs, for networks with 2-5 frequencies, 1-3 bottleneck or hidden units, 1-2 sublayers, pooling 1-3, kernels 1-3, up to 3 recurrent layers, 1-4 frames, batches of up to 2x2, every constructor switch."
OUTSIDE = "the published sizes (1025 frequencies, 128 units); training mode (dropout, batch statistics); rounding; the mel filterbank matrix is torchaudio's."


def configs(tier):
    c = []

    def add(n, net, F, N, B=(1,), **kw):
        x = {k: kw.pop(k) for k in ("budget", "only", "cpx") if k in kw}
        c.append(dict(name=n, net=net, F=F, N=N, B=B, kw=kw, **x))

    g = dict(n_bottleneck=1)
    add("glu", "GLUMask", 2, 2, **g)
    add("glu2", "GLUMask", 2, 3, n_bottleneck=2)
    add("glu3", "GLUMask", 3, 2, n_bottleneck=2)
    add("gluup", "GLUMask", 2, 2, n_bottleneck=3)
    add("glusub", "GLUMask", 2, 2, n_sublayers=2, **g)
    add("glupool1", "GLUMask", 2, 3, pool_size=1, **g)
    add("glupool3", "GLUMask", 2, 2, pool_size=3, **g)
    add("gluk1", "GLUMask", 2, 3, kernel_size=1, **g)
    add("gluk5", "GLUMask", 2, 4, kernel_size=5, **g)
    add("gluri", "GLUMask", 2, 2, mag_spec=False, **g)
    add("gluri2", "GLUMask", 2, 2, mag_spec=False, n_bottleneck=2)
    add("glulin", "GLUMask", 2, 2, log_spec=False, **g)
    add("glurilin", "GLUMask", 2, 2, mag_spec=False, log_spec=False, **g)
    add("glub", "GLUMask", 2, 2, B=(2,), **g)
    add("glub22", "GLUMask", 2, 1, B=(2, 2), **g)
    add("glunob", "GLUMask", 2, 2, B=(), **g)
    add("glureal", "GLUMask", 2, 2, cpx=False, **g)
    h = dict(n_bottleneck=2, n_hidden=1)
    add("blstm", "BLSTMMask", 3, 2, **h)
    add("blstm3", "BLSTMMask", 5, 3, **h)
    add("blstmh2", "BLSTMMask", 3, 1, n_bottleneck=1, n_hidden=2)
    add("blstmlog", "BLSTMMask", 3, 2, log_spec=True, **h)
    add("blstmri", "BLSTMMask", 3, 2, mag_spec=False, **h)
    add("blstmrilog", "BLSTMMask", 3, 1, mag_spec=False, log_spec=True, **h)
    add("blstmb", "BLSTMMask", 3, 2, B=(2,), **h)
    add("blstmb22", "BLSTMMask", 3, 1, B=(2, 2), **h)
    add("blstmnob", "BLSTMMask", 3, 2, B=(), **h)
    m = dict(n_hidden=1)
    add("mvdr", "MaskMVDRSupport", 2, 2, **m)
    add("mvdr1", "MaskMVDRSupport", 2, 2, n_layers=1, n_src=1, **m)
    add("mvdr2", "MaskMVDRSupport", 2, 2, n_layers=2, n_src=3, n_masks=2, **m)
    add("mvdreps", "MaskMVDRSupport", 3, 1, eps=0.125, n_masks=1, **m)
    add("mvdrh2", "MaskMVDRSupport", 2, 1, n_hidden=2, n_layers=1)
    add("mvdrb", "MaskMVDRSupport", 2, 2, B=(2,), n_layers=1, **m)
    add("mvdrb22", "MaskMVDRSupport", 2, 1, B=(2, 2), n_layers=1, **m)
    add("mvdrnob", "MaskMVDRSupport", 2, 2, B=(), n_layers=1, **m)
    add("simple", "SimpleModel", 3, 2, n_mels=2)
    add("simpleh", "SimpleModel", 5, 2, n_mels=2, n_hidden=3)
    add("simpleeps", "SimpleModel", 3, 2, n_mels=1, eps=0.25)
    add("simpleb", "SimpleModel", 3, 2, n_mels=2, B=(2,))
    add("simpleb22", "SimpleModel", 3, 1, n_mels=2, B=(2, 2))
    add("simplenob", "SimpleModel", 3, 2, n_mels=2, B=())
    if tier == "thorough":
        add("glubig", "GLUMask", 4, 4, n_bottleneck=3, n_sublayers=2)
        add("glubig2", "GLUMask", 3, 4, B=(3,), n_bottleneck=2, n_sublayers=3)
        add("blstmbig", "BLSTMMask", 5, 4, n_bottleneck=3, n_hidden=2)
        add("mvdrbig", "MaskMVDRSupport", 3, 3, n_hidden=2)
        add("simplebig", "SimpleModel", 9, 4, n_mels=4, n_hidden=4, B=(2,))
    return c


# ---- reference networks on arrays of terms or numbers ------------------------

def fn(name, f):
    def g(x):
        if isinstance(x, T.Node):
            return T.fn(name, (x,), 0, lambda v: float(f(v)))
        return f(x)

    return lambda a: omap(g, a)


def omap(g, a):
    a = np.asarray(a)
    out = np.empty(a.shape, dtype=object)
    for i in np.ndindex(*a.shape):
        out[i] = g(a[i])
    return out


import math

sigmoid = fn("sigmoid", lambda v: 1 / (1 + math.exp(-v)) if v > -700 else 0.0)
tanh = fn("tanh", math.tanh)
log = fn("log", lambda v: math.log(v))


def log10(a):
    return log(a) * (1 / math.log(10))


def tsum(a):
    s = 0
    for v in np.asarray(a).reshape(-1):
        s = v + s
    return s


def conv(x, w, b, pad):
    """x (Ci, L), w (Co, Ci, K)"""
    Ci, L = x.shape
    Co, _, K = w.shape
    out = np.empty((Co, L + 2 * pad - K + 1), dtype=object)
    for o in range(Co):
        for t in range(out.shape[1]):
            s = b[o]
            for i in range(Ci):
                for k in range(K):
                    if 0 <= t + k - pad < L:
                        s = s + x[i, t + k - pad] * w[o, i, k]
            out[o, t] = s
    return out


def conv_t(x, w, b, pad):
    """the transpose: correlation with the reversed kernel"""
    K = w.shape[2]
    return conv(x, np.swapaxes(w, 0, 1)[:, :, ::-1], b, K - 1 - pad)


def lstm(x, sd, name, layers):
    """x (frames, inputs); gates in the order i, f, g, o"""
    for l in range(layers):
        outs = []
        for d in ("", "_reverse"):
            wi, wh, bi, bh = (sd[f"{name}.{k}_l{l}{d}"] for k in ("weight_ih", "weight_hh", "bias_ih", "bias_hh"))
            H = wh.shape[1]
            h, c = [0] * H, [0] * H
            ys = [None] * len(x)
            for t in range(len(x)) if d == "" else reversed(range(len(x))):
                z = [bi[j] + bh[j] + tsum(wi[j] * x[t]) + tsum(wh[j] * np.array(h, dtype=object)) for j in range(4 * H)]
                z = np.array(z, dtype=object)
                i, f, g, o = sigmoid(z[:H]), sigmoid(z[H:2 * H]), tanh(z[2 * H:3 * H]), sigmoid(z[3 * H:])
                c = f * np.array(c, dtype=object) + i * g
                h = o * tanh(c)
                ys[t] = list(h)
            outs.append(ys)
        x = np.array([a + b for a, b in zip(*outs)], dtype=object)
    return x


def glu_mask(x, sd, F, n_bottleneck, pool_size=2, kernel_size=3, mag_spec=True, log_spec=True, n_sublayers=1, **k):
    p = R.abs2(x)
    g = vmax(tsum(p.reshape(-1)) / p.size, 1e-5)
    if mag_spec:
        z = p / g
    else:
        q = R.sqrt(g)
        z = np.concatenate((omap(lambda v: v.real, x) / q, omap(lambda v: v.imag, x) / q))
    if log_spec:
        z = log10(omap(rabs, z) + 1e-7)
    nb = n_bottleneck
    shapes = [(0, 1, z.shape[0], nb), (1, n_sublayers, nb, nb), (3, n_sublayers, nb, nb)]
    for l, subs, ni, no in shapes:
        cv = conv if ni >= no else conv_t
        for s in range(subs):
            def branch(kind):
                n = f"layers.{l}.{kind}"
                y = cv(z, sd[f"{n}_layers.{s}.weight"], sd[f"{n}_layers.{s}.bias"], 1)
                b = f"{n}_bn_layers.{s}."
                mu, var = sd[b + "running_mean"], sd[b + "running_var"]
                w, bb = sd[b + "weight"], sd[b + "bias"]
                out = np.empty(y.shape, dtype=object)
                for i in range(y.shape[0]):
                    out[i] = (y[i] - mu[i]) / R.sqrt(var[i] + 1e-5) * w[i] + bb[i]
                return out

            y = sigmoid(branch("gate")) * branch("lin")
            n = y.shape[0] // pool_size
            z = np.empty((n, y.shape[1]), dtype=object)
            for i in range(n):
                for t in range(y.shape[1]):
                    m = y[i * pool_size, t]
                    for j in range(1, pool_size):
                        m = vmax(m, y[i * pool_size + j, t])
                    z[i, t] = m
    z = conv_t(z, sd["layers.4.weight"], sd["layers.4.bias"], kernel_size // 2)
    return sigmoid(z) * (1 - 1e-5) + 1e-5


def mel(x, F, n):
    fb = MelScale(n_stft=F, n_mels=n).fb.double().numpy()
    out = np.empty((n, x.shape[1]), dtype=object)
    for i in range(n):
        for t in range(x.shape[1]):
            out[i, t] = tsum(np.array([x[f, t] * float(fb[f, i]) for f in range(F)], dtype=object))
    return out


def blstm_mask(x, sd, F, n_bottleneck, mag_spec=True, log_spec=False, **k):
    if mag_spec:
        z = mel(R.abs2(x), F, n_bottleneck)
        if log_spec:
            z = log(z + 1e-7)
    else:
        z = np.concatenate((mel(omap(lambda v: v.real, x), F, n_bottleneck), mel(omap(lambda v: v.imag, x), F, n_bottleneck)))
    z = lstm(z.T, sd, "blstm", 3).T
    z = conv(z, sd["output_layer.weight"], sd["output_layer.bias"], 0)
    return sigmoid(z) * (1 - 1e-5) + 1e-5


def linear(z, sd, n):
    w, b = sd[n + ".weight"], sd[n + ".bias"]
    return np.array([[tsum(w[o] * r) + b[o] for o in range(len(b))] for r in z], dtype=object)


def mvdr_masks(x, sd, F, n_src=2, n_masks=3, n_layers=3, eps=1e-3, **k):
    z = log(omap(lambda v: R.sqrt(v) + 1.0, R.abs2(x)))
    z = lstm(z.T, sd, "blstm", n_layers)
    z = omap(lambda v: vmax(v, 0), linear(z, sd, "ff1"))
    z = sigmoid(linear(z, sd, "ff2")) * (1 - eps) + eps
    return z.T.reshape(n_src, n_masks, F, -1)


def simple(x, sd, F, n_mels, eps=1e-6, **k):
    z = log10(mel(R.abs2(x), F, n_mels) + eps) * 10.0
    z = linear(linear(z.T, sd, "hidden"), sd, "output_mapping")
    return sigmoid(z * (1 - eps) + eps).T


def vmax(a, b):
    if isinstance(a, T.Node) or isinstance(b, T.Node):
        return T.vmax(T.lift(a), T.lift(b))
    return max(a, b)


def rabs(a):
    return R.absv(a)


NETS = dict(GLUMask=glu_mask, BLSTMMask=blstm_mask, MaskMVDRSupport=mvdr_masks, SimpleModel=simple)


def run(ctx, cfg):
    F, N, B, kw = cfg["F"], cfg["N"], cfg["B"], cfg["kw"]
    import warnings

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if cfg["net"] == "MaskMVDRSupport":
            net = M.MaskMVDRSupport(n_input=F, **kw)
        else:
            net = getattr(M, cfg["net"])(n_freq=F, **kw)
    net = net.double().eval()
    sd = {}
    with torch.no_grad():
        for k, v in net.state_dict().items():
            if "mel_layer" in k or not v.dtype.is_floating_point:
                continue
            w = ctx.real(k, tuple(v.shape), lo=0 if k.endswith("running_var") else None)
            v.copy_(w)
            sd[k] = ctx.arr(w)
        x = ctx.cpx("x", B + (F, N)) if cfg.get("cpx", True) else ctx.real("x", B + (F, N))
        xa = ctx.arr(x)
        with torch.backends.mkldnn.flags(enabled=False):
            y = ctx.arr(net(x))
            again = ctx.arr(net(x))
    ref = NETS[cfg["net"]]
    z = None
    for i in np.ndindex(*B):
        try:
            r = np.asarray(ref(xa[i], sd, F, **kw))
        except KeyError as e:
            ctx.fail("parameters", f"no parameter {e} as in the published checkpoints")
            return
        if z is None:
            z = np.empty(B + r.shape, dtype=object)
        z[i] = r
    ctx.same("shape", y.shape, z.shape)
    if y.shape != z.shape:
        return
    ctx.eq("mask", y, z)
    ctx.eq("second call", again, z)
    lo = {"GLUMask": 1e-5, "BLSTMMask": 1e-5, "MaskMVDRSupport": kw.get("eps", 1e-3), "SimpleModel": 0.0}[cfg["net"]]
    ctx.le("least", np.full(y.shape, lo), y)
    ctx.le("most", y, np.ones(y.shape))
    ctx.eq("x kept", x, xa)
