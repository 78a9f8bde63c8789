"""C20 non-local pattern averaging."""
import numpy as np
import torch

from ebsdtorch.ebsd.experiment_pats import ExperimentPatterns
from ebsdtorch.preprocessing.nlpar import nlpar
from vlib import ref
from vlib.core import Prop

PROP = Prop(
    "C20",
    "a case is one scan of patterns (grains, gradients, noise, dead and identical patterns, non-square scans down to one point) "
    "with a window radius and a weight coefficient; all output patterns of the scan are judged",
    ["the averaging weight is the published one: exp(-max(0, normalised squared distance)/lambda^2) with the noise of a scan point "
     "estimated from its most similar adjacent point and lambda fitted so that the mean weight of the centre in its 3x3 neighbourhood is the coefficient; "
     "the fit is judged only where that mean is attainable",
     "weights are float32 in the code, so agreement is judged at 2e-3 of the pattern range"],
)


def windows(D, k):
    """(h, w, K, K) squared distances; inf outside of the scan."""
    h, w = D.shape[:2]
    F = D.reshape(h, w, -1)
    d = np.full((h, w, 2 * k + 1, 2 * k + 1), np.inf)
    for i in range(-k, k + 1):
        for j in range(-k, k + 1):
            a0, a1, b0, b1 = max(0, -i), min(h, h - i), max(0, -j), min(w, w - j)
            if a0 < a1 and b0 < b1:
                d[a0:a1, b0:b1, i + k, j + k] = ((F[a0:a1, b0:b1] - F[a0 + i:a1 + i, b0 + j:b1 + j]) ** 2).sum(-1)
    return d


def shifted(S, k, fill):
    h, w = S.shape
    P = np.full((h + 2 * k, w + 2 * k), fill)
    P[k:k + h, k:k + w] = S
    return np.stack([np.stack([P[i:i + h, j:j + w] for j in range(2 * k + 1)], -1) for i in range(2 * k + 1)], -2)


def model(D, k, coeff, bias=0.0):
    """Published NLPAR with lambda from bisection; returns result, fit ok."""
    h, w = D.shape[:2]
    n = D[0, 0].size
    d = windows(D, k)
    nn = d[:, :, k - 1:k + 2, k - 1:k + 2].copy()
    nn[:, :, 1, 1] = np.inf
    s2 = nn.min((2, 3)) / (2 * n)
    s = s2[..., None, None] + shifted(s2, k, 1.0)
    with np.errstate(all="ignore"):
        W = np.where(np.isinf(d), np.inf, np.maximum(0, (d - n * s) / (np.sqrt(2 * n) * s)))

    def centre(lam2):
        e = np.exp(-W[:, :, k - 1:k + 2, k - 1:k + 2] / lam2)
        return (e[:, :, 1, 1] / e.sum((2, 3))).mean()

    lo, hi = 1e-3, 1e25
    if not (centre(hi) + 1e-3 < coeff < centre(1e-2) - 1e-3):
        return None, None
    for _ in range(200):
        mid = np.sqrt(lo * hi)
        lo, hi = (mid, hi) if centre(mid) > coeff else (lo, mid)
    e = -W / lo
    e[:, :, k, k] += bias
    e = np.exp(e - e.max((2, 3), keepdims=True))
    e /= e.sum((2, 3), keepdims=True)
    out = np.zeros_like(D)
    for i in range(-k, k + 1):
        for j in range(-k, k + 1):
            a0, a1, b0, b1 = max(0, -i), min(h, h - i), max(0, -j), min(w, w - j)
            if a0 < a1 and b0 < b1:
                out[a0:a1, b0:b1] += e[a0:a1, b0:b1, i + k, j + k, None, None] * D[a0 + i:a1 + i, b0 + j:b1 + j]
    return out, lo


def scan(m, h=None, w=None):
    h, w = (int(m.rng.integers(2, 9)) for _ in range(2)) if h is None else (h, w)
    H, W = (int(m.rng.integers(4, 16)) for _ in range(2))
    kind = m.rng.integers(0, 4)
    g = m.rng.random((4, H, W))
    if kind == 0:
        D = np.broadcast_to(g[0], (h, w, H, W)).copy()
    elif kind == 1:
        D = g[m.rng.integers(0, 4, (h, 1))] * np.ones((1, w, 1, 1))
    elif kind == 2:
        D = g[(np.add.outer(np.arange(h), np.arange(w)) > (h + w) // 2).astype(int)]
    else:
        t = np.add.outer(np.arange(h), 2 * np.arange(w)) / (h + 2 * w)
        D = g[0] + t[..., None, None] * g[1]
    D = D + 10 ** m.rng.uniform(-2.5, 0) * m.rng.normal(size=D.shape)
    D = D * 10 ** m.rng.uniform(-2, 3) + m.rng.choice([0.0, -3.0, 10.0])
    return D


@PROP.scenario("model", rounds=12)
def against_model(m):
    judged = 0
    for _ in range(m.n(8, 24)):
        D = scan(m)
        k = int(m.rng.integers(1, 5))
        coeff = float(m.rng.choice([0.2, 0.3, 0.375, 0.5, 0.6]))
        bias = float(m.rng.choice([0.0, 0.0, 1.5]))
        t = torch.tensor(D, dtype=torch.float32)
        D32 = ref.npf(t)
        out = m.call(nlpar, t, k_rad=k, coeff=coeff, center_logit_bias=bias)
        m.shape(out, D.shape, "model:shape")
        m.seen(out.reshape(1, -1))
        sc = np.ptp(D32) or 1.0
        want, lam = model(D32, k, coeff, bias)
        if want is None:
            m.expect(bool(torch.isfinite(out).all()), "model:finite")
            continue
        judged += 1
        m.small(abs(ref.npf(out) - want) / sc, 2e-3, "model:weighted-mean", f"scan {D.shape} k={k} coeff={coeff}")
    m.need(judged > 0 or m.tier == "quick", "model:observed")


@PROP.scenario("convex", rounds=10)
def convex(m):
    for _ in range(m.n(6, 20)):
        D = scan(m, *(m.rng.integers(1, 8, 2)))
        h, w = D.shape[:2]
        if m.rng.random() < 0.3:
            D[m.rng.integers(0, h), m.rng.integers(0, w)] = m.rng.choice([0.0, D.max()])  # a dead or saturated point
        k = int(m.rng.integers(1, 5))
        coeff = float(m.rng.uniform(0.15, 0.8))
        t = torch.tensor(D, dtype=torch.float32)
        out = ref.npf(m.call(nlpar, t, k_rad=k, coeff=coeff))
        m.seen(out.reshape(1, -1))
        D32 = ref.npf(t)
        sc = np.ptp(D32) + abs(D32).max() * 1e-2 or 1.0  # (a scan of one dead point)
        for a in range(h):
            for b in range(w):
                box = D32[max(0, a - k):a + k + 1, max(0, b - k):b + k + 1].reshape(-1, *D.shape[2:])
                m.expect(bool((out[a, b] >= box.min(0) - 1e-4 * sc).all() and (out[a, b] <= box.max(0) + 1e-4 * sc).all()),
                         "convex:range", f"scan point {(a, b)} of {(h, w)}, radius {k}")
        # per pixel the weights are the same: an affine map of grey levels commutes with the average
        g, o = 2.0 ** int(m.rng.integers(-4, 5)), 0.0
        m.small(abs(ref.npf(m.call(nlpar, t * g + o, k_rad=k, coeff=coeff)) / g - out) / sc, 1e-3, "convex:brightness-scale")
        # nothing depends on the orientation of the scan or of the pixels
        for f in ((0,), (1,), (0, 1)):
            o = m.call(nlpar, t.flip(f), k_rad=k, coeff=coeff).flip(f)
            m.small(abs(ref.npf(o) - out) / sc, 1e-3, "convex:scan-flip")
        o = m.call(nlpar, t.transpose(0, 1), k_rad=k, coeff=coeff).transpose(0, 1)
        m.small(abs(ref.npf(o) - out) / sc, 1e-3, "convex:scan-transpose")
        p = m.rng.permutation(D.shape[2] * D.shape[3])
        o = m.call(nlpar, t.reshape(h, w, -1)[:, :, p].reshape(t.shape), k_rad=k, coeff=coeff).reshape(h, w, -1)
        m.small(abs(ref.npf(o) - out.reshape(h, w, -1)[:, :, p]) / sc, 1e-3, "convex:pixel-order")


@PROP.scenario("identical", rounds=6)
def identical(m):
    for _ in range(6):
        h, w = m.rng.integers(1, 8, 2)
        H, W = m.rng.integers(2, 14, 2)
        g = m.rng.random((3, H, W)) * 10 ** m.rng.uniform(-2, 2.5)
        k = int(m.rng.integers(1, 5))
        coeff = float(m.rng.uniform(0.15, 0.8))
        t = torch.tensor(np.broadcast_to(g[0], (h, w, H, W)).copy(), dtype=torch.float32)
        m.seen(t.reshape(1, -1))
        m.small(abs(ref.npf(m.call(nlpar, t, k_rad=k, coeff=coeff) - t)) / g.max(), 1e-5, "identical:unchanged", f"scan {(h, w)} radius {k}")
        # grains of identical patterns, each at least two points wide, stay as they are
        lab = np.repeat(m.rng.integers(0, 3, (1 + h // 2, 1 + w // 2)), 2, 0).repeat(2, 1)
        t = torch.tensor(g[lab], dtype=torch.float32)
        # (the coefficient is above the centre weight any grain point can have, so nothing is mixed to reach it)
        m.small(abs(ref.npf(m.call(nlpar, t, k_rad=k, coeff=float(m.rng.uniform(0.5, 0.8))) - t)) / g.max(), 1e-5, "identical:grains")


@PROP.scenario("denoises", rounds=6)
def denoises(m):
    """Larger windows average more copies of the same pattern: the error falls like the number of them."""
    h, w = m.rng.integers(7, 11, 2)
    H, W = m.rng.integers(10, 20, 2)
    g = m.rng.random((2, H, W))
    lab = (np.arange(w) >= w // 2).astype(int)[None].repeat(h, 0) if m.rng.random() < 0.5 else np.zeros((h, w), int)
    D = g[lab]
    s = 10 ** m.rng.uniform(-2.5, -1.2)
    N = torch.tensor(D + s * m.rng.normal(size=D.shape), dtype=torch.float32)
    e0 = abs(ref.npf(N) - D).mean()
    err = []
    for k in (1, 2, 3):
        o = ref.npf(m.call(nlpar, N, k_rad=k))
        m.seen(o.reshape(1, -1))
        err.append(abs(o - D).mean())
    m.expect(err[0] < 0.75 * e0 and err[1] < err[0] and err[2] < err[1], "denoises:error", f"noise {e0}, after radius 1,2,3: {err}")
    lo = ref.npf(m.call(nlpar, N, k_rad=2, coeff=0.25))
    hi = ref.npf(m.call(nlpar, N, k_rad=2, coeff=0.6))
    m.expect(abs(hi - ref.npf(N)).mean() < abs(lo - ref.npf(N)).mean(), "denoises:higher-coefficient-keeps-more")
    # the pattern set applies the same average and keeps order and shape
    e = m.call(ExperimentPatterns, N)
    m.call(e.do_nlpar, k_rad=2, coeff=0.6)
    m.close(e.patterns.reshape(N.shape), torch.tensor(hi), 1e-5, "denoises:pattern-set")


@PROP.scenario("local", rounds=6)
def local(m):
    """Patterns beyond the window of a point and of its adjacent points enter only through the fitted lambda:
    permuting the rows of a far-away block leaves every point whose window it does not touch unchanged."""
    for _ in range(3):
        k = int(m.rng.integers(1, 3))
        h, w = int(m.rng.integers(4 * k + 6, 4 * k + 9)), int(m.rng.integers(2, 5))
        D = scan(m, h, w)
        t = torch.tensor(D, dtype=torch.float32)
        far = t.clone()
        far[0] = t[0].flip(0)
        a = ref.npf(m.call(nlpar, t, k_rad=k, center_logit_bias=200.0))
        b = ref.npf(m.call(nlpar, far, k_rad=k, center_logit_bias=200.0))
        m.seen(a.reshape(1, -1))
        sc = np.ptp(ref.npf(t))
        # an overwhelming centre bias returns the scan itself
        m.small(abs(a - ref.npf(t)) / sc, 1e-5, "local:centre-bias")
        m.small(abs(b - ref.npf(far)) / sc, 1e-5, "local:centre-bias")
        # a far corner replaced by anything has no direct influence: the result stays in the range of the window
        far[0, 0] = 1e3 * (1 + abs(t).max())
        c = ref.npf(m.call(nlpar, far, k_rad=k))
        D32 = ref.npf(t)
        for y in range(k + 1, h):
            box = D32[y - k:y + k + 1]
            m.expect(bool((c[y] <= box.reshape(-1, *D.shape[2:]).max(0) + 1e-4 * sc).all()), "local:no-influence", f"row {y} radius {k}")
