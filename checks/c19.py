"""C19 contrast limited adaptive histogram equalisation."""
import math

import numpy as np
import torch

from ebsdtorch.preprocessing.clahe import clahe_grayscale
from vlib import ref
from vlib.core import Prop

PROP = Prop(
    "C19",
    "a case is one enhanced image; sizes include ones the grid does not divide, grids from 1x1 up, contents uniform, ramps, steps, "
    "constants (0 and 1 included), sparse and skewed",
    ["intensities lie in [0, 1] as the routine requires", "the reflected padding of a ragged last tile is part of the contract",
     "8-bit style rounding is not involved; a value that sits within rounding of a histogram bin edge may fall either side"],
)


def model(img, clip, n, grid):
    """tile histograms, clipped with redistribution, cumulated and blended bilinearly (in value too)."""
    H, W = img.shape
    gh, gw = grid
    th, tw = math.ceil(H / gh), math.ceil(W / gw)
    ph, pw = (-H) % gh, (-W) % gw
    p = np.pad(img, ((0, ph), (0, pw)), mode="reflect")
    cdf = np.zeros((gh, gw, n))
    npx = th * tw
    for a in range(gh):
        for b in range(gw):
            t = p[a * th : (a + 1) * th, b * tw : (b + 1) * tw]
            h = np.bincount((t * (n - 1)).astype(int).ravel(), minlength=n).astype(float)
            if clip > 0:
                lim = max(clip * npx // n, 1)
                h = np.minimum(h, lim)
                ex = round(npx - h.sum())
                h += ex // n
                h[: ex % n] += 1
            cdf[a, b] = np.clip(np.cumsum(h) / npx, 0, 1)
    y = np.clip((np.arange(H) + 0.5) / th - 0.5, 0, gh - 1)
    x = np.clip((np.arange(W) + 0.5) / tw - 0.5, 0, gw - 1)
    v = np.clip(img * n - 0.5, 0, n - 1)

    def lerp(c, size):
        i = np.minimum(np.floor(c).astype(int), max(size - 2, 0))
        return i, np.minimum(i + 1, size - 1), c - i

    y0, y1, fy = lerp(y, gh)
    x0, x1, fx = lerp(x, gw)
    v0, v1, fv = lerp(v, n)
    out = 0
    for yy, wy in ((y0, 1 - fy), (y1, fy)):
        for xx, wx in ((x0, 1 - fx), (x1, fx)):
            for vv, wv in ((v0, 1 - fv), (v1, fv)):
                out = out + wy[:, None] * wx[None] * wv * cdf[yy[:, None], xx[None], vv]
    return out


def image(m, H, W, n):
    k = m.rng.integers(0, 8)
    yy, xx = np.mgrid[:H, :W]
    if k == 0:
        im = m.rng.random((H, W))
    elif k == 1:
        im = (xx + yy) / max(H + W - 2, 1)
    elif k == 2:
        im = np.full((H, W), m.rng.choice([0.0, 1.0, m.rng.random()]))
    elif k == 3:
        im = m.rng.random((H, W)) ** 6
    elif k == 4:
        im = (m.rng.random((H, W)) < 0.1).astype(float)
    elif k == 5:
        im = 0.5 + 0.5 * np.sin(xx * m.rng.uniform(0.05, 1) + yy * m.rng.uniform(0.05, 1))
    elif k == 6:
        im = m.rng.normal(0.5, 0.05, (H, W)).clip(0, 1)
    else:
        im = (xx > W / 2) * 0.6 + 0.1 * m.rng.random((H, W))
    # keep clear of histogram bin edges so that rounding cannot decide the bin
    q = im * (n - 1)
    f = q - np.floor(q)
    q = np.where((f < 1e-3) & (q > 0.5) & (q < n - 1), q + 2e-3, np.where((f > 0.999), q - 2e-3, q))
    return np.clip(q / (n - 1), 0, 1)


def config(m):
    gh, gw = (int(x) for x in m.rng.integers(1, 9, 2))
    H, W = int(m.rng.integers(2 * gh, 12 * gh + 1)), int(m.rng.integers(2 * gw, 12 * gw + 1))
    # the tiles must cover the padded image and the padding must be reflectable
    while math.ceil(H / gh) * gh - H >= H or math.ceil(W / gw) * gw - W >= W:
        H, W = H + 1, W + 1
    return (gh, gw), H, W, int(m.rng.choice([8, 32, 64, 100, 256])), float(m.rng.choice([0, 0.5, 1, 2, 4, 10, 40, 1000]))


@PROP.scenario("reference-model", rounds=60)
def reference(m):
    grid, H, W, n, clip = config(m)
    B = int(m.rng.integers(1, 5))
    ims = np.stack([image(m, H, W, n) for _ in range(B)])
    for dt, tol in ((torch.float64, 2e-5), (torch.float32, 3e-4)):
        x = torch.tensor(ims, dtype=dt)[:, None]
        out = m.call(clahe_grayscale, x, clip, n, grid)
        m.shape(out, (B, 1, H, W), "shape")
        m.expect(out.dtype == dt, "dtype")
        O = ref.npf(out)[:, 0]
        m.expect(bool(np.isfinite(O).all()), "finite")
        m.expect(O.min() >= -1e-5 and O.max() <= 1 + 1e-5, "range")
        want = np.stack([model(ref.npf(i)[0], clip, n, grid) for i in x])
        m.small(abs(O - want), tol, "clipped-equalisation", f"{H}x{W} grid {grid} bins {n} clip {clip} {dt}")
        for i in range(B):
            m.close(m.call(clahe_grayscale, x[i : i + 1], clip, n, grid)[0], out[i], 1e-6, "images-independent")
        p = m.rng.permutation(B)
        m.close(m.call(clahe_grayscale, x[p], clip, n, grid), out[p], 1e-6, "batch-order")
        y = x.clone()
        clahe_grayscale(y, clip, n, grid)
        m.expect(torch.equal(x, y), "input-untouched")
        tr = x.transpose(2, 3).contiguous().transpose(2, 3)
        m.close(m.call(clahe_grayscale, tr, clip, n, grid), out, 1e-6, "strided")
        m.seen(ims, tag=f"{dt}{grid}{n}{clip}")
    m.sample(size=[H, W], grid=list(grid), bins=n, clip=clip, first=O[0, :2], expected=want[0, :2])


@PROP.scenario("monotone", rounds=20)
def monotone(m):
    """with a single tile a brighter pixel never comes out darker, and an equalised ramp stays a ramp."""
    _, H, W, n, clip = config(m)
    im = image(m, H, W, n)
    o = ref.npf(m.call(clahe_grayscale, torch.tensor(im)[None, None], clip, n, (1, 1)))[0, 0]
    i = np.argsort(im.ravel(), kind="stable")
    m.small(np.maximum(0, -np.diff(o.ravel()[i])), 1e-5, "monotone", f"{H}x{W} bins {n} clip {clip}")
    if clip == 0:
        flat = m.rng.random((64, 64)) ** 1.5
        o = ref.npf(m.call(clahe_grayscale, torch.tensor(flat)[None, None], 0.0, 256, (1, 1)))[0, 0]
        q = np.sort(o.ravel())
        m.small(abs(q - np.linspace(0, 1, q.size)), 0.08, "equalises")
    m.seen(im[None])
