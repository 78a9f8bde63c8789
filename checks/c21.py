"""C21 masks, blurring, resampling."""
import numpy as np
import torch

from ebsdtorch.preprocessing.radial_mask import get_radial_mask
from ebsdtorch.preprocessing.resampling import BlurAndDownsample, GaussianBlur2d
from vlib import ref
from vlib.core import Prop

PROP = Prop(
    "C21",
    "a case is one mask, blurred image or downsampled image: all small shapes and random larger ones (odd and even), radii, centres, blur widths, cut-offs, paddings, scales and modes",
    ["pixels within rounding of the mask's rim may fall either way", "the cut-off radius of the kernel may be rounded either way", "images are single-channel and larger than the kernel radius"],
)
T32 = torch.float32


@PROP.scenario("mask", rounds=6, thorough_rounds=30)
def mask(m):
    shapes = [(int(a), int(b)) for a, b in m.rng.integers(1, 40, (20, 2))] + [(1, 1), (1, 7), (8, 8), (9, 9), (60, 60), (480, 640), (3, 2)]
    for h, w in shapes:
        for radius, center in ((None, (0.5, 0.5)), (float(m.rng.uniform(0, 1.2 * max(h, w))), (0.5, 0.5)), (None, tuple(float(x) for x in m.rng.uniform(-0.2, 1.2, 2))),
                               (float(m.rng.integers(0, max(h, w) + 1)), tuple(float(x) for x in m.rng.uniform(0, 1, 2))), (0.0, (0.5, 0.5)), (10.0 * (h + w), (0.0, 1.0))):
            got = m.shape(m.call(get_radial_mask, (h, w), radius, center), (h, w), "mask:shape")
            m.seen(np.array([[h, w, -1 if radius is None else radius, *center]]))
            m.expect(got.dtype == torch.bool, "mask:boolean")
            r = min(h, w) / 2 if radius is None else radius
            i, j = np.meshgrid(np.arange(h), np.arange(w), indexing="ij")
            d = np.hypot(i - center[0] * (h - 1), j - center[1] * (w - 1))
            sure = abs(d - r) > 1e-4 * (1 + r)
            m.expect(bool(((d < r) == got.numpy())[sure].all()), "mask:pixels", f"{(h, w)} {radius} {center}")
    m.expect(torch.equal(m.call(get_radial_mask, (7, 9)), m.call(get_radial_mask, shape=(7, 9), radius=3.5, center=(0.5, 0.5))), "mask:defaults")


def reflect(img, k):
    """correlate with the odd kernel k, mirror images at the border pixels."""
    r = k.shape[0] // 2
    p = np.pad(img, r, mode="reflect")
    return conv(p, k, img.shape)


def conv(p, k, shape):
    out = np.zeros(shape)
    for a in range(k.shape[0]):
        for b in range(k.shape[1]):
            out += k[a, b] * p[a : a + shape[0], b : b + shape[1]]
    return out


@PROP.scenario("blur", rounds=12, thorough_rounds=80)
def blur(m):
    sigma = float(m.rng.choice([0.3, 0.5, 2 / 3, 1.0, 1.5, 2.0, m.rng.uniform(0.3, 3)]))
    z = int(m.rng.choice([1, 2, 3, 3, 4]))
    refl = bool(m.rng.random() < 0.7)
    g = m.call(GaussianBlur2d, sigma, z, refl)
    R = int(np.ceil(z * sigma)) + 2
    # the kernel is what an impulse in a large odd image becomes
    n = 4 * R + 1
    imp = torch.zeros(1, 1, n, n)
    imp[0, 0, n // 2, n // 2] = 1
    k = ref.npf(m.shape(m.call(g, imp), (1, 1, n, n), "blur:odd-size"))[0, 0]
    o = np.arange(n) - n // 2
    r2 = o[:, None] ** 2 + o[None] ** 2
    inside = k > 0
    m.need(bool(inside.any()), "blur:kernel-not-empty")
    m.small(abs(k.sum() - 1), 1e-5, "blur:kernel-mass")
    want = np.exp(-r2 / (2 * sigma**2)) * inside
    m.small(abs(k - want / want.sum()), 1e-5, "blur:gaussian-kernel", f"sigma {sigma} cutoff {z}")
    reach = abs(o[:, None] + 0 * o[None])[inside].max()
    m.expect(z * sigma - 1 <= reach <= z * sigma + 1.01, "blur:cutoff", f"sigma {sigma} cutoff {z} reach {reach}")
    K = k[n // 2 - reach : n // 2 + reach + 1, n // 2 - reach : n // 2 + reach + 1]
    lo = int(reach) + 2
    for h, w in [(lo, lo), (lo, lo + 1), (lo + 1, lo), (lo + 1, lo + 1)] + [tuple(int(x) for x in m.rng.integers(lo, lo + 25, 2)) for _ in range(6)]:
        b = int(m.rng.integers(1, 4))
        x = m.rng.random((b, 1, h, w)) * 10 ** m.rng.uniform(-2, 3)
        got = m.shape(m.call(g, torch.tensor(x, dtype=T32)), (b, 1, h, w), "blur:size")
        m.seen(x.reshape(b, -1))
        y = ref.npf(got)
        for i in range(b):
            full = reflect(x[i, 0], K) if refl else conv(np.pad(x[i, 0], int(reach)), K, (h, w))
            m.small(abs(y[i, 0] - full), 1e-5 * x.max(), "blur:image", f"{(h, w)} sigma {sigma} reflect {refl}")
        if refl:
            m.small(y.max((1, 2, 3)) - x.max((1, 2, 3)), 1e-5 * x.max(), "blur:range")
            m.small(x.min((1, 2, 3)) - y.min((1, 2, 3)), 1e-5 * x.max(), "blur:range")
            c = m.call(g, torch.full((1, 1, h, w), 3.7))
            m.close(c, torch.full((1, 1, h, w), 3.7), 1e-4, "blur:constants")
        s = m.call(g, torch.tensor(2.5 * x + 0.3 * x[..., ::-1], dtype=T32))
        m.small(abs(ref.npf(s) - 2.5 * y - 0.3 * y[..., ::-1]), 3e-5 * x.max(), "blur:linear-and-mirror-equivariant")


@PROP.scenario("downsample", rounds=12, thorough_rounds=80)
def downsample(m):
    for _ in range(6):
        s = float(m.rng.choice([1.0, 1.5, 2.0, 2.0, 3.0, 4.0, m.rng.uniform(1, 5)]))
        mode = str(m.rng.choice(["bicubic", "bicubic", "bilinear"]))
        d = m.call(BlurAndDownsample, s, mode) if m.rng.random() < 0.7 else m.call(BlurAndDownsample, s, mode, True)
        lo = int(np.ceil(3 * s)) + 3
        h, w = (int(x) for x in m.rng.integers(lo, lo + 40, 2))
        b = int(m.rng.integers(1, 4))
        x = torch.rand(b, 1, h, w, generator=m.gen) * 5 - 1
        y = m.call(d, x)
        m.seen(x.reshape(b, -1), tag=(s, mode))
        H, W = int(h / s + 1e-9), int(w / s + 1e-9)
        m.shape(y, (b, 1, H, W), "downsample:size")
        m.close(m.call(d, torch.full((1, 1, h, w), -2.25)), torch.full((1, 1, H, W), -2.25), 1e-4, "downsample:constants")
        # the documented blur (a standard deviation of a third of the factor), then the plain interpolation to the reduced size
        want = torch.nn.functional.interpolate(m.call(m.call(GaussianBlur2d, 2 * s / 6), x), size=(H, W), mode=mode, align_corners=d.align_corners)
        m.close(y, want, 1e-4, "downsample:blur-then-interpolate", f"factor {s} {mode}")
        m.small((m.call(d, 3 * x + 1) - 3 * y - 1).abs(), 1e-4, "downsample:affine")
        m.small((m.call(d, x.flip(-1)) - y.flip(-1)).abs(), 2e-4, "downsample:mirror-equivariant")
        m.small((m.call(d, x.flip(-2)) - y.flip(-2)).abs(), 2e-4, "downsample:mirror-equivariant")
        if b > 1:
            m.close(m.call(d, x[:1]), y[:1], 1e-5, "downsample:images-independent")
        # a linear ramp keeps its values away from the borders
        r = (torch.arange(h, dtype=T32)[:, None] * 0.3 + torch.arange(w, dtype=T32)[None] * 0.1)[None, None]
        z = ref.npf(m.call(d, r))[0, 0]
        if not d.align_corners and H > 6 and W > 6:
            i, j = (np.arange(H) + 0.5) * h / H - 0.5, (np.arange(W) + 0.5) * w / W - 0.5
            e = 3
            k = (i > lo / 2 + e) & (i < h - lo / 2 - e), (j > lo / 2 + e) & (j < w - lo / 2 - e)
            want = 0.3 * i[:, None] + 0.1 * j[None]
            # (cubic interpolation with the usual coefficient does not reproduce ramps exactly)
            m.small(abs(z - want)[np.ix_(*k)], 0.05 if mode == "bicubic" else 1e-3, "downsample:ramp")
