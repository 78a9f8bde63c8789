"""Detector geometry written from the ray picture, independent of the code's formulas."""
import numpy as np


def tilt_R(t_deg, sx_deg):
    """rotation detector -> sample; t = detector tilt minus sample tilt, sx = secondary tilt (degrees)."""
    t, s = np.radians(np.asarray(t_deg, float)), np.radians(np.asarray(sx_deg, float))
    t, s = np.broadcast_arrays(t, s)
    z, o = np.zeros_like(t), np.ones_like(t)
    # at t = -90 the frames coincide; t turns about the detector's row-parallel axis
    y = np.stack([-np.sin(t), z, np.cos(t), z, o, z, -np.cos(t), z, -np.sin(t)], -1).reshape(t.shape + (3, 3))
    x = np.stack([o, z, z, z, np.cos(s), np.sin(s), z, -np.sin(s), np.cos(s)], -1).reshape(t.shape + (3, 3))
    return y @ x


def pixel_offsets(pix, pc, shape):
    """vector source -> pixel centre in detector axes: pixel k is centred at k + 1/2, pcz counts detector heights."""
    pix, pc = np.asarray(pix, float), np.asarray(pc, float)
    H, W = shape
    d = [pix[..., 0] + 0.5 - pc[..., 1] * H, pix[..., 1] + 0.5 - pc[..., 0] * W]
    return np.stack([*d, np.broadcast_to(pc[..., 2] * H, d[0].shape)], -1)


def pixel_positions(pix, pc, shape, t_deg, sx_deg):
    return np.einsum("...ij,...j->...i", tilt_R(t_deg, sx_deg), pixel_offsets(pix, pc, shape))


def grid(shape, b=(1, 1)):
    """centres of (binned) pixels as means of the pixel indices they cover, row-major."""
    i = np.arange(shape[0]).reshape(-1, b[0]).mean(1)
    j = np.arange(shape[1]).reshape(-1, b[1]).mean(1)
    return np.stack(np.meshgrid(i, j, indexing="ij"), -1).reshape(-1, 2)


def rand_geom(rng):
    """detector shape, pattern centre, tilts (sample x, sample y, detector)."""
    H, W = int(rng.integers(1, 9)) * 12, int(rng.integers(1, 9)) * 12
    if rng.random() < 0.3:
        W = H
    pc = (float(rng.uniform(0.1, 0.9)), float(rng.uniform(0, 1)), float(rng.uniform(0.3, 1.2)))
    tilts = (float(rng.choice([0, rng.uniform(-8, 8)])), float(rng.choice([70, rng.uniform(55, 80)])), float(rng.choice([0, rng.uniform(-15, 15)])))
    return (H, W), pc, tilts


def rosca(v):
    """equal-area square coordinates of a direction, the same for both hemispheres (|z|)."""
    v = v / np.linalg.norm(v, axis=-1, keepdims=True)
    x, y, z = v[..., 0], v[..., 1], abs(v[..., 2])
    r = np.sqrt(np.maximum(0, 1 - z))  # square half-width 1 at the equator
    sw = abs(y) > abs(x)
    big, sml = np.where(sw, y, x), np.where(sw, x, y)
    s = np.where(big < 0, -1.0, 1.0)
    a = s * r
    b = s * r * np.arctan2(sml * s, abs(big)) * 4 / np.pi
    return np.stack([np.where(sw, b, a), np.where(sw, a, b)], -1)


def unrosca(p):
    """northern direction of a square point."""
    x, y = p[..., 0], p[..., 1]
    sw = abs(y) > abs(x)
    big, sml = np.where(sw, y, x), np.where(sw, x, y)
    z = 1 - big**2
    rho = np.sqrt(np.maximum(0, 1 - z**2)) * np.where(big < 0, -1, 1)
    t = np.divide(sml, big, out=np.zeros_like(big), where=big != 0) * np.pi / 4
    c, s = rho * np.cos(t), rho * np.sin(t)
    return np.stack([np.where(sw, s, c), np.where(sw, c, s), z], -1)


def lookup(north, south, v, mode="bilinear"):
    """pixel-centred interpolation of the hemisphere image selected by the sign of z, edges replicated."""
    p = rosca(v)
    H, W = north.shape
    u = np.clip(((p[..., 0] + 1) * W - 1) / 2, 0, W - 1)
    w = np.clip(((p[..., 1] + 1) * H - 1) / 2, 0, H - 1)
    img = np.stack([north, south])
    h = (v[..., 2] < 0).astype(int)
    if mode == "nearest":
        return img[h, np.rint(w).astype(int), np.rint(u).astype(int)]
    i, j = np.floor(w).astype(int), np.floor(u).astype(int)
    i, j = np.minimum(i, max(H - 2, 0)), np.minimum(j, max(W - 2, 0))
    fi, fj = w - i, u - j
    i1, j1 = np.minimum(i + 1, H - 1), np.minimum(j + 1, W - 1)
    return ((1 - fi) * (1 - fj) * img[h, i, j] + (1 - fi) * fj * img[h, i, j1] + fi * (1 - fj) * img[h, i1, j] + fi * fj * img[h, i1, j1])


def node_dirs(H, W):
    """northern directions of the pixel centres, row-major."""
    y, x = np.meshgrid((np.arange(H) + 0.5) / H * 2 - 1, (np.arange(W) + 0.5) / W * 2 - 1, indexing="ij")
    return unrosca(np.stack([x, y], -1).reshape(-1, 2))
