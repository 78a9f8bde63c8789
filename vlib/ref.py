"""Independent float64 reference models (numpy), written from the definitions."""
import itertools
import math

import numpy as np
import torch

PI = math.pi


def t64(x):
    return torch.as_tensor(np.asarray(x), dtype=torch.float64)


def npf(x):
    return x.detach().cpu().to(torch.float64).numpy() if isinstance(x, torch.Tensor) else np.asarray(x, dtype=np.float64)


# ---- quaternions (w, x, y, z), Hamilton product -------------------------
def qmul(a, b):
    a, b = np.broadcast_arrays(np.asarray(a, float), np.asarray(b, float))
    aw, av = a[..., :1], a[..., 1:]
    bw, bv = b[..., :1], b[..., 1:]
    w = aw * bw - (av * bv).sum(-1, keepdims=True)
    v = aw * bv + bw * av + np.cross(av, bv)
    return np.concatenate([w, v], -1)


def qconj(a):
    return np.asarray(a, float) * np.array([1.0, -1, -1, -1])


def qnorm(a):
    a = np.asarray(a, float)
    return a / np.linalg.norm(a, axis=-1, keepdims=True)


def q_to_R(q):
    q = np.asarray(q, float)
    w, x, y, z = np.moveaxis(q, -1, 0)
    n = w * w + x * x + y * y + z * z
    s = 2.0 / n
    R = np.empty(q.shape[:-1] + (3, 3))
    R[..., 0, 0] = 1 - s * (y * y + z * z)
    R[..., 0, 1] = s * (x * y - w * z)
    R[..., 0, 2] = s * (x * z + w * y)
    R[..., 1, 0] = s * (x * y + w * z)
    R[..., 1, 1] = 1 - s * (x * x + z * z)
    R[..., 1, 2] = s * (y * z - w * x)
    R[..., 2, 0] = s * (x * z - w * y)
    R[..., 2, 1] = s * (y * z + w * x)
    R[..., 2, 2] = 1 - s * (x * x + y * y)
    return R


def qangle(a, b):
    """Rotation angle between two quaternions, sign-agnostic and accurate at 0 and pi."""
    a, b = qnorm(a), qnorm(b)
    d = np.minimum(np.linalg.norm(a - b, axis=-1), np.linalg.norm(a + b, axis=-1))
    return 4 * np.arcsin(np.clip(d / 2, 0, math.sqrt(0.5)))


def R_to_q(R):
    """Shepperd / eigen-free robust: pick the largest of the four candidates."""
    R = np.asarray(R, float)
    K = np.empty(R.shape[:-2] + (4, 4))
    m = R
    K[..., 0, 0] = m[..., 0, 0] + m[..., 1, 1] + m[..., 2, 2]
    K[..., 1, 1] = m[..., 0, 0] - m[..., 1, 1] - m[..., 2, 2]
    K[..., 2, 2] = -m[..., 0, 0] + m[..., 1, 1] - m[..., 2, 2]
    K[..., 3, 3] = -m[..., 0, 0] - m[..., 1, 1] + m[..., 2, 2]
    K[..., 0, 1] = K[..., 1, 0] = m[..., 2, 1] - m[..., 1, 2]
    K[..., 0, 2] = K[..., 2, 0] = m[..., 0, 2] - m[..., 2, 0]
    K[..., 0, 3] = K[..., 3, 0] = m[..., 1, 0] - m[..., 0, 1]
    K[..., 1, 2] = K[..., 2, 1] = m[..., 0, 1] + m[..., 1, 0]
    K[..., 1, 3] = K[..., 3, 1] = m[..., 0, 2] + m[..., 2, 0]
    K[..., 2, 3] = K[..., 3, 2] = m[..., 1, 2] + m[..., 2, 1]
    w, v = np.linalg.eigh(K / 3.0)
    q = v[..., :, -1]
    return q * np.where(q[..., :1] < 0, -1.0, 1.0)


def ax_to_q(ax):
    ax = np.asarray(ax, float)
    h = ax[..., 3:4] / 2
    return np.concatenate([np.cos(h), ax[..., :3] * np.sin(h)], -1)


def q_to_ax(q):
    q = qnorm(q)
    q = q * np.where(q[..., :1] < 0, -1.0, 1.0)
    s = np.linalg.norm(q[..., 1:], axis=-1, keepdims=True)
    ang = 2 * np.arctan2(s, q[..., :1])
    v = np.where(s > 0, q[..., 1:] / np.where(s > 0, s, 1), np.array([0.0, 0, 1]))
    return np.concatenate([v, ang], -1)


def ro_to_q(ro):
    ro = np.asarray(ro, float)
    half = np.arctan(ro[..., 3:4])
    return np.concatenate([np.cos(half), ro[..., :3] * np.sin(half)], -1)


def bu_to_R(bu):
    """Bunge's passive g = Z(phi2) X(Phi) Z(phi1)."""
    p1, P, p2 = np.moveaxis(np.asarray(bu, float), -1, 0)
    c1, s1, c, s, c2, s2 = np.cos(p1), np.sin(p1), np.cos(P), np.sin(P), np.cos(p2), np.sin(p2)
    g = np.empty(p1.shape + (3, 3))
    g[..., 0, 0] = c1 * c2 - s1 * s2 * c
    g[..., 0, 1] = s1 * c2 + c1 * s2 * c
    g[..., 0, 2] = s2 * s
    g[..., 1, 0] = -c1 * s2 - s1 * c2 * c
    g[..., 1, 1] = -s1 * s2 + c1 * c2 * c
    g[..., 1, 2] = c2 * s
    g[..., 2, 0] = s1 * s
    g[..., 2, 1] = -c1 * s
    g[..., 2, 2] = c
    return g


def ho_to_q(ho):
    ho = np.asarray(ho, float)
    h = np.linalg.norm(ho, axis=-1)
    # solve 3/4 (w - sin w) = h^3 by bisection + Newton
    lo, hi = np.zeros_like(h), np.full_like(h, PI)
    c = np.minimum(h, (0.75 * PI) ** (1 / 3)) ** 3 * 4 / 3

    def f(w):
        small = w < 0.1
        ws = np.where(small, w, 0)
        ser = ws**3 / 6 - ws**5 / 120 + ws**7 / 5040 - ws**9 / 362880
        return np.where(small, ser, w - np.sin(w))

    for _ in range(100):
        mid = 0.5 * (lo + hi)
        up = f(mid) < c
        lo = np.where(up, mid, lo)
        hi = np.where(up, hi, mid)
    w = 0.5 * (lo + hi)
    n = np.where(h[..., None] > 0, ho / np.where(h > 0, h, 1)[..., None], np.array([0, 0, 1.0]))
    return ax_to_q(np.concatenate([n, w[..., None]], -1))


def q_to_ho(q):
    ax = q_to_ax(q)
    w = ax[..., 3:4]
    ws = np.where(w < 0.1, w, 0)
    f = np.where(w < 0.1, ws**3 / 6 - ws**5 / 120 + ws**7 / 5040 - ws**9 / 362880, w - np.sin(w))
    return ax[..., :3] * (0.75 * f) ** (1 / 3)


CUBE_SEMI = PI ** (2 / 3) / 2
BALL_R = (0.75 * PI) ** (1 / 3)


def cu_to_ho(cu):
    """Rosca-Morawiec-De Graef equal-volume map cube -> ball (scalar loop free)."""
    cu = np.asarray(cu, float)
    out = np.zeros_like(cu)
    a = np.abs(cu)
    big = a.argmax(-1)
    # cyclic pyramids: put the dominant coordinate last, keep handedness irrelevant (map is odd per axis pair)
    perms = {0: [1, 2, 0], 1: [2, 0, 1], 2: [0, 1, 2]}
    sc = (PI / 6) ** (1 / 6)
    pre = math.sqrt(6 / PI)
    for k in range(3):
        sel = big == k
        if not sel.any():
            continue
        x, y, z = np.moveaxis(cu[sel][:, perms[k]] * sc, -1, 0)
        res = np.zeros((sel.sum(), 3))
        axis_only = (x == 0) & (y == 0)
        swap = np.abs(y) < np.abs(x)
        u = np.where(swap, x, y)  # dominant of the two
        v = np.where(swap, y, x)
        us = np.where(u == 0, 1, u)
        q = PI / 12 * v / us
        c, s = np.cos(q), np.sin(q)
        qq = 2**0.25 / math.sqrt(PI / 6) * u / np.sqrt(math.sqrt(2) - c)
        T_u = (math.sqrt(2) * c - 1) * qq
        T_v = math.sqrt(2) * s * qq
        tx = np.where(swap, T_u, T_v)
        ty = np.where(swap, T_v, T_u)
        zz = np.where(z == 0, 1, z)
        cc = tx**2 + ty**2
        ss = PI * cc / (24 * zz**2)
        q2 = np.sqrt(np.clip(1 - ss, 0, None))
        X, Y, Z = tx * q2, ty * q2, pre * z - math.sqrt(PI) * cc / (math.sqrt(24) * zz)
        X = np.where(axis_only, 0, X)
        Y = np.where(axis_only, 0, Y)
        Z = np.where(axis_only, pre * z, Z)
        zero = (z == 0)
        res[:, 0] = np.where(zero, 0, X)
        res[:, 1] = np.where(zero, 0, Y)
        res[:, 2] = np.where(zero, 0, Z)
        tmp = np.empty_like(res)
        tmp[:, perms[k]] = res
        out[sel] = tmp
    return out


def cu_to_q(cu):
    return ho_to_q(cu_to_ho(cu))


def zh_to_q(zh):
    zh = np.asarray(zh, float)
    a, b = zh[..., :3], zh[..., 3:]
    a = a / np.linalg.norm(a, axis=-1, keepdims=True)
    b = b - (a * b).sum(-1, keepdims=True) * a
    b = b / np.linalg.norm(b, axis=-1, keepdims=True)
    return R_to_q(np.stack([a, b, np.cross(a, b)], -2))


def rand_q(rng, n):
    return qnorm(rng.normal(size=(n, 4)))


def axis_pool():
    out = []
    for v in itertools.product([-1, 0, 1], repeat=3):
        if any(v):
            out.append(np.array(v, float))
    out += [np.array(v, float) for v in [(1, 2, 3), (-3, 1, 2), (1e-4, 1, 0), (0, 1e-5, -1), (2, -1, 1e-7)]]
    return [v / np.linalg.norm(v) for v in out]


def edge_q(min_angle=0.0):
    """Identity, half turns, quarter turns, near-identity and near-pi rotations on many axes."""
    angs = [0.0, 1e-3, 0.01, 0.049, 0.051, 0.3, PI / 6, PI / 4, PI / 3, PI / 2, 2 * PI / 3, 3 * PI / 4,
            PI - 0.1, PI - 1e-2, PI - 1e-4, PI]
    rows = []
    for a in axis_pool():
        for w in angs:
            if w >= min_angle:
                rows.append(ax_to_q(np.append(a, w)))
    q = np.array(rows)
    q[np.abs(q) < 1e-16] = 0.0
    return q


def expm(A, terms=28, squarings=8):
    A = np.asarray(A, float) / 2**squarings
    E = np.eye(A.shape[-1]) + np.zeros_like(A)
    T = np.eye(A.shape[-1]) + np.zeros_like(A)
    for k in range(1, terms):
        T = T @ A / k
        E = E + T
    for _ in range(squarings):
        E = E @ E
    return E
