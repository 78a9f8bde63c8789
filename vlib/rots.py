"""Workload generators and converters shared by the rotation checks."""
import math

import numpy as np
import torch

from . import ref

REPS = ["qu", "om", "ax", "ro", "ho", "cu", "bu", "zh"]
SIZE = {"qu": (4,), "om": (3, 3), "ax": (4,), "ro": (4,), "ho": (3,), "cu": (3,), "bu": (3,), "zh": (6,)}

# every direct conversion the library publishes
PAIRS = (
    "qu2om qu2ax qu2ro qu2ho qu2cu qu2bu qu2zh "
    "om2qu om2ax om2ro om2ho om2cu om2bu om2zh "
    "ax2qu ax2om ax2ro ax2ho ax2cu ax2bu "
    "ro2qu ro2om ro2ax ro2ho ro2cu ro2bu "
    "ho2qu ho2om ho2ax ho2ro ho2cu ho2bu "
    "cu2qu cu2om cu2ax cu2ro cu2ho cu2bu "
    "bu2qu bu2om bu2ax bu2ro bu2ho bu2cu zh2om zh2qu"
).split()


def std(q):
    q = np.asarray(q, float)
    s = np.where(q[..., :1] < 0, -1.0, 1.0)
    return q * s


def from_q(rep, q, rng=None):
    """Independent float64 description of the rotation q in representation rep."""
    q = ref.qnorm(q)
    if rep == "qu":
        return q
    ax = ref.q_to_ax(q)
    if rep == "ax":
        return ax
    if rep == "om":
        return ref.q_to_R(q)
    if rep == "ro":
        ro = ax.copy()
        half = ax[:, 3] / 2
        ro[:, 3] = np.where(half >= math.pi / 2 - 1e-10, np.inf, np.tan(half))
        return ro
    if rep == "ho":
        return ref.q_to_ho(q)
    if rep == "zh":
        return ref.q_to_R(q)[:, :2].reshape(-1, 6)
    if rep == "bu":
        g = ref.q_to_R(q)
        s = np.hypot(g[:, 2, 0], g[:, 2, 1])
        P = np.arctan2(s, g[:, 2, 2])
        ok = s > 1e-9
        p1 = np.where(ok, np.arctan2(g[:, 2, 0], -g[:, 2, 1]), np.arctan2(g[:, 0, 1], g[:, 0, 0]))
        p2 = np.where(ok, np.arctan2(g[:, 0, 2], g[:, 1, 2]), 0.0)
        P = np.where(ok, P, np.where(g[:, 2, 2] > 0, 0.0, math.pi))
        return np.stack([p1 % (2 * math.pi), P, p2 % (2 * math.pi)], -1)
    raise KeyError(rep)


def to_q(rep, x):
    x = np.asarray(x, float)
    return {
        "qu": lambda v: v,
        "om": ref.R_to_q,
        "ax": ref.ax_to_q,
        "ro": ref.ro_to_q,
        "ho": ref.ho_to_q,
        "cu": ref.cu_to_q,
        "bu": lambda v: ref.R_to_q(ref.bu_to_R(v)),
        "zh": ref.zh_to_q,
    }[rep](x)


def workload(rng, n):
    """Rotations: edge table, uniform, log-uniform small angles, near-half-turns, symmetric axes."""
    out = [ref.edge_q(), ref.rand_q(rng, n)]
    m = max(8, n // 4)
    axes = rng.normal(size=(m, 3))
    axes /= np.linalg.norm(axes, axis=1, keepdims=True)
    small = 10 ** rng.uniform(-6, 0, (m, 1))
    out.append(ref.ax_to_q(np.hstack([axes, small])))
    out.append(ref.ax_to_q(np.hstack([axes, math.pi - 10 ** rng.uniform(-6, 0, (m, 1))])))
    pool = np.array(ref.axis_pool())
    ax2 = pool[rng.integers(0, len(pool), m)]
    out.append(ref.ax_to_q(np.hstack([ax2, rng.uniform(0, math.pi, (m, 1))])))
    # exactly representable half turns on random axes
    out.append(np.hstack([np.zeros((m, 1)), axes]))
    q = np.concatenate(out)
    return q[rng.permutation(len(q))]


def cu_workload(rng, n):
    """Cubochoric points: interior, faces, edges, corners, pyramid boundaries."""
    s = ref.CUBE_SEMI
    pts = [rng.uniform(-s, s, (n, 3))]
    g = np.array(np.meshgrid(*[[-1, -0.5, -1e-3, 0, 1e-3, 0.5, 1]] * 3)).reshape(3, -1).T * s
    pts.append(g)
    f = rng.uniform(-s, s, (n // 4, 3))
    f[np.arange(len(f)), rng.integers(0, 3, len(f))] = np.where(rng.random(len(f)) < 0.5, -s, s)
    pts.append(f)
    d = rng.uniform(-s, s, (n // 4, 3))  # pyramid boundaries |a| == |b|
    d[:, 1] = d[:, 0] * np.where(rng.random(len(d)) < 0.5, -1, 1)
    d = d[np.arange(len(d))[:, None], np.argsort(rng.random((len(d), 3)), 1)]
    pts.append(d)
    return np.concatenate(pts)
