"""C09 rigid-motion exponential and logarithm."""
import math

import numpy as np
import torch

import ebsdtorch.lie_algebra.se3 as S
from vlib import ref
from vlib.core import Prop

PROP = Prop(
    "C09",
    "a case is one twist (rotation vector, translation) at one dtype; angles sweep 0, 1e-12..1e-1, every Taylor threshold from both sides, "
    "and pi minus 1..1e-7, translations 1e-6..1e4",
    ["float32 carries the accuracy the module documents: series branches lose up to 1e-4 near 1e-3 rad, quaternion logs lose small angles",
     "unit batch dimension or more; scalars without a batch dimension are outside the module's contract"],
)
ANGLES = [0, 1e-15, 1e-12, 1e-9, 1e-7, 1e-6, 1e-5, 1e-4, 9e-4, 0.000999, 0.001001, 1.2e-3, 3e-3, 9e-3, 0.0101, 0.03, 0.0499, 0.0501, 0.06, 0.1, 0.5, 1,
          math.pi / 2, 2, 2.5, 3, 3.1, math.pi - 1e-2, math.pi - 1e-3, math.pi - 1e-4, math.pi - 1e-5, math.pi - 1e-6]


def exact(v):
    """closed form in long double: R, V t."""
    v = v.astype(np.longdouble)
    w, t = v[:, :3], v[:, 3:]
    th = np.sqrt((w**2).sum(1))
    big = th > 0.5
    s = np.where(th > 0, th, 1)
    t2 = th**2

    def series(c0, k0):
        out, term = np.zeros_like(th), np.full_like(th, c0)
        for i in range(14):
            out = out + term
            a = k0 + 2 * i
            term = -term * t2 / ((a + 1) * (a + 2))
        return out

    A = np.where(big, np.sin(s) / s, series(np.longdouble(1), 1))
    B = np.where(big, (1 - np.cos(s)) / s**2, series(np.longdouble(1) / 2, 2))
    C = np.where(big, (s - np.sin(s)) / s**3, series(np.longdouble(1) / 6, 3))
    K = np.zeros((len(v), 3, 3), np.longdouble)
    K[:, 0, 1], K[:, 0, 2], K[:, 1, 2] = -w[:, 2], w[:, 1], -w[:, 0]
    K -= K.transpose(0, 2, 1).copy()
    K2 = K @ K
    I = np.eye(3, dtype=np.longdouble)
    R = I + A[:, None, None] * K + B[:, None, None] * K2
    V = I + B[:, None, None] * K + C[:, None, None] * K2
    return R.astype(float), np.einsum("nij,nj->ni", V, t).astype(float), V.astype(float)


def twists(m, n, dt):
    a = m.rng.normal(size=(n, 3))
    i = m.rng.random(n) < 0.2
    a[i] = np.eye(3)[m.rng.integers(0, 3, i.sum())] * m.rng.choice([-1, 1], (i.sum(), 1))
    a /= np.linalg.norm(a, axis=1, keepdims=True)
    th = np.where(m.rng.random(n) < 0.75, np.array(ANGLES)[m.rng.integers(0, len(ANGLES), n)], m.rng.uniform(0, math.pi - 1e-4, n))
    if dt == torch.float32:
        th = np.minimum(th, math.pi - 1e-4)
    t = m.rng.normal(size=(n, 3)) * 10 ** m.rng.uniform(-6, 4, (n, 1))
    t[m.rng.random(n) < 0.05] = 0
    return torch.tensor(np.concatenate([a * th[:, None], t], 1), dtype=dt)


@PROP.scenario("exponential", rounds=2)
def exponential(m):
    for dt, tr, tt in ((torch.float64, 5e-13, 1e-11), (torch.float32, 1.2e-6, 1e-4)):
        v = twists(m, m.n(10000, 50000), dt)
        V = ref.npf(v)
        R, t, _ = exact(V)
        sc = 1 + np.linalg.norm(V[:, 3:], axis=1, keepdims=True)
        E = m.call(S.se3_exp_map_om, v)
        m.shape(E, (len(v), 4, 4), "exp:shape")
        m.expect(E.dtype == dt, "exp:dtype")
        En = ref.npf(E)
        m.small(abs(En[:, :3, :3] - R), tr, "exp:rotation", rows=v)
        m.small(abs(En[:, :3, 3] - t) / sc, tt, "exp:translation", rows=v)
        m.small(abs(En[:, 3] - [0, 0, 0, 1]), 0, "exp:last-row", rows=v)
        m.small(abs(En[:, :3, :3] @ En[:, :3, :3].transpose(0, 2, 1) - np.eye(3)), 3 * tr, "exp:rigid", rows=v)
        m.small(abs(np.linalg.det(En[:, :3, :3]) - 1), 3 * tr, "exp:proper", rows=v)
        Rs, ts = m.call(S.se3_exp_map_split, v)
        m.shape(Rs, (len(v), 3, 3), "exp-split:shape")
        m.shape(ts, (len(v), 3), "exp-split:shape")
        m.small(abs(ref.npf(Rs) - R), tr, "exp-split:rotation", rows=v)
        m.small(abs(ref.npf(ts) - t) / sc, tt, "exp-split:translation", rows=v)
        q, tq = m.call(S.se3_exp_map_quat, v)
        m.shape(q, (len(v), 4), "exp-quat:shape")
        m.shape(tq, (len(v), 3), "exp-quat:shape")
        Q = ref.npf(q)
        m.small(abs(np.linalg.norm(Q, axis=1) - 1), 1e-9 if dt == torch.float64 else 1e-6, "exp-quat:unit", rows=v)
        m.small(abs(ref.q_to_R(Q) - R), 1e-9 if dt == torch.float64 else 2e-6, "exp-quat:rotation", rows=v)
        m.small(abs(ref.npf(tq) - t) / sc, tt, "exp-quat:translation", rows=v)
        m.seen(v, tag=str(dt))
        # parts used by the variants
        w = v[:, :3]
        m.small(abs(ref.npf(m.call(S.w_exp, w)) - R), tr, "w_exp", rows=v)
        _, _, Vm = exact(V)
        m.small(abs(ref.npf(m.call(S.w_to_v, w)) - Vm), tr if dt == torch.float64 else 2e-5, "w_to_v", rows=v)
        vi = ref.npf(m.call(S.w_to_v_inv, w))
        m.small(abs(vi @ Vm - np.eye(3)), 1e-11 if dt == torch.float64 else 2e-4, "w_to_v_inv", rows=v)
        K = ref.npf(m.call(S.skew, w))
        x = m.rng.normal(size=(len(v), 3))
        m.small(abs(np.einsum("nij,nj->ni", K, x) - np.cross(V[:, :3], x)), 1e-5 if dt == torch.float32 else 1e-12, "skew", rows=v)
    m.sample(twist=v[:2], exp=E[:1])


@PROP.scenario("logarithm", rounds=2)
def logarithm(m):
    for dt, tol in ((torch.float64, 2e-11), (torch.float32, 6e-5)):
        v = twists(m, m.n(10000, 50000), dt)
        V = ref.npf(v)
        R, t, _ = exact(V)
        M = np.tile(np.eye(4), (len(v), 1, 1))
        M[:, :3, :3], M[:, :3, 3] = R, t
        Mt = torch.tensor(M, dtype=dt)
        sc = 1 + np.linalg.norm(V[:, 3:], axis=1, keepdims=True)
        outs = {
            "log-matrix": m.call(S.se3_log_map_om, Mt),
            "log-split": m.call(S.se3_log_map_split, Mt[:, :3, :3].contiguous(), Mt[:, :3, 3].contiguous()),
        }
        Q = ref.R_to_q(R)
        outs["log-quat"] = m.call(S.se3_log_map_quat, torch.tensor(Q, dtype=dt), torch.tensor(t, dtype=dt))
        for k, o in outs.items():
            m.shape(o, (len(v), 6), f"{k}:shape")
            m.expect(o.dtype == dt, f"{k}:dtype")
            m.expect(bool(torch.isfinite(o).all()), f"{k}:finite")
            # the quaternion cannot carry small angles to full precision in float32, as documented
            wt = tol if k != "log-quat" else (2e-8 if dt == torch.float64 else 1.5e-3)
            m.small(abs(ref.npf(o) - V)[:, :3], wt, f"{k}:rotation", rows=v)
            m.small((abs(ref.npf(o) - V) / sc)[:, 3:], wt, f"{k}:translation", rows=v)
        m.seen(v, tag=str(dt))
    # round trips through the code's own exponential, and composition with the inverse twist
    v = twists(m, m.n(6000, 40000), torch.float64)
    sc = 1 + v[:, 3:].norm(dim=1, keepdim=True)
    E = m.call(S.se3_exp_map_om, v)
    m.small((m.call(S.se3_log_map_om, E) - v).abs() / sc, 1e-10, "round-trip:matrix", rows=v)
    m.small((m.call(S.se3_log_map_split, *m.call(S.se3_exp_map_split, v)) - v).abs() / sc, 1e-10, "round-trip:split", rows=v)
    m.small((m.call(S.se3_log_map_quat, *m.call(S.se3_exp_map_quat, v)) - v).abs() / sc, 2e-8, "round-trip:quat", rows=v)
    m.small((E @ m.call(S.se3_exp_map_om, -v) - torch.eye(4)).abs().amax((1, 2), keepdim=True)[..., 0] / sc, 1e-10, "inverse-twist", rows=v)
    a, b = torch.tensor(m.rng.uniform(0, 1, (2, len(v), 1)))
    m.small((m.call(S.se3_exp_map_om, a * v) @ m.call(S.se3_exp_map_om, b * v) - m.call(S.se3_exp_map_om, (a + b) * v)).abs().amax((1, 2))[:, None] / sc,
            1e-10, "one-parameter-group", rows=v)
    m.sample(twist=v[:2])


@PROP.scenario("batching", thorough_rounds=3)
def batching(m):
    v = twists(m, 24, torch.float64)
    v[0, :3] = 0
    v[1] = 0
    fns = {
        "exp": S.se3_exp_map_om, "split": S.se3_exp_map_split, "quat": S.se3_exp_map_quat,
        "log": lambda x: S.se3_log_map_om(S.se3_exp_map_om(x)),
        "log-split": lambda x: S.se3_log_map_split(*S.se3_exp_map_split(x)),
        "log-quat": lambda x: S.se3_log_map_quat(*S.se3_exp_map_quat(x)),
    }
    # kernels for different layouts may differ in the last bit, which far translations amplify
    sc = 1 + v[:, 3:].norm(dim=1)

    def same(x, f, key):
        w = sc.reshape((-1,) + (1,) * (f.dim() - 1))
        m.close(x.reshape(f.shape) / w, f / w, 1e-10, key)

    for k, fn in fns.items():
        full = m.call(fn, v)
        tup = full if isinstance(full, tuple) else (full,)
        for shp in [(4, 6), (2, 3, 4), (24, 1), (1, 24), (3, 8)]:
            o = m.call(fn, v.reshape(shp + (6,)))
            for f, x in zip(tup, o if isinstance(o, tuple) else (o,)):
                m.shape(x, shp + tuple(f.shape[1:]), f"batch:{k}:shape")
                same(x, f, f"batch:{k}:rows")
            m.seen((k, shp))
        for i in range(len(v)):
            o = m.call(fn, v[i : i + 1])
            for f, x in zip(tup, o if isinstance(o, tuple) else (o,)):
                m.close(x, f[i : i + 1], 1e-10 * sc[i], f"batch:{k}:independent-of-batch")
        o = m.call(fn, torch.cat([v, v], 1)[:, 6:])
        for f, x in zip(tup, o if isinstance(o, tuple) else (o,)):
            same(x, f, f"batch:{k}:strided")
        o = m.call(fn, v.reshape(4, 6, 6).transpose(0, 1))
        for f, x in zip(tup, o if isinstance(o, tuple) else (o,)):
            same(x.transpose(0, 1), f, f"batch:{k}:transposed")


@PROP.scenario("gradients", thorough_rounds=3)
def gradients(m):
    """fits optimise through the exponential, starting from the zero twist."""
    for nm, fn in (("split", S.se3_exp_map_split), ("om", S.se3_exp_map_om)):
        for th in (0.0, 1e-6, 1e-3, 0.3, 2.0):
            a = m.rng.normal(size=(5, 3))
            v = np.concatenate([a / np.linalg.norm(a, axis=1, keepdims=True) * th, m.rng.normal(size=(5, 3))], 1)
            x = torch.tensor(v, requires_grad=True)
            o = m.call(fn, x)
            o = torch.cat([y.reshape(5, -1) for y in (o if isinstance(o, tuple) else (o,))], 1)
            c = torch.tensor(m.rng.normal(size=o.shape))
            (g,) = torch.autograd.grad((o * c).sum(), x)
            h = 1e-6
            num = torch.zeros_like(g)
            for i in range(6):
                d = torch.zeros(6, dtype=torch.float64)
                d[i] = h

                def f(y):
                    z = fn(y)
                    return torch.cat([k.reshape(5, -1) for k in (z if isinstance(z, tuple) else (z,))], 1)

                num[:, i] = ((f(x.detach() + d) - f(x.detach() - d)) * c).sum(1) / (2 * h)
            m.close(g, num, 2e-5, f"gradient:{nm}", f"angle {th}", rows=x.detach())
            m.seen(v, tag=nm)
