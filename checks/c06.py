"""C06 disorientations."""
import math

import numpy as np
import torch

import ebsdtorch.s2_and_so3.laue_fz_misori as M
import ebsdtorch.s2_and_so3.laue_fz_ori as F
from vlib import laue, ref, rots
from vlib.core import Prop

PROP = Prop(
    "C06",
    "a case is one orientation pair under one pair of Laue classes, function and dtype; pairs mix uniform, identical, antipodal, "
    "symmetry-equivalent, nearly equal, half-turn and zone-boundary pairs",
    ["orientation equivalents are L q (sample-to-crystal convention of the pattern simulation); a misorientation q1 q2* then has equivalents L1 m L2",
     "misori_to_fz_laue is judged in its documented form: second group in front, first group behind"],
)
ANG = [("ori", F.disori_angle_laue), ("misori", M.disori_angle_laue)]
DIS = [("disorientation", F.disorientation), ("disorientation_naive", M.disorientation_naive)]
DTS = [(torch.float64, 1e-7, 1e-9), (torch.float32, 2.5e-3, 4e-6)]


def coset(mq, k1, k2):
    a = ref.qmul(laue.GROUPS[k1][None, :, None], mq[:, None, None])
    return ref.qmul(a, laue.GROUPS[k2][None, None]).reshape(len(mq), -1, 4)


def pairs(m, k1, k2, n):
    a, b = rots.workload(m.rng, n), rots.workload(m.rng, n)
    c = min(len(a), len(b))
    a, b = a[:c].copy(), b[:c].copy()
    s = c // 8
    b[:s] = a[:s]
    b[s : 2 * s] = -a[s : 2 * s]
    r = m.rng
    l1 = laue.GROUPS[k1][r.integers(0, laue.ORDER[k1], s)]
    l2 = laue.GROUPS[k2][r.integers(0, laue.ORDER[k2], s)]
    b[2 * s : 3 * s] = ref.qmul(ref.qconj(l2), ref.qmul(l1, a[2 * s : 3 * s]))
    b[3 * s : 4 * s] = ref.qnorm(a[3 * s : 4 * s] + 10 ** r.uniform(-9, -1, (s, 1)) * r.normal(size=(s, 4)))
    return a, b


ALL = [(i, j) for i in range(1, 12) for j in range(1, 12)]


def some(m, n):
    """all same-class pairs and a rotating share of the mixed ones."""
    mixed = [p for p in ALL if p[0] != p[1]]
    i = m.rng.permutation(len(mixed))[: n]
    return [(k, k) for k in range(1, 12)] + [mixed[x] for x in i]


@PROP.scenario("minimal")
def minimal(m):
    for k1, k2 in some(m, m.n(40, 110)):
        a, b = pairs(m, k1, k2, m.n(40, 100))
        for dt, tang, t in DTS:
            at, bt = torch.tensor(a, dtype=dt), torch.tensor(b, dtype=dt)
            A, B = ref.npf(at), ref.npf(bt)
            mq = ref.qmul(A, ref.qconj(B))
            orb = coset(mq, k1, k2)
            w = np.clip(abs(orb[..., 0]).max(1), 0, 1)
            want = 2 * np.arccos(w)
            for nm, fn in ANG:
                g = m.call(fn, at, bt, k1, k2)
                m.shape(g, (len(a),), f"angle:{nm}:shape")
                m.expect(g.dtype == dt, f"angle:{nm}:dtype")
                G = ref.npf(g)
                m.expect(bool(np.isfinite(G).all()), f"angle:{nm}:finite", f"Laue {k1},{k2}", a=at[torch.isnan(g)], b=bt[torch.isnan(g)])
                m.small(abs(np.cos(G / 2) - w), 2 * t, f"angle:{nm}:minimal", f"Laue {k1},{k2}", rows={"a": at, "b": bt})
                m.small(abs(G - want), tang, f"angle:{nm}:radians", f"Laue {k1},{k2}", rows={"a": at, "b": bt})
                m.expect(bool((G >= 0).all()), f"angle:{nm}:nonneg")
            for nm, fn in DIS:
                q = m.call(fn, at, bt, k1, k2)
                m.shape(q, (len(a), 4), f"{nm}:shape")
                Q = ref.npf(q)
                m.small(abs(np.linalg.norm(Q, axis=1) - 1), 4 * t, f"{nm}:unit", rows={"a": at, "b": bt})
                d = abs(np.einsum("nk,nbk->nb", Q, orb)).max(1)
                m.small(abs(1 - d), 4 * t, f"{nm}:equivalent", f"Laue {k1},{k2}", rows={"a": at, "b": bt})
                m.small(abs(abs(Q[:, 0]) - w), 4 * t, f"{nm}:minimal", f"Laue {k1},{k2}", rows={"a": at, "b": bt})
            m.seen(np.hstack([a, b]), tag=f"{k1},{k2},{dt}")
        m.sample(laue=[k1, k2], a=at[:1], b=bt[:1], angle=g[:1])


@PROP.scenario("misorientation")
def misori(m):
    for k1, k2 in some(m, m.n(40, 110)):
        q = rots.workload(m.rng, m.n(60, 200))
        for dt, _, t in DTS:
            qt = torch.tensor(q, dtype=dt)
            out = m.call(M.misori_to_fz_laue, qt, k1, k2)
            m.shape(out, (len(q), 4), "misori:shape")
            orb = coset(ref.npf(qt), k2, k1)
            O = ref.npf(out)
            m.small(abs(1 - abs(np.einsum("nk,nbk->nb", O, orb)).max(1)), 4 * t, "misori:equivalent", f"Laue {k1},{k2}", rows=qt)
            m.small(abs(abs(O[:, 0]) - abs(orb[..., 0]).max(1)), 4 * t, "misori:minimal", f"Laue {k1},{k2}", rows=qt)
            m.seen(q, tag=f"{k1},{k2},{dt}")


@PROP.scenario("metric")
def metric(m):
    """metric axioms and symmetry invariance observed on the library's own answers."""
    for k1, k2 in some(m, m.n(40, 110)):
        a, b = pairs(m, k1, k2, m.n(40, 120))
        n = len(a)
        at, bt = torch.tensor(a), torch.tensor(b)
        for nm, fn in ANG:
            d = ref.npf(m.call(fn, at, bt, k1, k2))
            m.small(abs(ref.npf(m.call(fn, bt, at, k2, k1)) - d), 2e-7, f"metric:{nm}:symmetric", f"Laue {k1},{k2}", rows={"a": at, "b": bt})
            g1 = laue.GROUPS[k1][m.rng.integers(0, laue.ORDER[k1], n)]
            g2 = laue.GROUPS[k2][m.rng.integers(0, laue.ORDER[k2], n)]
            s = m.rng.choice([-1.0, 1.0], (n, 1))
            e = ref.npf(m.call(fn, torch.tensor(ref.qmul(g1, a) * s), torch.tensor(ref.qmul(g2, b)), k1, k2))
            m.small(abs(e - d), 2e-7, f"metric:{nm}:invariant", f"Laue {k1},{k2}", rows={"a": at, "b": bt})
            # a common rotation of the sample changes nothing
            R = ref.rand_q(m.rng, 1)
            e = ref.npf(m.call(fn, torch.tensor(ref.qmul(a, R)), torch.tensor(ref.qmul(b, R)), k1, k2))
            m.small(abs(e - d), 2e-7, f"metric:{nm}:sample-rotation", rows={"a": at, "b": bt})
            if k1 == k2:
                c = torch.tensor(rots.workload(m.rng, n)[:n])
                if len(c) == n:
                    ac = ref.npf(m.call(fn, at, c, k1, k1))
                    cb = ref.npf(m.call(fn, c, bt, k1, k1))
                    m.small(np.maximum(0, d - ac - cb), 1e-6, f"metric:{nm}:triangle", f"Laue {k1}", rows={"a": at, "b": bt})
                fz = m.call(F.ori_to_fz_laue, at, k1)
                m.small(ref.npf(m.call(fn, at, fz, k1, k1)), 2e-7, f"metric:{nm}:reduction-is-equivalent", f"Laue {k1}", rows=at)
                eqs = m.call(F.ori_equiv_laue, at, k1)
                z = m.call(fn, at[:, None].expand(-1, laue.ORDER[k1], -1).contiguous(), eqs, k1, k1)
                m.small(ref.npf(z), 2e-7, f"metric:{nm}:orbit-at-zero", f"Laue {k1}")
                far = d > 1e-6
                m.expect(bool(far[~np.isin(np.arange(n), np.arange(4 * (n // 8)))].mean() > 0.8), f"metric:{nm}:separates", f"Laue {k1}")
            m.seen(np.hstack([a, b]), tag=f"{k1},{k2},{nm}")


@PROP.scenario("float32-identical")
def f32(m):
    """identical and equivalent orientations in single precision: zero up to arccos rounding, never NaN."""
    for k in range(1, 12):
        a = ref.rand_q(m.rng, m.n(2000, 20000))
        at = torch.tensor(a, dtype=torch.float32)
        for nm, fn in ANG:
            d = m.call(fn, at, at, k, k)
            m.small(ref.npf(d), 2.5e-3, f"identical:{nm}", f"Laue {k}", rows=at)
        d = m.call(F.ori_angle_laue, at, at, k)
        m.small(ref.npf(d), 2.5e-3, "identical:ori_angle", f"Laue {k}", rows=at)
        m.seen(a, tag=str(k))


@PROP.scenario("shapes")
def shapes(m):
    a, b = torch.tensor(ref.rand_q(m.rng, 24)), torch.tensor(ref.rand_q(m.rng, 24))
    for k1, k2 in some(m, 12):
        for nm, fn in ANG + DIS + [("misori", lambda x, y, i, j: M.misori_to_fz_laue(x, i, j))]:
            f = m.call(fn, a, b, k1, k2)
            for shp in [(4, 6), (2, 3, 4), (24, 1)]:
                o = m.call(fn, a.reshape(shp + (4,)), b.reshape(shp + (4,)), k1, k2)
                m.shape(o, shp + tuple(f.shape[1:]), f"shape:{nm}")
                m.close(o.reshape(f.shape), f, 1e-12, f"shape:{nm}:rows")
            m.seen((k1, k2, nm))
