"""C08 samplings."""
import math

import numpy as np
import torch

import ebsdtorch.s2_and_so3.laue_fz_ori as FO
import ebsdtorch.s2_and_so3.laue_fz_s2 as FS
import ebsdtorch.s2_and_so3.sampling as SA
from vlib import laue, ref
from vlib.core import Prop

PROP = Prop(
    "C08",
    "a case is one returned sample set (routine, count, class, seed) or one probe of its coverage; sets range from one point to tens of "
    "thousands",
    ["uniformity is judged by cell counts and moments: 6 sigma for random routines, a generous discrepancy bound for lattices",
     "zone samplings by rejection promise the count only approximately (documented): 30 % is accepted for large targets"],
)
CPU = torch.device("cpu")


def caps(m, v, k, tol, key, rows=None):
    """share of points in random caps against the cap area."""
    c = m.rng.normal(size=(k, 3))
    c /= np.linalg.norm(c, axis=1, keepdims=True)
    h = m.rng.uniform(-0.9, 0.95, k)
    got = ((v @ c.T) >= h).mean(0)
    m.small(abs(got - (1 - h) / 2), tol, key, f"{len(v)} points")


def balls(m, q, k, tol, key):
    """share of rotations within an angle of random centres against the Haar measure."""
    c = ref.rand_q(m.rng, k)
    th = m.rng.uniform(0.4, 3.0, k)
    d = 2 * np.arccos(np.clip(abs(q @ c.T), 0, 1))
    m.small(abs((d <= th).mean(0) - (th - np.sin(th)) / math.pi), tol, key, f"{len(q)} rotations")


def nn_angle(q, probe, chunk=400):
    out = []
    for i in range(0, len(probe), chunk):
        w = abs(probe[i : i + chunk] @ q.T)
        out.append(w)
    return np.concatenate(out)


@PROP.scenario("s2-fibonacci")
def s2_fib(m):
    for mode in ("avg", "max"):
        for n in [1, 2, 3, 10, 23, 24, 100, 177, 500, 889, 1000, int(m.rng.integers(1000, 4000)), 12000]:
            p = m.call(SA.s2_fibonacci, n, CPU, mode)
            m.shape(p, (n, 3), f"s2_fibonacci:{mode}:count")
            P = ref.npf(p)
            if n == 1 and mode == "max":
                m.small(abs(np.linalg.norm(P, axis=1) - 1), 1e-9, f"s2_fibonacci:{mode}:unit")
            m.small(abs(np.linalg.norm(P, axis=1) - 1), 1e-9, f"s2_fibonacci:{mode}:unit", f"n={n}")
            m.expect(torch.equal(p, m.call(SA.s2_fibonacci, n, CPU, mode)), "s2_fibonacci:repeatable")
            if n >= 100:
                caps(m, P, 60, 1.5 / n**0.5 * (3 if n < 300 else 1), f"s2_fibonacci:{mode}:uniform")
                m.small(abs(P.mean(0)), 3 / n, f"s2_fibonacci:{mode}:centred")
                m.small(abs(P.T @ P / n - np.eye(3) / 3), (8 if mode == "avg" else 40) / n, f"s2_fibonacci:{mode}:isotropic")
                i = m.rng.permutation(n)[:300]
                d = np.linalg.norm(P[i][:, None] - P[None], axis=-1)
                d[np.arange(len(i)), i] = 9
                # the golden angle keeps neighbours 3.04 to 3.4 spacings apart, half or twice the angle only 2.3 to 3.0
                m.small(np.maximum(0, 2.9 / n**0.5 - d.min(1)), 0, f"s2_fibonacci:{mode}:no-cluster", f"n={n} nearest {d.min():.4f}")
                m.small(max(0.0, 3.05 / n**0.5 - d.min(1).mean()), 0, f"s2_fibonacci:{mode}:spacing", f"n={n}")
                m.small(abs(P.mean(0)[2]), 0.5 / n, f"s2_fibonacci:{mode}:poles-alike", f"n={n}")
                pr = m.rng.normal(size=(400, 3))
                pr /= np.linalg.norm(pr, axis=1, keepdims=True)
                pr = np.concatenate([pr, [[0, 0, 1], [0, 0, -1]]])
                gap = np.linalg.norm(pr[:, None] - P[None], axis=-1).min(1)
                m.small(gap, (3.2 if mode == "avg" else 16) / n**0.5, f"s2_fibonacci:{mode}:no-gap", f"n={n}")
                m.small(gap[abs(pr[:, 2]) < 0.9], (3.2 if mode == "avg" else 8) / n**0.5, f"s2_fibonacci:{mode}:no-gap-off-pole", f"n={n}")
            m.seen((mode, n))
        for n in (450_000, 650_000):  # other offsets
            P = ref.npf(m.shape(m.call(SA.s2_fibonacci, n, CPU, mode), (n, 3), f"s2_fibonacci:{mode}:count"))
            m.small(abs(np.linalg.norm(P, axis=1) - 1), 1e-9, f"s2_fibonacci:{mode}:unit", f"n={n}")
            caps(m, P, 30, 1.5 / n**0.5, f"s2_fibonacci:{mode}:uniform")
            m.small(abs(P.mean(0)), 3 / n, f"s2_fibonacci:{mode}:centred")
            m.small(abs(P.T @ P / n - np.eye(3) / 3), (8 if mode == "avg" else 500) / n, f"s2_fibonacci:{mode}:isotropic")
            for i in m.rng.integers(0, n, 20):  # nearest neighbours stay apart everywhere, at most a spacing away
                d = np.sort(np.linalg.norm(P - P[i], axis=1))[1:7]
                m.small(max(0.0, 2.7 / n**0.5 - d[0]), 0, f"s2_fibonacci:{mode}:no-cluster", f"n={n} nearest {d[0]}")
                if abs(P[i, 2]) < 0.99:
                    m.small(d[-1], 9 / n**0.5, f"s2_fibonacci:{mode}:no-gap-off-pole", f"n={n}")
            m.seen((mode, n))
    m.sample(n=n, first=p[:2])


@PROP.scenario("so3-lattices")
def so3_lattice(m):
    for n in [1, 2, 7, 100, 1000, int(m.rng.integers(1000, 5000)), 20000]:
        q = m.call(SA.so3_fibonacci, n, CPU)
        m.shape(q, (n, 4), "so3_fibonacci:count")
        Q = ref.npf(q)
        m.small(abs(np.linalg.norm(Q, axis=1) - 1), 1e-9, "so3_fibonacci:unit", f"n={n}")
        if n >= 100:
            m.small(abs(Q.T @ Q / n - np.eye(4) / 4), 6 / n**0.75, "so3_fibonacci:isotropic", f"n={n}")
        if n >= 1000:
            balls(m, Q, 60, 1.2 / n**0.5, "so3_fibonacci:uniform")
            w = nn_angle(Q, Q[m.rng.permutation(n)[:200]])
            w = np.sort(w, 1)[:, -2]
            w = 2 * np.arccos(np.clip(w, 0, 1))
            m.small(np.maximum(0, 2.3 / n ** (1 / 3) - w), 0, "so3_fibonacci:no-cluster", f"n={n}")
            m.small(max(0.0, 2.85 / n ** (1 / 3) - w.mean()), 0, "so3_fibonacci:spacing", f"n={n}")
            w = nn_angle(Q, ref.rand_q(m.rng, 300)).max(1)
            w = 2 * np.arccos(np.clip(w, 0, 1))
            m.small(w, 4.3 / n ** (1 / 3), "so3_fibonacci:no-gap", f"n={n}")
            m.small(w.mean(), 2.35 / n ** (1 / 3), "so3_fibonacci:typical-gap", f"n={n}")
        m.seen(("fib", n))
    for e in [1, 2, 3, 4, 5, 8, 13, 20, int(m.rng.integers(21, 32))]:
        q = m.call(SA.so3_cubochoric_grid, e, CPU)
        m.shape(q, (e**3, 4), "cubochoric_grid:count")
        Q = ref.npf(q)
        m.small(abs(np.linalg.norm(Q, axis=1) - 1), 3e-6, "cubochoric_grid:unit", f"edge={e}")
        m.small(np.maximum(0, -Q[:, 0]), 0, "cubochoric_grid:positive-real")
        if e >= 4 and e % 2 == 0:
            m.small(1 - Q[:, 0].max(), 1e-6, "cubochoric_grid:identity", f"edge={e}")
        if e >= 8:
            m.small(abs(Q.T @ Q / e**3 - np.eye(4) / 4), 1.2 / e, "cubochoric_grid:isotropic", f"edge={e}")
            balls(m, Q, 60, 1.6 / e, "cubochoric_grid:uniform")
            w = nn_angle(Q, Q[m.rng.permutation(e**3)[:200]])
            w = np.sort(w, 1)[:, -2]
            m.small(np.maximum(0, 1.5 / e - 2 * np.arccos(np.clip(w, 0, 1))), 0, "cubochoric_grid:no-cluster", f"edge={e}")
            w = nn_angle(Q, ref.rand_q(m.rng, 400)).max(1)
            m.small(2 * np.arccos(np.clip(w, 0, 1)), 5.3 / e, "cubochoric_grid:no-gap", f"edge={e}")
        m.seen(("grid", e))


@PROP.scenario("random", rounds=2)
def random_(m):
    n = m.n(20000, 60000)
    for name, fn, f64 in (("so3_cu_rand", SA.so3_cu_rand, False), ("so3_uniform_quat", SA.so3_uniform_quat, False),
                          ("so3_uniform_quat64", lambda k, d: SA.so3_uniform_quat(k, d, torch.float64), True)):
        s = int(m.rng.integers(1, 2**31))
        torch.manual_seed(s)
        q = m.call(fn, n, CPU)
        q2 = m.call(fn, n, CPU)
        torch.manual_seed(s)
        r = m.call(fn, n, CPU)
        m.shape(q, (n, 4), f"{name}:count")
        m.expect(torch.equal(q, r), f"{name}:seed-reproduces")
        m.expect(not torch.equal(q, q2), f"{name}:draws-differ")
        if f64:
            m.expect(q.dtype == torch.float64, f"{name}:dtype")
        Q = ref.npf(q)
        m.small(abs(np.linalg.norm(Q, axis=1) - 1), 1e-9 if f64 else 3e-6, f"{name}:unit")
        sg = 6 / n**0.5
        balls(m, Q, 60, sg * 0.5, f"{name}:uniform")
        # E[q_i q_j] = delta/4; the sign convention does not enter
        m.small(abs(Q.T @ Q / n - np.eye(4) / 4), sg * 0.25, f"{name}:isotropic")
        four = np.einsum("ni,nj->ij", Q**2, Q**2) / n
        m.small(abs(four - (np.ones((4, 4)) + 2 * np.eye(4)) / 24), sg * 0.2, f"{name}:fourth-moment")
        ax = Q[:, 1:] / np.linalg.norm(Q[:, 1:], axis=1, keepdims=True) * np.where(Q[:, :1] < 0, -1, 1)
        caps(m, ax, 40, sg * 0.5, f"{name}:axes-uniform")
        # repeated values betray a broken generator
        m.expect(len(np.unique(Q.round(7), axis=0)) > 0.99 * n, f"{name}:distinct")
        if name == "so3_cu_rand":
            m.small(np.maximum(0, -Q[:, 0]), 0, f"{name}:positive-real")
        for k in (1, 2, 5):
            m.shape(m.call(fn, k, CPU), (k, 4), f"{name}:count")
        m.seen((name, s))
        m.seen(Q[:200])


def in_zone(Q, k):
    w = abs(ref.qmul(laue.GROUPS[k][None], Q[:, None])[..., 0])
    return w.max(1) - abs(Q[:, 0])


@PROP.scenario("zone-orientations")
def zone(m):
    for k in range(1, 12):
        tgt = int(m.rng.integers(2000, 6000))
        s = m.call(FO.sample_ori_fz_laue, k, tgt, CPU)
        m.shape(s, (None, 4), "zone:shape")
        m.small(abs(len(s) / tgt - 1), 0.3, "zone:count", f"Laue {k}: {len(s)} for {tgt}")
        ordered = m.call(FO.sample_ori_fz_laue, k, tgt, CPU, False)
        for nm, S in (("zone", s), ("zone-ordered", ordered)):
            Q = ref.npf(S)
            m.small(abs(np.linalg.norm(Q, axis=1) - 1), 3e-6, f"{nm}:unit")
            m.small(in_zone(Q, k), 2e-6, f"{nm}:inside", f"Laue {k}", rows=S)
        a = np.array(sorted(map(tuple, ref.npf(s).round(6))))
        b = np.array(sorted(map(tuple, ref.npf(ordered).round(6))))
        m.expect(a.shape == b.shape and np.allclose(a, b, atol=1e-5), "zone:permutation-only", f"Laue {k}")
        m.expect(len(np.unique(ref.npf(s).round(6), axis=0)) == len(s), "zone:distinct", f"Laue {k}")
        # completeness: the symmetric copies fill SO(3) uniformly
        Q = ref.npf(s)
        full = ref.qmul(laue.GROUPS[k][None], Q[:, None]).reshape(-1, 4)
        balls(m, full, 40, 3.5 / len(full) ** (1 / 3), "zone:fills-SO3")
        d = ref.rand_q(m.rng, 150)
        gap = 2 * np.arccos(np.clip(nn_angle(full, d).max(1), 0, 1))
        m.small(gap, 9.0 / len(full) ** (1 / 3), "zone:no-gap", f"Laue {k}")
        m.seen(Q[:300], tag=str(k))


@PROP.scenario("zone-resolution")
def resolution(m):
    for k in range(1, 12):
        for res in ([float(m.rng.uniform(7, 14))] if k < 3 else [float(m.rng.uniform(4.5, 7)), float(m.rng.uniform(8, 15))]):
            s = m.call(FO.sample_ori_fz_laue_angle, k, res, CPU)
            m.shape(s, (None, 4), "angle:shape")
            Q = ref.npf(s)
            m.small(abs(np.linalg.norm(Q, axis=1) - 1), 3e-6, "angle:unit")
            m.small(in_zone(Q, k), 2e-6, "angle:inside", f"Laue {k}", rows=s)
            p = ref.rand_q(m.rng, m.n(250, 1000))
            orb = ref.qmul(laue.GROUPS[k][None], p[:, None])
            w = np.array([abs(o @ Q.T).max() for o in orb])
            gap = np.degrees(2 * np.arccos(np.clip(w, 0, 1)))
            m.small(gap / res, 2.0, "angle:covering", f"Laue {k} resolution {res:.2f} deg, {len(s)} samples")
            m.small(gap.mean() / res, 0.65, "angle:mean-covering", f"Laue {k} resolution {res:.2f} deg, {len(s)} samples")
            m.small(np.quantile(gap, 0.95) / res, 1.1, "angle:typical-covering", f"Laue {k} resolution {res:.2f} deg, {len(s)} samples")
            # and not orders of magnitude finer than asked for
            m.small(0.25 - gap.mean() / res, 0, "angle:not-oversampled", f"Laue {k}")
            m.expect(len(np.unique(Q.round(6), axis=0)) == len(Q), "angle:distinct")
            un = m.call(FO.sample_ori_fz_laue_angle, k, res, CPU, False)
            m.expect(len(un) == len(s), "angle:permutation-only")
            m.seen(p, tag=f"{k}{res}")
    m.sample(laue=k, resolution=res, samples=len(s), worst_gap=float(gap.max()))


@PROP.scenario("zone-directions")
def directions(m):
    for k in range(1, 12):
        tgt = int(m.rng.integers(400, 1500))
        for nm, fn in (("fibonacci", FS.sample_s2_fz_laue_fibonacci), ("rosca", FS.sample_s2_fz_laue_rosca)):
            p = m.call(fn, k, tgt, CPU)
            m.shape(p, (None, 3), f"{nm}:shape")
            P = ref.npf(p)
            m.small(abs(len(P) / tgt - 1), 0.3, f"{nm}:count", f"Laue {k}: {len(P)} for {tgt}")
            m.small(abs(np.linalg.norm(P, axis=1) - 1), 3e-6, f"{nm}:unit")
            m.expect(bool(m.call(FS.s2_in_fz_laue, p, k).all()), f"{nm}:inside", f"Laue {k}")
            m.expect(len(np.unique(P.round(7), axis=0)) == len(P), f"{nm}:distinct", f"Laue {k}")
            R = ref.q_to_R(laue.GROUPS[k])
            full = np.einsum("gij,nj->gni", R, P).reshape(-1, 3)
            full = np.concatenate([full, -full])
            caps(m, full, 40, 3.0 / len(P) ** 0.5, f"{nm}:fills-sphere")
            pr = m.rng.normal(size=(200, 3))
            pr /= np.linalg.norm(pr, axis=1, keepdims=True)
            gap = np.sqrt(np.maximum(0, 2 - 2 * (pr @ full.T).max(1)))
            m.small(gap, 5.0 / len(full) ** 0.5, f"{nm}:no-gap", f"Laue {k}")
            m.seen(P[:300], tag=f"{nm}{k}")
