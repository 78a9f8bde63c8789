"""C05 orientation fundamental zones."""
import math

import numpy as np
import torch

import ebsdtorch.s2_and_so3.laue_fz_ori as F
from ebsdtorch.s2_and_so3.quaternions import qu_apply
from vlib import laue, ref, rots
from vlib.core import Prop, _names as nm

PROP = Prop(
    "C05",
    "a case is one orientation reduced, listed or tested under one Laue class and dtype; non-trivial = distinct (operation, class, "
    "dtype, orientation); orientations mix uniform, identity, half turns, zone faces, edges, symmetric axes and orbit members",
    ["orientations take sample directions to crystal directions (the convention of the pattern simulation), so operators act on the left",
     "uniqueness and membership agreement are judged only where the largest real part leads by more than rounding"],
)
DTS = [(torch.float64, 1e-7, 1e-9), (torch.float32, 2e-3, 4e-6)]


def orbit(q, k):
    return ref.qmul(laue.GROUPS[k][None], q[:, None])


def work(m, k, n):
    """workload plus points on the faces and edges of zone k: halfway to a symmetry operator."""
    G = laue.GROUPS[k]
    q = [rots.workload(m.rng, n)]
    if len(G) > 1:
        a = ref.rand_q(m.rng, n // 3)
        g = G[m.rng.integers(1, len(G), len(a))]
        # project onto the set with equal real parts before and after applying g
        d = np.concatenate([g[:, :1] - 1, -g[:, 1:]], 1)  # w(g q) - w(q) is linear in q
        s = np.concatenate([g[:, :1] + 1, -g[:, 1:]], 1)
        d = np.where((m.rng.random(len(a)) < 0.5)[:, None], d, s)
        d = d / np.maximum(np.linalg.norm(d, axis=1, keepdims=True), 1e-300)
        face = ref.qnorm(a - (a * d).sum(1, keepdims=True) * d)
        q += [face, ref.qnorm(face + m.rng.normal(size=face.shape) * 10 ** m.rng.uniform(-12, -2, (len(face), 1)))]
        q += [G, ref.qnorm(G + 1e-4 * m.rng.normal(size=G.shape))]
    q = np.concatenate(q)
    return q * m.rng.choice([-1.0, 1.0], (len(q), 1))


@PROP.scenario("reduce")
def reduce(m):
    for k in range(1, 12):
        q = work(m, k, m.n(250, 1500))
        for dt, tang, t in DTS:
            qt = torch.tensor(q, dtype=dt)
            Q = ref.npf(qt)
            out = m.call(F.ori_to_fz_laue, qt, k)
            m.shape(out, (len(q), 4), "reduce:shape")
            m.expect(out.dtype == dt, "reduce:dtype")
            O = ref.npf(out)
            m.small(abs(np.linalg.norm(O, axis=1) - np.linalg.norm(Q, axis=1)), t, "reduce:unit", rows=qt)
            m.small(np.maximum(0, -O[:, 0]), 0, "reduce:positive-real", rows=qt)
            orb = orbit(Q, k)
            d = ref.qangle(O[:, None].repeat(orb.shape[1], 1), orb)
            m.small(d.min(1), 8 * t, "reduce:same-crystal", f"Laue {k}", rows=qt)
            w = abs(orb[..., 0])
            m.small(w.max(1) - abs(O[:, 0]), t, "reduce:smallest-angle", f"Laue {k}", rows=qt)
            lead = np.sort(w, 1)
            clear = (lead[:, -1] - lead[:, -2] > 1e-4) if w.shape[1] > 1 else np.ones(len(w), bool)
            again = m.call(F.ori_to_fz_laue, out, k)
            m.small(abs(abs(ref.npf(again)[:, 0]) - abs(O[:, 0])), t, "reduce:idempotent-angle", rows=qt)
            m.small(ref.qangle(ref.npf(again), O)[clear], 8 * t, "reduce:idempotent", f"Laue {k}")
            g = laue.GROUPS[k][m.rng.integers(0, laue.ORDER[k], len(q))]
            eq = torch.tensor(ref.qmul(g, Q) * m.rng.choice([-1.0, 1.0], (len(q), 1)), dtype=dt)
            o2 = ref.npf(m.call(F.ori_to_fz_laue, eq, k))
            m.small(ref.qangle(o2, O)[clear], 16 * t, "reduce:one-representative", f"Laue {k}")
            m.small(abs(abs(o2[:, 0]) - abs(O[:, 0])), 4 * t, "reduce:equivalents-same-angle", rows=qt)
            inz = m.call(F.ori_in_fz_laue, out, k)
            m.expect(bool(inz[torch.tensor(clear)].all()), "reduce:lands-inside", f"Laue {k}")
            m.seen(q, tag=f"{k}{dt}")
        m.sample(laue=k, orientation=qt[:1], reduced=out[:1])


@PROP.scenario("crystal-state", rounds=3)
def crystal_state(m):
    """what the pattern simulation sees: crystal directions change only by a symmetry operator."""
    for k in range(1, 12):
        q = torch.tensor(work(m, k, 40))
        v = torch.tensor(m.rng.normal(size=(3, 3)))
        a = ref.npf(m.call(qu_apply, q[:, None], v[None]))
        b = ref.npf(m.call(qu_apply, m.call(F.ori_to_fz_laue, q, k)[:, None], v[None]))
        R = ref.q_to_R(laue.GROUPS[k])
        d = np.linalg.norm(np.einsum("gij,nvj->ngvi", R, a) - b[:, None], axis=-1).max(-1).min(-1)
        m.small(d, 1e-8, "state:directions-equivalent", f"Laue {k}", rows=q)
        m.seen(q, tag=str(k))


@PROP.scenario("membership")
def membership(m):
    n = m.n(4000, 20000)
    for k in range(1, 12):
        q = np.concatenate([ref.rand_q(m.rng, n), work(m, k, 300)])
        q = np.where(q[:, :1] < 0, -q, q)
        G = laue.GROUPS[k]
        for dt, _, t in DTS:
            qt = torch.tensor(q, dtype=dt)
            Q = ref.npf(qt)
            w = abs(orbit(Q, k)[..., 0])
            gap = Q[:, 0] - (w[:, 1:].max(1) if len(G) > 1 else -1.0)
            a = m.call(F.ori_in_fz_laue, qt, k)
            b = m.call(F.ori_in_fz_laue_brute, qt, k)
            m.shape(a, (len(q),), "member:shape")
            m.shape(b, (len(q),), "member:shape")
            m.expect(a.dtype == torch.bool and b.dtype == torch.bool, "member:bool")
            a, b = a.numpy(), b.numpy()
            far = abs(gap) > t
            for nm, x in (("inequalities", a), ("brute", b)):
                bad = far & (x != (gap > 0))
                m.small(bad.astype(float), 0, f"member:{nm}", f"Laue {k}", rows=qt)
            m.seen(q, tag=f"{k}{dt}")
        frac = float(m.call(F.ori_in_fz_laue, torch.tensor(q[:n]), k).double().mean())
        p = 1 / len(G)
        m.small(abs(frac - p), 6 * math.sqrt(p * (1 - p) / n) + 1e-12, "member:share", f"Laue {k}: {frac} of SO(3), expected {p}")


@PROP.scenario("orbit", rounds=3)
def orbit_list(m):
    for k in range(1, 12):
        q = work(m, k, m.n(80, 400))
        for dt, _, t in DTS:
            qt = torch.tensor(q, dtype=dt)
            out = m.call(F.ori_equiv_laue, qt, k)
            m.shape(out, (len(q), laue.ORDER[k], 4), "orbit:shape")
            want = orbit(ref.npf(qt), k)
            D = abs(np.einsum("nai,nbi->nab", ref.npf(out), want))
            m.small(abs(1 - D.max(1)), 4 * t, "orbit:complete", f"Laue {k}", rows=qt)
            m.small(abs(1 - D.max(2)), 4 * t, "orbit:only-equivalents", f"Laue {k}", rows=qt)
            m.seen(q, tag=f"{k}{dt}")


@PROP.scenario("angle", rounds=3)
def angle(m):
    for k in range(1, 12):
        a, b = work(m, k, m.n(150, 800)), work(m, k, m.n(150, 800))
        c = min(len(a), len(b))
        a, b = a[:c], b[:c]
        b[: c // 6] = a[: c // 6]
        b[c // 6 : c // 3] = ref.qmul(laue.GROUPS[k][m.rng.integers(0, laue.ORDER[k], c // 3 - c // 6)], a[c // 6 : c // 3])
        for dt, tang, t in DTS:
            at, bt = torch.tensor(a, dtype=dt), torch.tensor(b, dtype=dt)
            got = m.call(F.ori_angle_laue, at, bt, k)
            m.shape(got, (c,), "angle:shape")
            w = abs(orbit(ref.qmul(ref.npf(at), ref.qconj(ref.npf(bt))), k)[..., 0]).max(1)
            want = 2 * np.arccos(np.clip(w, 0, 1))
            # arccos loses half the digits at zero: compare cosines tightly, angles loosely
            m.small(abs(np.cos(ref.npf(got) / 2) - np.cos(want / 2)), t, "angle:value", f"Laue {k}", rows={"a": at, "b": bt})
            m.small(abs(ref.npf(got) - want), tang, "angle:radians", rows={"a": at, "b": bt})
            m.expect(bool((got >= 0).all()), "angle:nonneg")
            m.seen(np.hstack([a, b]), tag=f"{k}{dt}")


@PROP.scenario("cube", rounds=6)
def cube(m):
    s = math.sqrt(2) - 1
    r = m.rng
    n = m.n(1500, 8000)
    p = r.uniform(-s, s, (n, 3))
    g = np.array(np.meshgrid(*[[-1, -0.7, -1e-6, 0, 1e-6, 0.7, 1]] * 3)).reshape(3, -1).T * s
    f = r.uniform(-s, s, (n // 3, 3))
    f[np.arange(len(f)), r.integers(0, 3, len(f))] = r.choice([-s, s], len(f))
    c = np.concatenate([p, g, f])
    for dt, t in ((torch.float64, 1e-12), (torch.float32, 2e-6)):
        ct = torch.tensor(c, dtype=dt)
        z = m.call(F.cube_to_rfz, ct, 11)
        m.shape(z, (len(c), 3), "cube:shape")
        Z = ref.npf(z)
        m.small(np.maximum(abs(Z).max(1) - s, abs(Z).sum(1) - 1), t, "cube:into-zone", rows=ct)
        m.small(-(Z * c).min(1), t, "cube:octant", rows=ct)
        # radial map that carries the cube surface onto the zone surface
        m.small(np.linalg.norm(np.cross(Z, c), axis=1), t, "cube:radial", rows=ct)
        depth_c = abs(c).max(1) / s
        depth_z = np.maximum(abs(Z).max(1) / s, abs(Z).sum(1))
        m.small(abs(depth_c - depth_z), 8 * t, "cube:depth", rows=ct)
        m.close(m.call(F.rfz_to_cube, z, 11), ct, 8 * t, "cube:roundtrip", rows=ct)
        zz = torch.tensor(ref.npf(z), dtype=dt)
        m.close(m.call(F.cube_to_rfz, m.call(F.rfz_to_cube, zz, 11), 11), zz, 8 * t, "cube:roundtrip-back", rows=zz)
        # the same zone as the membership test
        qz = np.concatenate([np.ones((len(Z), 1)), Z * (1 - 1e-5)], 1)
        m.expect(bool(m.call(F.ori_in_fz_laue, torch.tensor(ref.qnorm(qz)), 11).all()), "cube:zone-agrees-with-membership")
        m.seen(c, tag=str(dt))


@PROP.scenario("shapes", rounds=2)
def shapes(m):
    q = torch.tensor(ref.rand_q(m.rng, 24))
    q = torch.where(q[:, :1] < 0, -q, q)
    for k in range(1, 12):
        flat = [m.plain(fn, q, k) for fn in (F.ori_to_fz_laue, F.ori_equiv_laue, F.ori_in_fz_laue, F.ori_in_fz_laue_brute)]
        ang = m.plain(F.ori_angle_laue, q, q.flip(0), k)
        for shp in [(4, 6), (2, 3, 4), (1, 24, 1), (24, 1)]:
            qs = q.reshape(shp + (4,))
            for fn, f in zip((F.ori_to_fz_laue, F.ori_equiv_laue, F.ori_in_fz_laue, F.ori_in_fz_laue_brute), flat):
                o = m.plain(fn, qs, k)
                m.shape(o, shp + tuple(f.shape[1:]), f"shape:{nm(fn)}")
                m.expect(torch.equal(o.reshape(f.shape), f), f"shape:{nm(fn)}:rows", str(shp))
            m.close(m.plain(F.ori_angle_laue, qs, q.flip(0).reshape(shp + (4,)), k), ang.reshape(shp), 0, "shape:angle")
            m.seen((k, shp))
        one = m.plain(F.ori_to_fz_laue, q[0], k)
        m.close(one, flat[0][0], 0, "shape:single")
    s = math.sqrt(2) - 1
    c = torch.tensor(m.rng.uniform(-s, s, (24, 3)))
    z = m.plain(F.cube_to_rfz, c, 11)
    for shp in [(4, 6), (2, 3, 4), (1, 24, 1), (24, 1)]:
        for fn, x, f in ((F.cube_to_rfz, c, z), (F.rfz_to_cube, z, m.plain(F.rfz_to_cube, z, 11))):
            o = m.plain(fn, x.reshape(shp + (3,)), 11)
            m.shape(o, shp + (3,), f"shape:{nm(fn)}")
            m.expect(torch.equal(o.reshape(f.shape), f), f"shape:{nm(fn)}:rows", str(shp))
            m.close(m.plain(fn, x[0], 11), f[0], 0, f"shape:{nm(fn)}:single")
            m.seen((nm(fn), shp))
