"""C07 direction fundamental sectors."""
import itertools
import math

import numpy as np
import torch

import ebsdtorch.s2_and_so3.laue_fz_s2 as S
from ebsdtorch.s2_and_so3.laue_fz_ori import ori_color_laue
from vlib import laue, ref
from vlib.core import Prop, _names as nm

PROP = Prop(
    "C07",
    "a case is one direction tested, reduced or listed under one Laue class and dtype; directions mix uniform, all small-integer "
    "zone axes, poles, equator, mirror planes and rounding neighbours of these",
    ["directions whose mask flips under a 4e-5 displacement count as boundary: there only existence of a representative is judged"],
)
DTS = [(torch.float64, 1e-9), (torch.float32, 4e-6)]


def orbit(v, k):
    R = ref.q_to_R(laue.GROUPS[k])
    o = np.einsum("gij,nj->ngi", R, v)
    return np.concatenate([o, -o], 1)


def special():
    v = np.array([p for p in itertools.product(range(-3, 4), repeat=3) if any(p)], float)
    h = np.array([[math.cos(t), math.sin(t), z] for t in np.radians(np.arange(0, 360, 15)) for z in (-1, 0, 0.5, 2)])
    v = np.concatenate([v, h])
    return v / np.linalg.norm(v, axis=1, keepdims=True)


def uniform(m, n):
    v = m.rng.normal(size=(n, 3))
    return v / np.linalg.norm(v, axis=1, keepdims=True)


def near(m, n):
    v = special()[m.rng.integers(0, len(special()), n)] + m.rng.normal(size=(n, 3)) * 10 ** m.rng.uniform(-15, -2, (n, 1))
    return v / np.linalg.norm(v, axis=1, keepdims=True)


def boundary(m, o, k):
    """members of orbits whose mask is not stable under tiny rotations."""
    base = m.call(S.s2_in_fz_laue, torch.tensor(o), k).numpy()
    b = np.zeros(o.shape[:1], bool)
    for _ in range(30):
        w = o + m.rng.normal(size=o.shape) * 4e-5
        w /= np.linalg.norm(w, axis=-1, keepdims=True)
        b |= (m.call(S.s2_in_fz_laue, torch.tensor(w), k).numpy() != base).any(1)
    return b


def inside(m, pts, k, dt):
    """in the closed sector up to rounding: the mask holds at the point or within a hair of it."""
    ok = m.call(S.s2_in_fz_laue, torch.tensor(pts), k).numpy()
    eps = 1e-8 if dt == torch.float64 else 1e-5
    if ok.all():
        return ok
    i = np.nonzero(~ok)[0]
    for _ in range(200):
        w = pts[i] + m.rng.normal(size=(len(i), 3)) * eps
        w /= np.linalg.norm(w, axis=-1, keepdims=True)
        ok[i] |= m.call(S.s2_in_fz_laue, torch.tensor(w), k).numpy()
        i = np.nonzero(~ok)[0]
        if len(i) == 0:
            break
    return ok


@PROP.scenario("tiling")
def tiling(m):
    n = m.n(1200, 6000)
    for k in range(1, 12):
        v = uniform(m, n)
        o = orbit(v, k)
        for dt, _ in DTS:
            mask = m.call(S.s2_in_fz_laue, torch.tensor(o, dtype=dt), k)
            m.shape(mask, o.shape[:2], "tiling:shape")
            cnt = mask.numpy().sum(1)
            b = boundary(m, o, k)
            m.small(float(b.mean()), 0.03, "tiling:boundary-is-thin", f"Laue {k}")
            m.small(abs(cnt[~b] - 1).astype(float), 0, "tiling:one-representative", f"Laue {k}", rows=torch.tensor(v[~b]))
            m.seen(v, tag=f"{k}{dt}")
        share = 1 / (2 * laue.ORDER[k])
        u = uniform(m, 20 * n)
        f = float(m.call(S.s2_in_fz_laue, torch.tensor(u), k).double().mean())
        m.small(abs(f - share), 6 * math.sqrt(share * (1 - share) / len(u)), "tiling:share", f"Laue {k}: {f} of the sphere, expected {share}")
        m.sample(laue=k, share=f)


@PROP.scenario("special-directions", thorough_rounds=1)
def special_dirs(m):
    v = special()
    v[abs(v) < 1e-12] = 0
    for k in range(1, 12):
        o = orbit(v, k)
        o[abs(o) < 1e-12] = 0  # the azimuth of a pole is not defined by rounding noise
        cnt = m.call(S.s2_in_fz_laue, torch.tensor(o), k).numpy().sum(1)
        m.small((cnt < 1).astype(float), 0, "special:has-representative", f"Laue {k}", rows=torch.tensor(v))
        m.expect(bool(m.call(S.s2_in_fz_laue, torch.tensor([[0.0, 0, 1]]).double(), k).all()), "special:pole-in-sector", f"Laue {k}")
        m.seen(v, tag=str(k))


@PROP.scenario("reduce")
def reduce(m):
    for k in range(1, 12):
        v = np.concatenate([uniform(m, m.n(600, 4000)), special(), near(m, m.n(300, 2000))])
        for dt, t in DTS:
            vt = torch.tensor(v, dtype=dt)
            V = ref.npf(vt)
            out = m.call(S.s2_to_fz_laue, vt, k)
            m.shape(out, (len(v), 3), "reduce:shape")
            m.expect(out.dtype == dt, "reduce:dtype")
            O = ref.npf(out)
            m.small(abs(np.linalg.norm(O, axis=1) - 1), t, "reduce:unit", rows=vt)
            orb = orbit(V, k)
            m.small(np.linalg.norm(orb - O[:, None], axis=-1).min(1), t, "reduce:own-orbit", f"Laue {k}", rows=vt)
            m.small((~inside(m, O / np.linalg.norm(O, axis=1, keepdims=True), k, dt)).astype(float), 0, "reduce:inside", f"Laue {k}", rows=vt)
            b = boundary(m, orb, k)
            j = m.rng.integers(0, orb.shape[1], len(v))
            eq = torch.tensor(orb[np.arange(len(v)), j], dtype=dt)
            o2 = ref.npf(m.call(S.s2_to_fz_laue, eq, k))
            m.small(np.linalg.norm(o2 - O, axis=1)[~b], 4 * t, "reduce:one-representative", f"Laue {k}")
            again = ref.npf(m.call(S.s2_to_fz_laue, out, k))
            m.small(np.linalg.norm(again - O, axis=1)[~b], 2 * t, "reduce:idempotent", f"Laue {k}")
            m.seen(v, tag=f"{k}{dt}")
        m.sample(laue=k, direction=vt[:1], reduced=out[:1])


@PROP.scenario("orbit")
def orbit_list(m):
    for k in range(1, 12):
        v = np.concatenate([uniform(m, 200), special()])
        for dt, t in DTS:
            vt = torch.tensor(v, dtype=dt)
            out = m.call(S.s2_equiv_laue, vt, k)
            m.shape(out, (len(v), 2 * laue.ORDER[k], 3), "orbit:shape")
            D = np.linalg.norm(ref.npf(out)[:, :, None] - orbit(ref.npf(vt), k)[:, None], axis=-1)
            m.small(D.min(1), t, "orbit:complete", f"Laue {k}", rows=vt)
            m.small(D.min(2), t, "orbit:only-equivalents", f"Laue {k}", rows=vt)
            m.seen(v, tag=f"{k}{dt}")


@PROP.scenario("colour")
def colour(m):
    for k in range(1, 12):
        q = ref.rand_q(m.rng, m.n(300, 1000) + int(m.rng.choice([0, 500, 2000])))
        d = torch.tensor(uniform(m, 1)[0])
        whole = m.plain(ori_color_laue, torch.tensor(q), d, k)
        parts = [m.plain(ori_color_laue, torch.tensor(x), d, k) for x in np.array_split(q, 7)]
        m.small(((whole.int() - torch.cat(parts).int()).abs().numpy() % 255).max(1), 1, "colour:batch", f"Laue {k}", rows=q)
        c = m.call(ori_color_laue, torch.tensor(q), d, k)
        m.shape(c, (len(q), 3), "colour:shape")
        g = laue.GROUPS[k][m.rng.integers(0, laue.ORDER[k], len(q))]
        e = m.call(ori_color_laue, torch.tensor(ref.qmul(g, q)), d, k)
        crystal = np.einsum("nij,j->ni", ref.q_to_R(q), d.numpy())
        ok = ~boundary(m, orbit(crystal, k), k)
        diff = (c.int() - e.int()).abs().numpy()
        diff = np.minimum(diff, 256 - diff).max(1)
        m.small(float((diff[ok] > 1).mean()), 0.02, "colour:equivalents-alike", f"Laue {k}")
        m.seen(q, tag=str(k))


@PROP.scenario("shapes")
def shapes(m):
    v = torch.tensor(uniform(m, 24))
    for k in range(1, 12):
        for fn in (S.s2_in_fz_laue, S.s2_to_fz_laue, S.s2_equiv_laue):
            f = m.plain(fn, v, k)
            for shp in [(4, 6), (2, 3, 4), (24, 1)]:
                o = m.plain(fn, v.reshape(shp + (3,)), k)
                m.shape(o, shp + tuple(f.shape[1:]), f"shape:{nm(fn)}")
                m.expect(torch.equal(o.reshape(f.shape), f), f"shape:{nm(fn)}:rows")
            m.close(m.plain(fn, v[3], k).double(), f[3].double(), 0, f"shape:{nm(fn)}:single")
            m.close(m.call(fn, torch.cat([v, v], 1)[:, 3:], k).double(), f.double(), 1e-12, f"shape:{nm(fn)}:strided")
            m.seen((k, nm(fn)))
