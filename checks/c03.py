"""C03 sphere projections."""
import math

import numpy as np
import torch

import ebsdtorch.crystallography.kvectors as K
import ebsdtorch.s2_and_so3.sphere as S
import ebsdtorch.simulation.monte_carlo as MC
import ebsdtorch.utils.rosca_lambert as U
from vlib import ref
from vlib.core import Prop

PROP = Prop(
    "C03",
    "a case is one point pushed through one projection; non-trivial = distinct (map, dtype, point); points mix uniform, pole, "
    "equator, diagonals, axes, edges, corners and rounding neighbours of these",
    ["area preservation is judged through finite-difference Jacobians in float64 away from the seams"],
)
DTS = [(torch.float64, 1e-9), (torch.float32, 2e-5)]
SQ = [("sphere.inv_rosca_lambert", S.inv_rosca_lambert), ("utils.square_to_hemisphere", U.square_to_hemisphere),
      ("utils.square_to_hemisphere_v2", U.square_to_hemisphere_v2), ("kvectors.square_to_hemisphere", K.square_to_hemisphere)]
HEX = [("utils.hexagon_to_hemisphere", U.hexagon_to_hemisphere), ("kvectors.hexagon_to_hemisphere", K.hexagon_to_hemisphere)]
FWD = [("sphere.rosca_lambert", S.rosca_lambert), ("monte_carlo.rosca_lambert", MC.rosca_lambert)]


def square_pts(m, n):
    r = m.rng
    p = [r.uniform(-1, 1, (n, 2))]
    g = np.array(np.meshgrid([-1, -0.5, -1e-6, 0, 1e-6, 0.5, 1], [-1, -0.5, -1e-6, 0, 1e-6, 0.5, 1])).reshape(2, -1).T
    d = r.uniform(-1, 1, (n // 4, 1))
    e = r.uniform(-1, 1, (n // 4, 2))
    e[np.arange(len(e)), r.integers(0, 2, len(e))] = r.choice([-1.0, 1.0], len(e))
    p += [g, np.hstack([d, d]), np.hstack([d, -d]), e, 10 ** r.uniform(-12, -2, (n // 4, 2)) * r.choice([-1, 1], (n // 4, 2))]
    return np.concatenate(p)


def ref_square_inv(p):
    """Rosca's square -> hemisphere map, written per quadrant."""
    a, b = p[:, 0] * math.sqrt(math.pi / 2), p[:, 1] * math.sqrt(math.pi / 2)
    out = np.zeros((len(p), 3))
    out[:, 2] = 1
    A = (abs(b) <= abs(a)) & (a != 0)
    B = ~A & (b != 0)
    f = 2 * a[A] / math.pi * np.sqrt(math.pi - a[A] ** 2)
    out[A] = np.stack([f * np.cos(math.pi * b[A] / (4 * a[A])), f * np.sin(math.pi * b[A] / (4 * a[A])), 1 - 2 * a[A] ** 2 / math.pi], 1)
    f = 2 * b[B] / math.pi * np.sqrt(math.pi - b[B] ** 2)
    out[B] = np.stack([f * np.sin(math.pi * a[B] / (4 * b[B])), f * np.cos(math.pi * a[B] / (4 * b[B])), 1 - 2 * b[B] ** 2 / math.pi], 1)
    return out


def sphere_pts(m, n):
    r = m.rng
    v = r.normal(size=(n, 3))
    e = np.array(ref.axis_pool())
    eq = r.normal(size=(n // 4, 3)); eq[:, 2] = 0
    dg = r.normal(size=(n // 4, 3)); dg[:, 1] = dg[:, 0] * r.choice([-1, 1], len(dg))
    ax = r.normal(size=(n // 4, 3)); ax[np.arange(len(ax)), r.integers(0, 2, len(ax))] = 0
    pole = np.hstack([10 ** r.uniform(-12, -2, (n // 4, 2)) * r.choice([-1, 1], (n // 4, 2)), r.choice([-1.0, 1.0], (n // 4, 1))])
    v = np.concatenate([v, e, eq, dg, ax, pole])
    return v / np.linalg.norm(v, axis=1, keepdims=True)


def rounded(vt):
    """unit vectors as they come out of a normalisation in the same precision: next to the poles z may round to one unit beyond 1."""
    cap = torch.nonzero(abs(vt[:, 2]) > 1 - 2 * torch.finfo(vt.dtype).eps)[:, 0][::2]
    vt[cap, 2] = torch.sign(vt[cap, 2]) * (1 + torch.finfo(vt.dtype).eps)
    return vt


@PROP.scenario("square-lift", rounds=3)
def square_lift(m):
    p = square_pts(m, m.n(1500, 8000))
    for name, fn in SQ:
        for dt, t in DTS:
            pt = torch.tensor(p, dtype=dt)
            want = ref_square_inv(ref.npf(pt))
            x = m.call(fn, pt)
            m.shape(x, (len(p), 3), f"{name}:shape")
            m.expect(x.dtype == dt, f"{name}:dtype")
            m.close(x, torch.tensor(want), t, f"{name}:value", rows=pt)
            m.small(abs(np.linalg.norm(ref.npf(x), axis=1) - 1), t, f"{name}:unit", rows=pt)
            m.small(np.maximum(0, -ref.npf(x)[:, 2]), t, f"{name}:north", rows=pt)
            for fname, f in FWD:
                if dt == torch.float32:
                    continue
                q = ref.npf(m.call(f, x))
                # polar cap: 1 - z loses half the digits
                rad = np.abs(p).max(1)
                m.small(np.abs(q - p).max(1), np.where(rad > 1e-3, 1e-9, 3e-8), f"{name}->{fname}", rows=pt)
            m.seen(p, tag=f"{name}{dt}")
        m.sample(map=name, point=torch.tensor(p[:1]), lifted=x[:1])


@PROP.scenario("square-project", rounds=8)
def square_project(m):
    v = sphere_pts(m, m.n(1500, 8000))
    for name, fn in FWD:
        for dt, t in DTS:
            vt = rounded(torch.tensor(v, dtype=dt))
            q = m.call(fn, vt)
            m.shape(q, (len(v), 2), f"{name}:shape")
            m.need(bool(torch.isfinite(q).all()), f"{name}:finite")
            m.small(np.maximum(0, abs(ref.npf(q)) - 1), 1e-6, f"{name}:range", rows=vt)
            back = m.call(S.inv_rosca_lambert, q)
            want = v.copy()
            want[:, 2] = abs(want[:, 2])
            m.small(np.linalg.norm(ref.npf(back) - want, axis=1), 5e-8 if dt == torch.float64 else 2e-3, f"{name}:roundtrip", rows=vt)
            gen = want[:, 2] < 0.99
            m.small(np.linalg.norm(ref.npf(back) - want, axis=1)[gen], 10 * t, f"{name}:roundtrip-generic")
            # both hemispheres project to the same point
            fl = vt * torch.tensor([1.0, 1, -1], dtype=dt)
            m.close(m.call(fn, fl), q, 10 * torch.finfo(dt).eps, f"{name}:mirror")
            m.seen(v, tag=f"{name}{dt}")


@PROP.scenario("side-by-side", rounds=10)
def side(m):
    v = sphere_pts(m, m.n(1500, 8000))
    v = np.concatenate([v, v * np.array([1, 1, -1])])
    for dt, t in DTS:
        vt = rounded(torch.tensor(v, dtype=dt))
        q = m.call(S.rosca_lambert_side_by_side, vt)
        m.shape(q, (len(v), 2), "side:shape")
        m.need(bool(torch.isfinite(q).all()), "side:finite")
        base = ref.npf(m.call(S.rosca_lambert, vt))
        south = ref.npf(vt)[:, 2] < 0
        Q = ref.npf(q)
        # one hemisphere per half, the same point within the half, second coordinate untouched
        m.small(abs(Q[:, 1] - base[:, 1]), t, "side:y", rows=vt)
        m.small(abs(Q[:, 0] - (base[:, 0] / 2 - 0.5 + south)), t, "side:x", rows=vt)
        m.expect(bool((Q[~south, 0] <= 1e-6).all() and (Q[south, 0] >= -1e-6).all()), "side:halves")
        m.seen(v, tag=str(dt))


def in_hex(p):
    """regular hexagon with a tip at (+-1, 0)."""
    y, x = np.abs(p[:, 0]), np.abs(p[:, 1])
    return (x <= math.sqrt(3) / 2 + 1e-15) & (y + x / math.sqrt(3) <= 1 + 1e-15)


@PROP.scenario("hexagon-lift", rounds=10)
def hexagon(m):
    p = square_pts(m, m.n(3000, 12000))
    p = p[in_hex(p)]
    for name, fn in HEX:
        for dt, t in DTS:
            pt = torch.tensor(p, dtype=dt)
            x = ref.npf(m.call(fn, pt))
            m.small(abs(np.linalg.norm(x, axis=1) - 1), 4 * t, f"{name}:unit", rows=pt)
            m.small(np.maximum(0, -x[:, 2]), 4 * t, f"{name}:north", rows=pt)
            m.seen(p, tag=f"{name}{dt}")
        # sixfold and mirror symmetry of the construction, boundary to equator
        pt = torch.tensor(p)
        x = ref.npf(m.call(fn, pt))
        c, s = 0.5, math.sqrt(3) / 2
        R = np.array([[c, -s], [s, c]])
        y = ref.npf(m.call(fn, torch.tensor(p @ R.T)))
        m.small(np.linalg.norm(y[:, :2] - x[:, :2] @ R.T, axis=1), 1e-7, f"{name}:sixfold", rows=pt)
        for sgn in (np.array([-1, 1]), np.array([1, -1])):
            y = ref.npf(m.call(fn, torch.tensor(p * sgn)))
            m.small(np.linalg.norm(y[:, :2] - x[:, :2] * sgn, axis=1), 1e-9, f"{name}:mirror", rows=pt)
        k = np.arange(6)[:, None]
        tt = m.rng.random(200)
        i = m.rng.integers(0, 6, 200)
        tips = np.hstack([np.cos(k * math.pi / 3), np.sin(k * math.pi / 3)])
        edge = tips[i] * (1 - tt[:, None]) + tips[(i + 1) % 6] * tt[:, None]
        z = ref.npf(m.call(fn, torch.tensor(edge)))[:, 2]
        m.small(abs(z), 1e-7, f"{name}:edge-to-equator", rows=torch.tensor(edge))
    a = m.call(HEX[0][1], torch.tensor(p))
    m.close(m.call(HEX[1][1], torch.tensor(p)), a, 1e-12, "hexagon:implementations-agree")


@PROP.scenario("equal-area", rounds=6)
def equal_area(m):
    n = m.n(2000, 10000)
    h = 1e-5
    for name, fn, area in [(n_, f, 4.0) for n_, f in SQ] + [(n_, f, 1.5 * math.sqrt(3)) for n_, f in HEX]:
        p = m.rng.uniform(-0.98, 0.98, (n, 2))
        if "hex" in name:
            p = p[in_hex(p / 0.97)]
            ang = np.degrees(np.arctan2(p[:, 1], p[:, 0])) % 60
            ok = np.minimum(ang % 30, 30 - ang % 30) > 0.1
        else:
            ok = (abs(abs(p[:, 0]) - abs(p[:, 1])) > 10 * h) & (abs(p).min(1) > 10 * h)
        p = p[ok & (np.linalg.norm(p, axis=1) > 0.02)]
        f = lambda d: ref.npf(m.call(fn, torch.tensor(p + np.array(d))))
        du = (f([h, 0]) - f([-h, 0])) / (2 * h)
        dv = (f([0, h]) - f([0, -h])) / (2 * h)
        J = np.linalg.norm(np.cross(du, dv), axis=1)
        m.small(abs(J * area / (2 * math.pi) - 1), 1e-5, f"{name}:area", rows=torch.tensor(p))
        m.seen(p, tag=name)
    # forward map: Jacobian of the projection restricted to tangent planes
    v = sphere_pts(m, n)
    v = v[(abs(v[:, 2]) > 0.02) & (abs(v[:, 2]) < 0.999) & (abs(abs(v[:, 0]) - abs(v[:, 1])) > 1e-3) & (abs(v[:, :2]).min(1) > 1e-3)]
    t1 = np.cross(v, np.array([0.3, -0.5, 0.8])); t1 /= np.linalg.norm(t1, axis=1, keepdims=True)
    t2 = np.cross(v, t1)
    for name, fn in FWD + [("sphere.side_by_side", S.rosca_lambert_side_by_side)]:
        def g(d):
            w = v + d
            return ref.npf(m.call(fn, torch.tensor(w / np.linalg.norm(w, axis=1, keepdims=True))))
        du = (g(h * t1) - g(-h * t1)) / (2 * h)
        dv = (g(h * t2) - g(-h * t2)) / (2 * h)
        J = abs(du[:, 0] * dv[:, 1] - du[:, 1] * dv[:, 0])
        want = 4 / (2 * math.pi) / (2 if "side" in name else 1)
        m.small(abs(J / want - 1), 1e-4, f"{name}:area", rows=torch.tensor(v))
        m.seen(v, tag=name)


@PROP.scenario("angles", rounds=12)
def angles(m):
    v = sphere_pts(m, m.n(1000, 5000))
    for dt, t in DTS:
        vt = torch.tensor(v, dtype=dt)
        tp = m.call(S.xyz_to_theta_phi, vt)
        m.shape(tp, (len(v), 2), "angles:shape")
        V = ref.npf(vt)
        m.small(abs(ref.npf(tp)[:, 0] - np.arctan2(np.hypot(V[:, 0], V[:, 1]), V[:, 2])), 2 * t, "angles:polar", rows=vt)
        m.small(abs(np.exp(1j * ref.npf(tp)[:, 1]) - np.exp(1j * np.arctan2(V[:, 1], V[:, 0]))), 2 * t, "angles:azimuth", rows=vt)
        back = m.call(S.theta_phi_to_xyz, tp[:, 0], tp[:, 1])
        m.close(back, vt, 4 * t, "angles:roundtrip", rows=vt)
        m.seen(v, tag=str(dt))
    th, ph = torch.tensor(m.rng.uniform(0, math.pi, (5, 7))), torch.tensor(m.rng.uniform(-math.pi, math.pi, (5, 7)))
    x = m.call(S.theta_phi_to_xyz, th, ph)
    m.shape(x, (5, 7, 3), "angles:batch")
    tp = m.call(S.xyz_to_theta_phi, x)
    m.shape(tp, (5, 7, 2), "angles:batch")
    m.close(tp, torch.stack([th, ph], -1), 1e-7, "angles:batch-roundtrip")
    m.close(x[..., 2], torch.cos(th), 1e-12, "angles:z-is-cos-polar")


@PROP.scenario("shapes", rounds=4)
def shapes(m):
    p = torch.tensor(m.rng.uniform(-0.6, 0.6, (24, 2)))
    v = torch.tensor(sphere_pts(m, 24)[:24])
    for name, fn in SQ + HEX:
        flat = m.call(fn, p)
        for shp in [(24,), (4, 6), (2, 3, 4), (1, 24, 1)]:
            m.close(m.call(fn, p.reshape(shp + (2,))), flat.reshape(shp + (3,)), 1e-14, f"{name}:batch", str(shp))
            m.seen(f"{name}{shp}")
        # strided view of a wider tensor
        wide = torch.cat([p, p + 1], 1)[:, :2]
        m.close(m.call(fn, wide), flat, 1e-14, f"{name}:strided")
        m.close(m.call(fn, p.t().contiguous().t()), flat, 1e-14, f"{name}:strided")
    for name, fn in FWD + [("side", S.rosca_lambert_side_by_side)]:
        flat = m.call(fn, v)
        for shp in [(24,), (4, 6), (2, 3, 4)]:
            m.close(m.call(fn, v.reshape(shp + (3,))), flat.reshape(shp + (2,)), 1e-14, f"{name}:batch")
            m.seen(f"{name}{shp}")
