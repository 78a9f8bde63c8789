"""C31 incident-direction grids."""
import contextlib
import io

import numpy as np
import torch

from ebsdtorch.crystallography import kvectors as K
from ebsdtorch.crystallography.unit_cell import Cell
from vlib import geom
from vlib import spacegroups as S
from vlib.core import Prop

PROP = Prop(
    "C31",
    "a case is one direction of one grid (all 230 space groups, every sampling type, several grid sizes)",
    ["trigonal and hexagonal crystals are sampled on the hexagonal grid (axes at 120 degrees, a tip at (1, 0)), all others on the square grid",
     "a grid point of the equator may be listed once per hemisphere flag"],
)
HEXAGONAL_TYPES = (10, 12, 14, 15, 16, 17, 18, 19)


def hex_to_sphere(i, j, n):
    """equal-area map of the hexagon with a tip at (1, 0): sides to arcs of the equator"""
    x, y = (i - 0.5 * j) / n, j * np.sqrt(0.75) / n
    r, phi = np.hypot(x, y), np.arctan2(y, x)
    psi = np.floor(phi / (np.pi / 3)) * np.pi / 3 + np.pi / 6
    a, s = r * np.cos(phi - psi), r * np.sin(phi - psi)
    with np.errstate(invalid="ignore", divide="ignore"):
        t = np.where(a > 0, s / np.where(a > 0, a, 1) * np.sqrt(3.0), 0.0)
    rho = a / np.sqrt(0.75)
    z = 1 - rho**2
    rr = np.sqrt(np.clip(1 - z**2, 0, None))
    ang = psi + t * np.pi / 6
    return np.stack([rr * np.cos(ang), rr * np.sin(ang), z], -1)


def square_to_sphere(i, j, n):
    return np.asarray(geom.unrosca(torch.as_tensor(np.stack([i, j], -1) / float(n), dtype=torch.float64)))


def make(m, sg, setting=1):
    abc, ang = S.random_lattice(m.rng, S.system(sg))
    with contextlib.redirect_stdout(io.StringIO()):
        c = m.call(Cell, sg, [(14, 0.1, 0.2, 0.3, 1.0, 0.005)], abc, "nm", ang, "deg")
        if m.rng.random() < 0.3:
            c = c.set_fp_dtype(torch.float32)
    return c, abc, ang


def consistent(m, k, ij, n, hexa, tag):
    m.shape(k, (None, 3), "grid:shape")
    m.shape(ij, (len(k), 3), "grid:indices-shape")
    k, ij = k.double().numpy(), ij.numpy()
    m.seen(np.concatenate([k, ij], 1), tag=tag)
    m.expect(len(k) > 0, "grid:not-empty", tag)
    m.expect((ij == np.rint(ij)).all() and np.isin(ij[:, 2], (-1, 1)).all() and (np.abs(ij[:, :2]) <= n).all(), "grid:indices-in-range", tag)
    m.small(np.abs(np.linalg.norm(k, axis=1) - 1).max(), 5e-6, "grid:unit", tag)
    m.small(max(0.0, float((-k[:, 2] * ij[:, 2]).max())), 5e-6, "grid:hemisphere", tag)
    m.expect(len(np.unique(ij, axis=0)) == len(ij), "grid:indices-once", tag)
    i, j = ij[:, 0].astype(float), ij[:, 1].astype(float)
    if hexa:
        inside = np.abs(i - j) <= n
        m.expect(inside.all(), "grid:inside-hexagon", f"{tag}: {ij[~inside][:3].tolist()}")
        w = hex_to_sphere(i, j, n)[inside]
        k, ij = k[inside], ij[inside]
    else:
        w = square_to_sphere(i, j, n)
    w[:, 2] *= ij[:, 2]
    # near the rim the map is steep: an error e of the plane is sqrt(e) at the equator
    m.small(np.abs(k - w).max(1), 3e-5, "grid:direction-of-index", tag, rows=ij)
    return ij


def full_grid(n, hexa):
    i, j = (v.ravel() for v in np.meshgrid(np.arange(-n, n + 1), np.arange(-n, n + 1), indexing="ij"))
    if hexa:
        k = np.abs(i - j) <= n
        i, j = i[k], j[k]
    return i, j


def plane(i, j, hexa):
    return np.stack([i - 0.5 * j, j * np.sqrt(0.75)] if hexa else [i, j], -1).astype(float)


def key(P, s):
    return set(map(tuple, np.concatenate([np.rint(P * 4096), s[:, None]], 1).astype(int).tolist()))


@PROP.scenario("space-groups", thorough_rounds=6)
def space_groups(m):
    for sg in range(1, 231):
        for n in [int(v) for v in m.rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 11, 16, 25], m.n(3, 6), replace=False)]:
            c, abc, ang = make(m, sg)
            hexa = S.system(sg) in (5, 6)
            k, ij = m.call(K.kvectors_grid, c, n)
            tag = f"sg {sg} half-width {n}"
            ij = consistent(m, k, ij, n, hexa, tag)
            # the point group in the Cartesian frame; operations keeping the z axis map the grid to itself
            A = S.basis(abc, ang)
            rots = [A @ R @ np.linalg.inv(A) for R in S.point_rots(sg)]
            P, s = plane(ij[:, 0], ij[:, 1], hexa), ij[:, 2]
            have = set()
            for R in rots:
                if abs(abs(R[2, 2]) - 1) < 1e-9:
                    have |= key(P @ R[:2, :2].T, s * int(np.rint(R[2, 2])))
            i, j = full_grid(n, hexa)
            F = plane(i, j, hexa)
            want = key(F, np.ones(len(F))) | key(F, -np.ones(len(F)))
            missing = want - have
            if missing and S.system(sg) == 7:
                dirs = k.double().numpy()
                orb = np.concatenate([dirs @ R.T for R in rots])
                probe = m.rng.normal(size=(2000, 3))
                probe /= np.linalg.norm(probe, axis=1, keepdims=True)
                gap = np.arccos(np.clip((probe @ orb.T).max(1), -1, 1)).max()
                m.small(gap, 1.8 / n, "coverage:whole-sphere", tag)
            else:
                m.expect(not missing, "coverage:whole-sphere", f"{tag}: {len(missing)} of {len(want)} grid directions are not equivalent to any sampled one")


@PROP.scenario("types", thorough_rounds=6)
def types(m):
    """explicit sampling types, on any crystal"""
    for st in range(1, 20):
        for n in [int(v) for v in m.rng.choice([1, 2, 3, 4, 5, 8, 13, 30], 4, replace=False)]:
            c, _, _ = make(m, int(m.rng.integers(1, 231)))
            if st in (11, 13):
                m.rejects(K.kvectors_grid, c, n, st, key="types:unsupported")
                continue
            k, ij = m.call(K.kvectors_grid, c, n, st)
            ij = consistent(m, k, ij, n, st in HEXAGONAL_TYPES, f"type {st} half-width {n}")
            # deterministic, and the cell is not what decides
            k2, ij2 = m.call(K.kvectors_grid, make(m, int(m.rng.integers(1, 231)))[0], n, st)
            m.expect(torch.equal(k, k2), "types:same-for-every-cell", f"type {st} {n}")
            flags = set(ij[:, 2].tolist())
            if flags == {1, -1}:
                a = ij[ij[:, 2] == 1][:, :2]
                b = ij[ij[:, 2] == -1][:, :2]
                m.expect(set(map(tuple, a.tolist())) == set(map(tuple, b.tolist())), "types:hemispheres-alike", f"type {st} {n}")
    c, _, _ = make(m, 1)
    for bad in (0, 20, -3):
        m.rejects(K.kvectors_grid, c, 3, bad, key="types:unknown")
