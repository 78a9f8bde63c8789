"""C26 space groups."""
import contextlib
import io

import numpy as np
import torch

from ebsdtorch.crystallography import groups as G
from ebsdtorch.crystallography.unit_cell import Cell
from vlib import spacegroups as S
from vlib.core import Prop

PROP = Prop(
    "C26",
    "a case is one operator of one space group (all 230, and the second setting of the 24 groups that have one), or one atom orbit",
    ["the reference groups are closed with integer arithmetic from the published generator strings and cross-checked against the Hermann-Mauguin symbols",
     "sites whose images are between 1e-4 and 1e-3 apart (total fractional difference) are not used: whether they coincide is a matter of tolerance"],
)


def setting_list():
    return [(sg, s) for sg in range(1, 231) for s in ((1, 2) if sg in S.TWO else (1,))]


def get(m, sg, setting):
    with contextlib.redirect_stdout(io.StringIO()):
        o = m.call(G.sg_operators, sg, setting)
    m.shape(o, (None, 4, 4), "operators:shape")
    return o.double().numpy()


@PROP.scenario("operators")
def operators(m):
    for sg, setting in setting_list():
        tag = f"{sg}/{setting}"
        o = get(m, sg, setting)
        m.seen(np.concatenate([o.reshape(len(o), -1), np.full((len(o), 1), sg)], 1), tag=tag)
        R = np.rint(o[:, :3, :3])
        t = np.rint(o[:, :3, 3] * 24)
        m.expect(np.abs(o[:, 3] - [0, 0, 0, 1]).max() == 0, "operators:affine", tag)
        m.expect(np.abs(o[:, :3, :3] - R).max() < 1e-9, "operators:integer", tag)
        m.expect(np.isin(np.rint(np.linalg.det(R)), (-1, 1)).all(), "operators:unimodular", tag)
        m.expect(np.abs(o[:, :3, 3] * 24 - t).max() < 24 * 2e-3, "operators:translation", tag)
        m.expect((o[:, :3, 3] >= 0).all() and (o[:, :3, 3] < 1).all(), "operators:in-cell", tag)
        R, t = R.astype(int), t.astype(int) % 24
        rows = [tuple(v) for v in np.concatenate([R.reshape(-1, 9), t], 1)]
        have = set(rows)
        m.expect(len(have) == len(rows), "operators:distinct", tag)
        m.expect(len(rows) == G.sg_ords[sg - 1], "operators:tabulated-order", f"{tag}: {len(rows)}")
        # group axioms
        RR = np.einsum("aij,bjk->abik", R, R).reshape(-1, 9)
        tt = (np.einsum("aij,bj->abi", R, t) + t[:, None]).reshape(-1, 3) % 24
        m.expect({tuple(v) for v in np.concatenate([RR, tt], 1)} <= have, "operators:closed", tag)
        one = tuple(np.eye(3, dtype=int).ravel()) + (0, 0, 0)
        m.expect(one in have, "operators:identity", tag)
        # composing the matrices as they are must give the same group
        P = np.einsum("aij,bjk->abik", o, o).reshape(-1, 16)
        Q = np.concatenate([np.rint(P.reshape(-1, 4, 4)[:, :3, :3]).reshape(-1, 9), np.rint(P.reshape(-1, 4, 4)[:, :3, 3] * 24) % 24], 1)
        m.expect({tuple(int(x) for x in v) for v in Q} <= have, "operators:compose-as-matrices", tag)
        rR, rt = S.ops(sg, setting)
        ref = {tuple(v) for v in np.concatenate([rR.reshape(-1, 9), rt], 1)}
        m.expect(have == ref, "operators:published-group", f"{tag}: {len(have ^ ref)} operators differ")


@PROP.scenario("symbols")
def symbols(m):
    for sg, setting in setting_list():
        o = get(m, sg, setting)
        m.seen((sg, setting))
        p = S.symbol_problems(G.sg_names[sg - 1], sg, np.rint(o[:, :3, :3]).astype(int), np.rint(o[:, :3, 3] * 24).astype(int) % 24)
        m.expect(not p, "symbols:elements", f"{sg}/{setting} {G.sg_names[sg - 1]} lacks {p}")
        if setting == 2:
            z = (np.abs(o[:, :3, :3] + np.eye(3)).max((1, 2)) < 1e-9) & (np.abs(o[:, :3, 3]).max(1) < 1e-3)
            m.expect(z.any(), "symbols:origin-at-inversion", f"{sg}")


@PROP.scenario("classes")
def classes(m):
    for sg in range(1, 231):
        o = get(m, sg, 1)
        R = np.unique(np.rint(o[:, :3, :3]).astype(int).reshape(-1, 9), axis=0).reshape(-1, 3, 3)
        abc, ang = S.random_lattice(m.rng, S.system(sg))
        c = m.call(Cell, sg, [(14, 0.1, 0.2, 0.3, 1.0, 0.005)], abc, "nm", ang, "deg")
        m.seen((sg, "class"))
        m.expect(int(c.laue_group) == S.laue_class(R), "classes:laue", f"{sg}: {c.laue_group}")
        m.expect(int(c.pg_num) == S.pg(sg), "classes:point-group", f"{sg}: {c.pg_num}")
        m.expect(int(c.xtal_system) == S.system(sg), "classes:system", f"{sg}: {c.xtal_system}")
        # rotations preserve the lattice metric of their crystal system
        M = S.metric(abc, ang)
        d = np.abs(np.einsum("nji,jk,nkl->nil", R, M, R) - M).max()
        m.small(torch.tensor(d), 1e-9, "classes:metric-preserved", f"{sg}")
        label = str(c).split("\n")[1]
        name = ["Triclinic", "Monoclinic", "Orthorhombic", "Tetragonal", "Trigonal", "Hexagonal", "Cubic"][S.system(sg) - 1]
        m.expect(name in label, "classes:label", f"{sg}: {label}")
        parts = G.sg_names[sg - 1].split()[1:]
        sym = not any(ch in "abcdn" or (len(e.strip("-")) > 1 and e.strip("-")[1].isdigit()) for p in parts for e in p.split("/") for ch in e[:1])
        m.expect((sg in G.sg_symmorphic) == sym, "classes:symmorphic", f"{sg} {G.sg_names[sg - 1]}")


SPECIAL = [0.0, 0.5, 0.25, 0.75, 1 / 3, 2 / 3, 0.125, 0.375, 0.625, 0.875, 1 / 6, 5 / 6]


def site(rng):
    """general and special positions, written with few or many digits, inside or outside the cell"""
    x, z = (float(v) for v in rng.uniform(0, 1, 2))
    k = int(rng.integers(0, 10))
    p = [
        rng.uniform(0, 1, 3), [x, x, z], [x, -x, z], [x, 2 * x, z], [x, x, x], [0, 0, z], [x, 0.25, 0.125],
        rng.choice(SPECIAL, 3), rng.choice(SPECIAL, 3), rng.choice(SPECIAL, 3),
    ][k]
    p = np.array(p, float)
    if k > 7:  # a special position given with limited accuracy
        p = p + rng.uniform(-1.5e-6, 1.5e-6, 3)
    d = int(rng.integers(6, 16))
    p = np.round(p, d)
    if rng.random() < 0.3:
        p = p + rng.integers(-2, 3, 3)
    return p


def far_enough(sg, setting, p):
    R, t = S.ops(sg, setting)
    q = R @ p + t / 24.0
    d = q[:, None] - q[None]
    d = np.abs(d - np.round(d)).sum(-1)
    return not ((d > 3.5e-5) & (d < 1.5e-3)).any()


@PROP.scenario("orbits", thorough_rounds=16)
def orbits(m):
    for sg, setting in setting_list():
        sites = [p for p in (site(m.rng) for _ in range(m.n(4, 8))) if far_enough(sg, setting, p)]
        if not sites:
            continue
        abc, ang = S.random_lattice(m.rng, S.system(sg))
        data = [(int(m.rng.integers(1, 93)), *map(float, p), 1.0, 0.005) for p in sites]
        with contextlib.redirect_stdout(io.StringIO()):
            c = m.call(Cell, sg, data, abc, "nm", ang, "deg", sg_setting=setting)
        m.expect(len(c.apos) == len(sites), "orbits:one-per-site")
        R, t = S.ops(sg, setting)
        for i, p in enumerate(sites):
            tag = f"{sg}/{setting} {p.tolist()}"
            m.shape(c.apos[i], (None, 3), "orbits:shape")
            a = c.apos[i].double().numpy()
            m.seen(np.concatenate([[sg, setting], p])[None])
            want, _ = S.orbit(sg, p, setting)
            m.expect(len(a) == len(want), "orbits:multiplicity", f"{tag}: {len(a)} positions, expected {len(want)}")
            m.expect(len(R) % len(a) == 0, "orbits:divides", tag)
            m.expect(int(c.mults[i]) == len(a), "orbits:mults", tag)
            m.expect((a >= -1e-9).all() and (a <= 1 + 1e-9).all(), "orbits:in-cell", tag)
            d = a[:, None] - a[None]
            d = np.abs(d - np.round(d)).sum(-1) + 10 * np.eye(len(a))
            m.expect(d.min() > 1e-4, "orbits:distinct", tag)
            # the orbit of the site, and invariant
            d = a[:, None] - want[None]
            d = np.abs(d - np.round(d)).sum(-1)
            m.small(torch.tensor(max(d.min(1).max(), d.min(0).max())), 2e-4, "orbits:positions", tag)
            img = (np.einsum("nij,kj->nki", R, a) + t[:, None] / 24.0).reshape(-1, 3)
            d = img[:, None] - a[None]
            d = np.abs(d - np.round(d)).sum(-1).min(1)
            m.small(torch.tensor(d.max()), 5e-4, "orbits:invariant", tag)
