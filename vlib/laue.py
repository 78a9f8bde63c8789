"""Crystallographic tables written independently of the repository (International
Tables A): Laue groups as closures of named generators, space-group ranges."""
import itertools
import math

import numpy as np

from vlib import ref

NAMES = {1: "-1", 2: "2/m", 3: "mmm", 4: "4/m", 5: "4/mmm", 6: "-3", 7: "-3m", 8: "6/m", 9: "6/mmm", 10: "m-3", 11: "m-3m"}
ORDER = {1: 1, 2: 2, 3: 4, 4: 4, 5: 8, 6: 3, 7: 6, 8: 6, 9: 12, 10: 12, 11: 24}


def rot(n, axis):
    a = np.asarray(axis, float)
    a = a / np.linalg.norm(a)
    t = math.pi / n
    return np.concatenate([[math.cos(t)], math.sin(t) * a])


Z, X, D = (0, 0, 1), (1, 0, 0), (1, 1, 1)
GENS = {
    1: [], 2: [rot(2, Z)], 3: [rot(2, Z), rot(2, X)], 4: [rot(4, Z)], 5: [rot(4, Z), rot(2, X)],
    6: [rot(3, Z)], 7: [rot(3, Z), rot(2, X)], 8: [rot(6, Z)], 9: [rot(6, Z), rot(2, X)],
    10: [rot(2, Z), rot(3, D)], 11: [rot(4, Z), rot(3, D)],
}


def _close(gens):
    els = [np.array([1.0, 0, 0, 0])]
    grew = True
    while grew:
        grew = False
        for e, g in itertools.product(list(els), gens):
            p = ref.qmul(e[None], g[None])[0]
            if not any(abs(abs(p @ x) - 1) < 1e-9 for x in els):
                els.append(p)
                grew = True
    return np.array(els)


GROUPS = {k: _close(g) for k, g in GENS.items()}
for _k in GROUPS:
    assert len(GROUPS[_k]) == ORDER[_k]

# last space group of every point group, the point group symbols (library spelling) and the Laue class of each
PG = [(1, "1", 1), (2, "1-", 1), (5, "2", 2), (9, "m", 2), (15, "2/m", 2), (24, "222", 3), (46, "mm2", 3), (74, "mmm", 3),
      (80, "4", 4), (82, "4-", 4), (88, "4/m", 4), (98, "422", 5), (110, "4mm", 5), (122, "4-2m", 5), (142, "4/mmm", 5),
      (146, "3", 6), (148, "3-", 6), (155, "32", 7), (161, "3m", 7), (167, "3-m", 7), (173, "6", 8), (174, "6-", 8),
      (176, "6/m", 8), (182, "622", 9), (186, "6mm", 9), (190, "6-m2", 9), (194, "6/mmm", 9), (199, "23", 10), (206, "m3-", 10),
      (214, "432", 11), (220, "4-3m", 11), (230, "m3-m", 11)]
SYSTEM_END = [2, 15, 74, 142, 167, 194, 230]


def sg_pg(sg):
    return next(i + 1 for i, (e, _, _) in enumerate(PG) if sg <= e)


def sg_laue(sg):
    return PG[sg_pg(sg) - 1][2]


def sg_system(sg):
    return next(i + 1 for i, e in enumerate(SYSTEM_END) if sg <= e)


def cell_params(sg, rng=None):
    """lattice parameters (nm, degrees) compatible with the crystal system (hexagonal axes for trigonal)."""
    r = rng or np.random.default_rng(sg)
    a, b, c = (float(x) for x in r.uniform(0.3, 0.7, 3))
    al, be, ga = (float(x) for x in r.uniform(75, 110, 3))
    s = sg_system(sg)
    return {1: ((a, b, c), (al, be, ga)), 2: ((a, b, c), (90.0, be, 90.0)), 3: ((a, b, c), (90.0,) * 3), 4: ((a, a, c), (90.0,) * 3),
            5: ((a, a, c), (90.0, 90.0, 120.0)), 6: ((a, a, c), (90.0, 90.0, 120.0)), 7: ((a, a, a), (90.0,) * 3)}[s]
