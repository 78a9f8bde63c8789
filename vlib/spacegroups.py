"""Reference crystallography, independent of the library: the 230 space groups from the
published generator strings (integer arithmetic in 24ths), Hermann-Mauguin symbol
analysis, lattices, orbits and structure factors."""
import itertools
import math

import numpy as np

GEN = """
000 100 01cOOO0 01cODO0 02aDDOcOOO0 01jOOO0 01jOOD0 02aDDOjOOO0 02aDDOjOOD0 11cOOO0 11cODO0 12aDDOcOOO0 11cOOD0 11cODD0 12aDDOcOOD0 02bOOOcOOO0 
02bOODcOOD0 02bOOOcDDO0 02bDODcODD0 03aDDObOODcOOD0 03aDDObOOOcOOO0 04aODDaDODbOOOcOOO0 03aDDDbOOOcOOO0 03aDDDbDODcODD0 02bOOOjOOO0 02bOODjOOD0 
02bOOOjOOD0 02bOOOjDOO0 02bOODjDOO0 02bOOOjODD0 02bDODjDOD0 02bOOOjDDO0 02bOODjDDO0 02bOOOjDDD0 03aDDObOOOjOOO0 03aDDObOODjOOD0 03aDDObOOOjOOD0 
03aODDbOOOjOOO0 03aODDbOOOjODO0 03aODDbOOOjDOO0 03aODDbOOOjDDO0 04aODDaDODbOOOjOOO0 04aODDaDODbOOOjBBB0 03aDDDbOOOjOOO0 03aDDDbOOOjDDO0 
03aDDDbOOOjDOO0 12bOOOcOOO0 03bOOOcOOOhDDD1BBB 12bOOOcOOD0 03bOOOcOOOhDDO1BBO 12bDOOcOOO0 12bDOOcDDD0 12bDODcDOD0 12bDOOcOOD0 12bOOOcDDO0 12bDDOcODD0 
12bOODcODD0 12bOOOcDDD0 03bOOOcDDOhDDO1BBO 12bDDDcOOD0 12bDODcODD0 12bDODcODO0 13aDDObOODcOOD0 13aDDObODDcODD0 13aDDObOOOcOOO0 13aDDObOOOcOOD0 
13aDDObODOcODO0 04aDDObDDOcOOOhODD1OBB 14aODDaDODbOOOcOOO0 05aODDaDODbOOOcOOOhBBB1ZZZ 13aDDDbOOOcOOO0 13aDDDbOOOcDDO0 13aDDDbDODcODD0 13aDDDbODOcODO0 
02bOOOgOOO0 02bOODgOOB0 02bOOOgOOD0 02bOODgOOF0 03aDDDbOOOgOOO0 03aDDDbDDDgODB0 02bOOOmOOO0 03aDDDbOOOmOOO0 12bOOOgOOO0 12bOOOgOOD0 
03bOOOgDDOhDDO1YBO 03bOOOgDDDhDDD1YYY 13aDDDbOOOgOOO0 04aDDDbDDDgODBhODB1OYZ 03bOOOgOOOcOOO0 03bOOOgDDOcDDO0 03bOODgOOBcOOO0 03bOODgDDBcDDB0 
03bOOOgOODcOOO0 03bOOOgDDDcDDD0 03bOODgOOFcOOO0 03bOODgDDFcDDF0 04aDDDbOOOgOOOcOOO0 04aDDDbDDDgODBcDOF0 03bOOOgOOOjOOO0 03bOOOgOOOjDDO0 
03bOOOgOODjOOD0 03bOOOgDDDjDDD0 03bOOOgOOOjOOD0 03bOOOgOOOjDDD0 03bOOOgOODjOOO0 03bOOOgOODjDDO0 04aDDDbOOOgOOOjOOO0 04aDDDbOOOgOOOjOOD0 
04aDDDbDDDgODBjOOO0 04aDDDbDDDgODBjOOD0 03bOOOmOOOcOOO0 03bOOOmOOOcOOD0 03bOOOmOOOcDDO0 03bOOOmOOOcDDD0 03bOOOmOOOjOOO0 03bOOOmOOOjOOD0 
03bOOOmOOOjDDO0 03bOOOmOOOjDDD0 04aDDDbOOOmOOOjOOO0 04aDDDbOOOmOOOjOOD0 04aDDDbOOOmOOOcOOO0 04aDDDbOOOmOOOcDOF0 13bOOOgOOOcOOO0 13bOOOgOOOcOOD0 
04bOOOgOOOcOOOhDDO1YYO 04bOOOgOOOcOOOhDDD1YYY 13bOOOgOOOcDDO0 13bOOOgOOOcDDD0 04bOOOgDDOcDDOhDDO1YBO 04bOOOgDDOcDDDhDDO1YBO 13bOOOgOODcOOO0 
13bOOOgOODcOOD0 04bOOOgDDDcOODhDDD1YBY 04bOOOgDDDcOOOhDDD1YBY 13bOOOgOODcDDO0 13bOOOgDDDcDDD0 04bOOOgDDDcDDDhDDD1YBY 04bOOOgDDDcDDOhDDD1YBY 
14aDDDbOOOgOOOcOOO0 14aDDDbOOOgOOOcOOD0 05aDDDbDDDgODBcDOFhODB1OBZ 05aDDDbDDDgODBcDOBhODB1OBZ 01nOOO0 01nOOC0 01nOOE0 02aECCnOOO0 11nOOO0 12aECCnOOO0 
02nOOOfOOO0 02nOOOeOOO0 02nOOCfOOE0 02nOOCeOOO0 02nOOEfOOC0 02nOOEeOOO0 03aECCnOOOeOOO0 02nOOOkOOO0 02nOOOlOOO0 02nOOOkOOD0 02nOOOlOOD0 
03aECCnOOOkOOO0 03aECCnOOOkOOD0 12nOOOfOOO0 12nOOOfOOD0 12nOOOeOOO0 12nOOOeOOD0 13aECCnOOOeOOO0 13aECCnOOOeOOD0 02nOOObOOO0 02nOOCbOOD0 02nOOEbOOD0 
02nOOEbOOO0 02nOOCbOOO0 02nOOObOOD0 02nOOOiOOO0 12nOOObOOO0 12nOOObOOD0 03nOOObOOOeOOO0 03nOOCbOODeOOC0 03nOOEbOODeOOE0 03nOOEbOOOeOOE0 
03nOOCbOOOeOOC0 03nOOObOODeOOO0 03nOOObOOOkOOO0 03nOOObOOOkOOD0 03nOOObOODkOOD0 03nOOObOODkOOO0 03nOOOiOOOkOOO0 03nOOOiOODkOOD0 03nOOOiOOOeOOO0 
03nOOOiOODeOOO0 13nOOObOOOeOOO0 13nOOObOOOeOOD0 13nOOObOODeOOD0 13nOOObOODeOOO0 03bOOOcOOOdOOO0 05aODDaDODbOOOcOOOdOOO0 04aDDDbOOOcOOOdOOO0 
03bDODcODDdOOO0 04aDDDbDODcODDdOOO0 13bOOOcOOOdOOO0 04bOOOcOOOdOOOhDDD1YYY 15aODDaDODbOOOcOOOdOOO0 06aODDaDODbOOOcOOOdOOOhBBB1ZZZ 14aDDDbOOOcOOOdOOO0 
13bDODcODDdOOO0 14aDDDbDODcODDdOOO0 04bOOOcOOOdOOOeOOO0 04bOOOcOOOdOOOeDDD0 06aODDaDODbOOOcOOOdOOOeOOO0 06aODDaDODbODDcDDOdOOOeFBF0 
05aDDDbOOOcOOOdOOOeOOO0 04bDODcODDdOOOeBFF0 04bDODcODDdOOOeFBB0 05aDDDbDODcODDdOOOeFBB0 04bOOOcOOOdOOOlOOO0 06aODDaDODbOOOcOOOdOOOlOOO0 
05aDDDbOOOcOOOdOOOlOOO0 04bOOOcOOOdOOOlDDD0 06aODDaDODbOOOcOOOdOOOlDDD0 05aDDDbDODcODDdOOOlBBB0 14bOOOcOOOdOOOeOOO0 05bOOOcOOOdOOOeOOOhDDD1YYY 
14bOOOcOOOdOOOeDDD0 05bOOOcOOOdOOOeDDDhDDD1YYY 16aODDaDODbOOOcOOOdOOOeOOO0 16aODDaDODbOOOcOOOdOOOeDDD0 07aODDaDODbODDcDDOdOOOeFBFhBBB1ZZZ 
07aODDaDODbODDcDDOdOOOeFBFhFFF1XXX 15aDDDbOOOcOOOdOOOeOOO0 15aDDDbDODcODDdOOOeFBB0
""".split()
XT_BEG = [1, 3, 16, 75, 143, 168, 195]
PG_BEG = [1, 2, 3, 6, 10, 16, 25, 47, 75, 81, 83, 89, 99, 111, 123, 143, 147, 149, 156, 162, 168, 174, 175, 177, 183, 187, 191, 195, 200, 207, 215, 221]
TWO = [48, 50, 59, 68, 70, 85, 86, 88, 125, 126, 129, 130, 133, 134, 137, 138, 141, 142, 201, 203, 222, 224, 227, 228]
ROT = {
    "a": [1, 0, 0, 0, 1, 0, 0, 0, 1], "b": [-1, 0, 0, 0, -1, 0, 0, 0, 1], "c": [-1, 0, 0, 0, 1, 0, 0, 0, -1],
    "d": [0, 0, 1, 1, 0, 0, 0, 1, 0], "e": [0, 1, 0, 1, 0, 0, 0, 0, -1], "f": [0, -1, 0, -1, 0, 0, 0, 0, -1],
    "g": [0, -1, 0, 1, 0, 0, 0, 0, 1], "h": [-1, 0, 0, 0, -1, 0, 0, 0, -1], "i": [1, 0, 0, 0, 1, 0, 0, 0, -1],
    "j": [1, 0, 0, 0, -1, 0, 0, 0, 1], "k": [0, -1, 0, -1, 0, 0, 0, 0, 1], "l": [0, 1, 0, 1, 0, 0, 0, 0, 1],
    "m": [0, 1, 0, -1, 0, 0, 0, 0, -1], "n": [0, -1, 0, 1, -1, 0, 0, 0, 1],
}
TR = {"A": 4, "B": 6, "C": 8, "D": 12, "E": 16, "F": 18, "G": 20, "O": 0, "X": -9, "Y": -6, "Z": -3}
_cache = {}


def ops(sg, setting=1):
    """(R (n,3,3) int, t (n,3) int in 24ths), sorted; setting 2 is origin choice 2"""
    if (sg, setting) in _cache:
        return _cache[sg, setting]
    s = GEN[sg - 1]
    n = int(s[1])
    gens = [(tuple(ROT["h"]), (0, 0, 0))] if s[0] == "1" else []
    for i in range(n):
        w = s[2 + 4 * i: 6 + 4 * i]
        gens.append((tuple(ROT[w[0]]), tuple(TR[c] % 24 for c in w[1:])))
    if setting == 2:
        tail = s[2 + 4 * n:]
        assert tail[0] == "1"
        p = np.array([TR[c] for c in tail[1:4]])
        gens = [(r, tuple(int(v) % 24 for v in np.array(t) + p - np.array(r).reshape(3, 3) @ p)) for r, t in gens]
    one = (tuple(ROT["a"]), (0, 0, 0))
    have, front = {one}, [one]
    while front:
        new = []
        for r, t in front:
            R = np.array(r).reshape(3, 3)
            for gr, gt in gens:
                q = (tuple(int(v) for v in (R @ np.array(gr).reshape(3, 3)).ravel()), tuple(int(v) % 24 for v in R @ np.array(gt) + t))
                if q not in have:
                    have.add(q)
                    new.append(q)
        front = new
    L = sorted(have)
    out = np.array([r for r, _ in L]).reshape(-1, 3, 3), np.array([t for _, t in L])
    _cache[sg, setting] = out
    return out


def pg(sg):
    return sum(b <= sg for b in PG_BEG)


def system(sg):
    """1 triclinic .. 4 tetragonal, 5 trigonal, 6 hexagonal, 7 cubic"""
    return sum(b <= sg for b in XT_BEG)


def point_rots(sg):
    R, _ = ops(sg)
    return np.unique(R.reshape(-1, 9), axis=0).reshape(-1, 3, 3)


def rot_order(W):
    W = W * round(np.linalg.det(W))
    M, k = W.copy(), 1
    while not (M == np.eye(3, dtype=int)).all():
        M, k = M @ W, k + 1
    return k


LAUE = {  # orders of the proper rotations of each Laue class, sorted
    (1,): 1, (1, 2): 2, (1, 2, 2, 2): 3, (1, 2, 4, 4): 4, (1, 2, 2, 2, 2, 2, 4, 4): 5, (1, 3, 3): 6,
    (1, 2, 2, 2, 3, 3): 7, (1, 2, 3, 3, 6, 6): 8, (1, 2, 2, 2, 2, 2, 2, 2, 3, 3, 6, 6): 9,
    (1,) + (2,) * 3 + (3,) * 8: 10, (1,) + (2,) * 9 + (3,) * 8 + (4,) * 6: 11,
}


def laue_class(rots):
    proper = {tuple((W * round(np.linalg.det(W))).ravel()) for W in rots}
    return LAUE[tuple(sorted(rot_order(np.array(p).reshape(3, 3)) for p in proper))]


# -- Hermann-Mauguin symbols ----------------------------------------------
CENT = {
    "P": [], "A": [(0, 12, 12)], "B": [(12, 0, 12)], "C": [(12, 12, 0)], "I": [(12, 12, 12)],
    "F": [(0, 12, 12), (12, 0, 12), (12, 12, 0)], "R": [(16, 8, 8), (8, 16, 16)],
}


def centring(sg):
    R, t = ops(sg)
    c = t[(R == np.eye(3, dtype=int)).all((1, 2))]
    return c[np.any(c != 0, 1)]


def directions(sg):
    x = system(sg)
    if x == 2:
        return [[(0, 1, 0)]]
    if x == 3:
        return [[(1, 0, 0)], [(0, 1, 0)], [(0, 0, 1)]]
    if x == 4:
        return [[(0, 0, 1)], [(1, 0, 0)], [(1, 1, 0), (1, -1, 0)]]
    if x in (5, 6):
        return [[(0, 0, 1)], [(1, 0, 0), (0, 1, 0), (1, 1, 0)], [(2, 1, 0), (1, 2, 0), (1, -1, 0)]]
    if x == 7:
        return [[(0, 0, 1), (1, 0, 0), (0, 1, 0)], [(1, 1, 1)], [(1, 1, 0), (1, -1, 0)]]
    return []


def _shifts():
    return np.array(list(itertools.product((-24, 0, 24), repeat=3)))


def has_rotation(R, t, d, n, screw):
    """proper rotation of order n about d (positive sense) with screw part screw/n of a lattice vector"""
    d = np.array(d)
    for W, w in zip(R, t):
        if round(np.linalg.det(W)) != 1 or rot_order(W) != n or (W @ d != d).any():
            continue
        if n > 2:
            # positive sense: (x, Wx, d) right-handed
            x = np.array([1, 0, 0]) if (np.cross([1, 0, 0], d) != 0).any() else np.array([0, 1, 0])
            if np.linalg.det(np.stack([x, W @ x, d], 1)) <= 0:
                continue
        S = sum(np.linalg.matrix_power(W, k) for k in range(n))
        for sh in _shifts():
            g = S @ (w + sh) / n  # intrinsic translation in 24ths
            if np.allclose(g, 24 * screw / n * d):
                return True
    return False


def has_rotoinversion(R, d, n):
    d = np.array(d)
    return any(round(np.linalg.det(W)) == -1 and rot_order(W) == n and (-W @ d == d).all() for W in R)


def _glides(letter, d, x):
    """allowed intrinsic translations (24ths) of a mirror with normal direction d"""
    e = np.eye(3, dtype=int)
    axis = [i for i in range(3) if d[i]]
    if letter == "m":
        return [np.zeros(3)]
    if letter in "abc":
        if x == 7 and len(axis) == 1:
            return [12 * e[i] for i in range(3) if i not in axis]
        return [12 * e["abc".index(letter)]]
    if len(axis) == 1:
        u, w = [e[i] for i in range(3) if i not in axis]
    else:
        u, w = np.array([d[0], -d[1], 0]), e[2]
    k = 12 if letter == "n" else 6
    return [k * (a * u + b * w) for a in (-1, 1) for b in (-1, 1)]


def has_mirror(R, t, d, letter, x, metric):
    for W, w in zip(R, t):
        if round(np.linalg.det(W)) != -1 or rot_order(W) != 2:
            continue
        n = np.array(d)
        if (W @ n != -n).any():  # direction d is the normal: W d = -d
            continue
        for sh in _shifts():
            g = (np.eye(3) + W) @ (w + sh) / 2
            if any(np.allclose(g, q) for q in _glides(letter, d, x)):
                return True
    return False


def symbol_problems(name, sg, R, t):
    """what an operator set lacks of the elements its Hermann-Mauguin symbol names"""
    parts = name.split("|")[0].split()
    out = []
    cen = {tuple(v) for v in t[(R == np.eye(3, dtype=int)).all((1, 2))] % 24} - {(0, 0, 0)}
    if cen != set(CENT[parts[0]]):
        out.append(f"centring {parts[0]}: {sorted(cen)}")
    x = system(sg)
    if x == 1:
        inv = (R == -np.eye(3, dtype=int)).all((1, 2)).any()
        return out + ([] if inv == (parts[1] == "-1") else ["inversion"])
    dirs = directions(sg)
    for pos, el in enumerate(parts[1:]):
        if el == "1":
            continue
        for e in el.split("/"):
            ok = False
            for d in dirs[pos]:
                if e[0] == "-":
                    ok |= has_rotoinversion(R, d, int(e[1:]))
                elif e[0].isdigit():
                    n = int(e[0])
                    s = int(e[1]) if len(e) > 1 else 0
                    ok |= has_rotation(R, t, d, n, s)
                else:
                    ok |= has_mirror(R, t, d, e, x, None)
            if not ok:
                out.append(e)
    return out


# -- lattices --------------------------------------------------------------
def random_lattice(rng, x, lo=0.25, hi=1.2):
    """(abc in nm, angles in degrees) of a lattice of system x (trigonal: hexagonal axes)"""
    a, b, c = (float(v) for v in rng.uniform(lo, hi, 3))
    if x == 1:
        while True:
            ang = rng.uniform(50, 130, 3)
            G = metric((a, b, c), ang)
            if np.linalg.eigvalsh(G).min() > 0.05 * min(a, b, c) ** 2:
                return (a, b, c), tuple(float(v) for v in ang)
    if x == 2:
        return (a, b, c), (90.0, float(rng.uniform(60, 130)), 90.0)
    if x == 3:
        return (a, b, c), (90.0, 90.0, 90.0)
    if x == 4:
        return (a, a, c), (90.0, 90.0, 90.0)
    if x in (5, 6):
        return (a, a, c), (90.0, 90.0, 120.0)
    return (a, a, a), (90.0, 90.0, 90.0)


def metric(abc, deg):
    a, b, c = abc
    ca, cb, cg = np.cos(np.deg2rad(np.asarray(deg, float)))
    return np.array([[a * a, a * b * cg, a * c * cb], [a * b * cg, b * b, b * c * ca], [a * c * cb, b * c * ca, c * c]])


def basis(abc, deg):
    """columns a, b, c in the Cartesian frame e1 || a, e3 || c*"""
    return np.linalg.cholesky(metric(abc, deg)).T


def orbit(sg, xyz, setting=1, tol=1e-4):
    """positions equivalent to xyz, and the smallest separation among kept ones (for ambiguity)"""
    R, t = ops(sg, setting)
    p = (R @ np.asarray(xyz, float) + t / 24.0)
    keep = []
    gap = 1.0
    for q in p:
        if keep:
            d = q - np.array(keep)
            d = np.abs(d - np.round(d)).sum(1)
            if d.min() < tol:
                continue
            gap = min(gap, d.min())
        keep.append(q)
    return np.array(keep) % 1.0, gap
