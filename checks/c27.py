"""C27 unit cell geometry."""
import numpy as np
import torch

from ebsdtorch.crystallography.unit_cell import Cell
from vlib import spacegroups as S
from vlib.core import Prop
from vlib.weights import W

PROP = Prop(
    "C27",
    "a case is one vector (or pair) in one frame of one lattice, or one cell with its contents",
    ["the Cartesian frame is the published one: x along a, z along c*",
     "the matrix of transform_coordinates has the new basis vectors as rows",
     "atomic weights are compared to the standard ones within 1%, up to uranium (heavier elements have no standard weight)",
     "averages are over the atoms present: sites count with their multiplicity and occupancy"],
)
F64 = torch.float64


def lattice(rng, x=None):
    x = x or int(rng.integers(1, 8))
    sg = int(rng.choice([s for s in range(1, 231) if S.system(s) == x]))
    abc, ang = S.random_lattice(rng, x)
    return x, sg, abc, ang


def make(m, sg, abc, ang, atoms=((14, 0.1, 0.2, 0.3, 1.0, 0.005),), **kw):
    units = str(m.rng.choice(["nm", "angstrom", "pm"]))
    au = str(m.rng.choice(["deg", "rad"]))
    k = {"nm": 1.0, "angstrom": 10.0, "pm": 1000.0}[units]
    a = ang if au == "deg" else tuple(float(np.deg2rad(v)) for v in ang)
    return m.call(Cell, sg, list(atoms), tuple(v * k for v in abc), units, a, au, **kw)


class Ref:
    def __init__(self, abc, ang):
        self.A = S.basis(abc, ang)                  # columns a, b, c
        self.B = np.linalg.inv(self.A).T            # columns a*, b*, c*
        self.M = {"d": self.A, "r": self.B, "c": np.eye(3)}

    def cart(self, v, s):
        return v @ self.M[s].T

    def back(self, v, s):
        return v @ np.linalg.inv(self.M[s]).T


def vectors(rng, shape):
    v = rng.normal(size=(*shape, 3)) * np.exp(rng.uniform(-2, 2, (*shape, 1)))
    if rng.random() < 0.4:
        v = rng.integers(-5, 6, (*shape, 3)).astype(float)
        v[(v == 0).all(-1)] = [1, 0, 0]
    return v


@PROP.scenario("matrices", thorough_rounds=12)
def matrices(m):
    for _ in range(m.n(30, 60)):
        for x in range(1, 8):
            _, sg, abc, ang = lattice(m.rng, x)
            c = make(m, sg, abc, ang)
            r = Ref(abc, ang)
            m.seen((x, abc, ang))
            tag = f"system {x} {abc} {ang}"
            for v, w in zip((c.a, c.b, c.c), abc):
                m.small(abs(float(v) - w), 1e-12, "matrices:lengths", tag)
            for v, w in zip((c.alpha, c.beta, c.gamma), ang):
                m.small(abs(float(v) - np.deg2rad(w)), 1e-12, "matrices:angles", tag)
            G = S.metric(abc, ang)
            V = np.sqrt(np.linalg.det(G))
            cond = np.linalg.cond(G)
            for name, got, want in (
                ("direct-metric", c.get_direct_metric_tensor, G), ("reciprocal-metric", c.get_reciprocal_metric_tensor, np.linalg.inv(G)),
                ("direct-structure", c.get_direct_structure_matrix, r.A), ("reciprocal-structure", c.get_reciprocal_structure_matrix, r.B),
                ("volume", c.get_volume, np.array(V)),
            ):
                m.close(got, torch.as_tensor(want), 1e-12 * cond * max(1.0, np.abs(want).max()), f"matrices:{name}", tag)
            g = c.dmt @ c.rmt
            m.close(g, torch.eye(3, dtype=F64), 1e-12 * cond, "matrices:inverse-metrics", tag)
            if c.dsm2 is not None and x != 5:
                m.expect(False, "matrices:second-structure-only-trigonal", tag)


@PROP.scenario("frames", thorough_rounds=12)
def frames(m):
    for _ in range(m.n(16, 30)):
        for x in range(1, 8):
            _, sg, abc, ang = lattice(m.rng, x)
            c = make(m, sg, abc, ang)
            single = m.rng.random() < 0.25
            if single:
                m.call(c.set_fp_dtype, torch.float32)
            dt = torch.float32 if single else F64
            r = Ref(abc, ang)
            eps = 3e-6 if single else 1e-12
            cond = np.linalg.cond(S.metric(abc, ang))
            shape = [(), (4,), (3, 2), (1,), (0,)][int(m.rng.integers(0, 5))]
            p, q = vectors(m.rng, shape), vectors(m.rng, shape)
            P, Q = torch.as_tensor(p, dtype=dt), torch.as_tensor(q, dtype=dt)
            whole = (p == np.rint(p)).all() and (q == np.rint(q)).all()
            if whole and m.rng.random() < 0.5:
                P, Q = P.long(), Q.long()
            if p.size:
                m.seen(np.concatenate([p.reshape(-1, 3), q.reshape(-1, 3)], 1), tag=f"{x}")
            tag = f"system {x} {dt} {P.dtype} {shape}"
            sc = lambda v: 10 * eps * cond * max(1.0, float(np.abs(v).max(initial=0)))  # noqa: E731
            for s in "drc":
                pc, qc = r.cart(p, s), r.cart(q, s)
                lp, lq = np.linalg.norm(pc, axis=-1), np.linalg.norm(qc, axis=-1)
                got = m.call(c.calc_length, P, s)
                m.close(got, torch.as_tensor(lp), sc(lp), "frames:length", f"{tag} {s}")
                got = m.call(c.calc_dot, P, Q, s)
                m.close(got, torch.as_tensor((pc * qc).sum(-1)), sc(lp * lq), "frames:dot", f"{tag} {s}")
                if P.is_floating_point():
                    m.close(m.call(c.calc_auto_dot, P, s), torch.as_tensor(lp**2), sc(lp**2), "frames:auto-dot", f"{tag} {s}")
                got = m.call(c.calc_angle, P, Q, s)
                cosw = np.clip((pc * qc).sum(-1) / (lp * lq), -1, 1)
                m.close(torch.cos(got.double()), torch.as_tensor(cosw), 20 * eps * cond, "frames:angle", f"{tag} {s}")
                got = m.call(c.calc_angle, P, P, s)
                m.small(got.double(), 5 * np.sqrt(eps * cond), "frames:angle-with-itself", f"{tag} {s}")
                n = m.call(c.norm_vec, P, s)
                m.close(torch.as_tensor(r.cart(n.double().numpy(), s)), torch.as_tensor(pc / lp[..., None]), 20 * eps * cond, "frames:unit", f"{tag} {s}")
                for o in "drc":
                    t = m.call(c.transform_space, P, s, o)
                    m.close(t, torch.as_tensor(r.back(pc, o)), sc(r.back(pc, o)), "frames:transform", f"{tag} {s}->{o}")
                    b = m.call(c.transform_space, t, o, s)
                    m.close(b, torch.as_tensor(p), 10 * eps * cond * max(1.0, float(np.abs(p).max(initial=0))), "frames:there-and-back", f"{tag} {s}->{o}")
                    for vol in (False, True):
                        # vectors of the direct lattice: p x q = V (p_i q_j - p_j q_i) a*_k; reciprocal ones have 1/V
                        X = np.cross(pc, qc)
                        if not vol:
                            V = np.linalg.det(r.A)
                            X = X / {"d": V, "r": 1 / V, "c": 1.0}[s]
                        w = r.back(X, o)
                        got = m.call(c.calc_cross, P, Q, s, o, vol)
                        m.close(got, torch.as_tensor(w), sc(np.abs(w).max(initial=0) + np.abs(X).max(initial=0) + (lp * lq).max(initial=0)), "frames:cross", f"{tag} {s}->{o} {vol}")
            for s in "drc":
                z = np.zeros((2, 3))
                z[0] = [1, 0, 0]
                m.rejects(c.calc_angle, torch.as_tensor(z, dtype=dt), torch.as_tensor(z, dtype=dt), s, key="frames:zero-vector-angle")
                n = m.call(c.norm_vec, torch.as_tensor(z, dtype=dt), s)
                m.close(n[1], torch.zeros(3), 0.0, "frames:zero-vector-unit", tag)
            m.rejects(c.transform_space, torch.ones(2, 3, dtype=dt), "d", "x", key="frames:unknown-frame")
            m.rejects(c.transform_space, torch.ones(2, 3, dtype=dt), "x", "d", key="frames:unknown-frame")
            m.rejects(c.calc_length, torch.ones(2, 3, dtype=dt), "x", key="frames:unknown-frame")


@PROP.scenario("basis-change", thorough_rounds=12)
def basis_change(m):
    """vectors of the two lattices are the same vectors when written in another cell"""
    for _ in range(m.n(30, 100)):
        x, sg, abc, ang = lattice(m.rng)
        c = make(m, sg, abc, ang)
        r = Ref(abc, ang)
        if m.rng.random() < 0.5:
            al = m.rng.integers(-2, 3, (3, 3)).astype(float)
            if abs(np.linalg.det(al)) < 0.5:
                continue
        else:
            al = np.linalg.qr(m.rng.normal(size=(3, 3)))[0]
        A2 = r.A @ al.T  # new basis vectors a'_i = sum_j al_ij a_j
        B2 = np.linalg.inv(A2).T
        shape = [(), (4,), (2, 3)][int(m.rng.integers(0, 3))]
        p = vectors(m.rng, shape)
        m.seen(p.reshape(-1, 3))
        for s, old, new in (("d", r.A, A2), ("r", r.B, B2)):
            w = p @ old.T @ np.linalg.inv(new).T
            k = 1e-11 * np.linalg.cond(al) * max(1, np.abs(w).max())
            got = m.call(c.transform_coordinates, torch.as_tensor(p), torch.as_tensor(al), s, "on")
            m.close(got, torch.as_tensor(w), k, "basis-change:old-to-new", f"{s} {al.tolist()}")
            back = m.call(c.transform_coordinates, got, torch.as_tensor(al), s, "no")
            m.close(back, torch.as_tensor(p), 1e-11 * np.linalg.cond(al) ** 2 * max(1, np.abs(p).max()), "basis-change:new-to-old", f"{s} {al.tolist()}")


def contents(m, sg, n=None):
    out = []
    for _ in range(n or int(m.rng.integers(1, 5))):
        p = m.rng.uniform(0, 1, 3)
        if m.rng.random() < 0.4:
            p = m.rng.choice([0.0, 0.5, 0.25], 3)
        q, gap = S.orbit(sg, p)
        if gap < 2e-3:
            continue
        out.append((int(m.rng.integers(1, 93)), *map(float, p), float(m.rng.choice([1.0, 1.0, 0.5, m.rng.uniform(0.1, 1)])), 0.005))
    return out or [(6, 0.0, 0.0, 0.0, 1.0, 0.005)]


@PROP.scenario("contents", thorough_rounds=12)
def contents_(m):
    for _ in range(m.n(120, 200)):
        x, sg, abc, ang = lattice(m.rng)
        at = contents(m, sg)
        c = make(m, sg, abc, ang, at)
        n = np.array([len(S.orbit(sg, a[1:4])[0]) * a[4] for a in at])
        Z = np.array([a[0] for a in at], float)
        w = np.array([W[a[0] - 1] for a in at])
        m.seen((sg, tuple(at)))
        tag = f"sg {sg} {at}"
        V = np.sqrt(np.linalg.det(S.metric(abc, ang)))
        m.close(c.get_average_atomic_number, torch.tensor((n * Z).sum() / n.sum(), dtype=F64), 1e-9 * 100, "contents:mean-atomic-number", tag)
        m.small(abs(float(c.get_average_atomic_weight) / ((n * w).sum() / n.sum()) - 1), 0.01, "contents:mean-atomic-weight", tag)
        m.small(abs(float(c.get_density) / ((n * w).sum() * 1.66053907e-3 / V) - 1), 0.01, "contents:density", tag)
        z2 = n * Z**2
        m.close(m.call(Cell.z2_percent, c.atom_types, c.mults, c.atom_data), torch.as_tensor(100 * z2 / z2.sum()), 1e-9 * 100, "contents:z2-percent", tag)
        # consistent with each other far better than the weights are known
        m.small(abs(float(c.get_density) * V / (float(c.get_average_atomic_weight) * n.sum() * 1.66053907e-3) - 1), 1e-6, "contents:density-of-the-mean", tag)
        # the same crystal described with every atom of the cell in P1
        full = [(a[0], *map(float, q), a[4], 0.005) for a in at for q in S.orbit(sg, a[1:4])[0]]
        if len(full) < 100:
            p1 = make(m, 1, abc, ang, full)
            for name in ("get_density", "get_average_atomic_number", "get_average_atomic_weight", "get_volume"):
                a, b = float(getattr(c, name)), float(getattr(p1, name))
                m.small(abs(a - b) / abs(a), 1e-9, f"contents:independent-of-description:{name}", tag)
        text = str(c)
        if m.rng.random() < 0.3:  # single precision keeps the contents
            before = [float(v) for v in (c.get_density, c.get_average_atomic_number, c.get_average_atomic_weight, c.get_volume)]
            m.call(c.set_fp_dtype, torch.float32)
            for v, b in zip((c.get_density, c.get_average_atomic_number, c.get_average_atomic_weight, c.get_volume), before):
                m.expect(v.dtype == torch.float32, "contents:single-dtype")
                m.small(abs(float(v) / b - 1), 1e-6, "contents:single", tag)
            m.expect([len(v) for v in c.apos] == [int(v) for v in c.mults], "contents:single-multiplicities", tag)
        m.expect(f"Volume: {V:.4f}" in text and f"Space Group: {sg} " in text, "contents:printed", text)
    z = [(int(k), 0.1, 0.2, 0.3, 1.0, 0.005) for k in range(1, 93)]
    for a in z:
        c = m.call(Cell, 1, [a], (0.5, 0.5, 0.5), "nm", (90.0, 90.0, 90.0), "deg")
        m.seen(a)
        m.small(abs(float(c.get_average_atomic_weight) / W[a[0] - 1] - 1), 0.01, "contents:atomic-weight", f"Z={a[0]}")


@PROP.scenario("construction")
def construction(m):
    ok = dict(sg_num=1, atom_data=[(14, 0.0, 0.0, 0.0, 1.0, 0.005)], abc=(0.5, 0.5, 0.5), abc_units="nm", angles=(90.0, 90.0, 90.0), angles_units="deg")
    m.call(Cell, **ok)
    for k, v in (("sg_num", 0), ("sg_num", 231), ("abc_units", "m"), ("angles_units", "turn"), ("abc", (0.5, 0.5, 1e-9)), ("angles", (10.0, 10.0, 30.0)), ("sg_setting", 2)):
        m.seen((k, str(v)))
        m.rejects(Cell, **{**ok, k: v}, key=f"construction:refuses-{k}")


@PROP.scenario("rhombohedral", thorough_rounds=12)
def rhombohedral(m):
    T = np.stack(np.meshgrid(*[np.arange(-4, 5)] * 3, indexing="ij"), -1).reshape(-1, 3)
    R3 = np.array([[0, 0, 1], [1, 0, 0], [0, 1, 0]])
    for _ in range(m.n(40, 60)):
        sg = int(m.rng.choice([146, 148, 155, 160, 161, 166, 167]))
        a, al = float(m.rng.uniform(0.3, 0.9)), float(m.rng.uniform(50, 110))
        at = [(int(m.rng.integers(1, 93)), *map(float, m.rng.uniform(0, 1, 3)), float(m.rng.choice([1.0, 0.5])), 0.005) for _ in range(int(m.rng.integers(1, 4)))]
        if m.rng.random() < 0.4:
            at.append((at[0][0], *map(float, m.rng.uniform(0, 1, 3)), 1.0, 0.005))
        c = make(m, sg, (a, a, a), (al, al, al), at)
        m.seen((sg, a, al))
        tag = f"{sg} a={a} alpha={al}"
        A = S.basis((a, a, a), (al, al, al))
        if c.dsm2 is not None:
            d2 = c.dsm2.double().numpy()
            m.small(torch.as_tensor(d2.T @ d2 - A.T @ A), 1e-6, "rhombohedral:second-structure-metric", tag)
            three = d2 @ np.ones(3)
            m.small(torch.as_tensor(three[:2]), 1e-6, "rhombohedral:three-fold-axis-along-z", tag)
            m.expect(three[2] > 0, "rhombohedral:three-fold-axis-up", tag)
        m.call(c.convert_from_R_to_H)
        ca = np.cos(np.deg2rad(al))
        ah, ch = a * np.sqrt(2 - 2 * ca), a * np.sqrt(3 + 6 * ca)
        for got, w in ((c.a, ah), (c.b, ah), (c.c, ch), (c.alpha, np.pi / 2), (c.beta, np.pi / 2), (c.gamma, 2 * np.pi / 3)):
            m.small(abs(float(got) - w), 1e-9, "rhombohedral:hexagonal-parameters", tag)
        m.small(abs(float(c.vol) / (3 * np.linalg.det(A)) - 1), 1e-9, "rhombohedral:volume", tag)
        m.close(c.dmt, torch.as_tensor(S.metric((ah, ah, ch), (90, 90, 120))), 1e-9, "rhombohedral:metric", tag)
        m.close(c.dsm, torch.as_tensor(S.basis((ah, ah, ch), (90, 90, 120))), 1e-9, "rhombohedral:structure", tag)
        # the lattice of the hexagonal cell with its centring is the rhombohedral one: same interatomic vectors
        H = c.dsm.double().numpy()
        pos = c.atom_data[:, :3].double().numpy()
        cen = np.array([[0, 0, 0], [2 / 3, 1 / 3, 1 / 3], [1 / 3, 2 / 3, 2 / 3]])
        for i in range(len(at)):
            for j in range(i + 1):
                x0 = np.array(at[i][1:4]) - np.array(at[j][1:4])
                d1 = np.sort(np.linalg.norm((x0 - np.round(x0) + T) @ A.T, axis=1))[:12]
                x1 = pos[i] - pos[j]
                x1 = (x1 + cen)
                x1 = x1 - np.round(x1)
                d2 = np.sort(np.linalg.norm(((x1[:, None] + T[None]).reshape(-1, 3)) @ H.T, axis=1))[:12]
                m.small(torch.as_tensor(d1 - d2), 1e-8, "rhombohedral:interatomic-distances", f"{tag} {at[i]} {at[j]}")
        # the three-fold axis of the rhombohedral cell permutes its axes: each orbit must have those images
        for i, row in enumerate(at):
            for k in range(3):
                p = np.linalg.matrix_power(R3, k) @ np.array(row[1:4])
                # to hexagonal coordinates: p_r = M p_h with a_h = a - b, b_h = b - c, c_h = a + b + c
                M = np.array([[1, 0, 1], [-1, 1, 1], [0, -1, 1]], float)
                ph = np.linalg.solve(M, p)
                d = c.apos[i].double().numpy() - ph
                d = np.abs(d - np.round(d)).sum(1).min()
                m.small(d, 2e-4, "rhombohedral:orbit", f"{tag} {row}")
        m.expect([int(v) for v in c.mults] == [len(v) for v in c.apos], "rhombohedral:multiplicities", tag)
        n = np.array([len(v) for v in c.apos]) * np.array([r[4] for r in at])
        w = np.array([W[r[0] - 1] for r in at])
        m.small(abs(float(c.density) / ((n * w).sum() * 1.66053907e-3 / float(c.vol)) - 1), 0.01, "rhombohedral:density", tag)
