"""C16 orientation refinement."""
import numpy as np
import torch

from ebsdtorch.ebsd.experiment_pats import ExperimentPatterns
from ebsdtorch.ebsd.geometry import EBSDGeometry
from ebsdtorch.ebsd.master_pattern import MasterPattern
from ebsdtorch.ebsd.refining import get_local_orientation_grid, orientation_grad_refinement, orientation_grid_refinement
from ebsdtorch.s2_and_so3.laue_fz_ori import ori_to_fz_laue
from vlib import laue, ref, sim
from vlib.core import Prop

PROP = Prop(
    "C16",
    "a case is one refined pattern (or one local grid): perturbed and random starting orientations of noisy and noise-free patterns of every Laue class, "
    "detector geometries, binnings, grid extents and shapes, batch sizes, learning rates, arithmetic and phase mixtures",
    ["the start counts as correlating as well as the worse of itself and its symmetry equivalent in the fundamental zone (the sampled master pattern is only symmetric up to interpolation)",
     "gradient refinement is judged with the bicubic lookup it optimises (the lookup itself is judged in C12)",
     "half precision matching is judged within half precision"],
)
T32 = torch.float32


class Setup:
    def __init__(self, m, b=1, shape=None, lg=None, like=None):
        self.b = b
        self.lg = lg or int(m.rng.integers(1, 12))
        n = int(m.rng.integers(40, 64))
        img = torch.tensor(sim.images(sim.intensity(m.rng, self.lg, 6 if self.lg < 3 else 3, 0.15), n) * 10 ** m.rng.choice([m.rng.uniform(-1, 2), m.rng.uniform(-4, 5)]), dtype=T32)
        self.img = ref.npf(img)
        self.mp = m.call(MasterPattern, (img[0], img[1]), laue_group=self.lg)
        if like is not None:
            self.shape, self.pc, self.tilts, self.geom, self.dirs = like.shape, like.pc, like.tilts, like.geom, like.dirs
            return
        self.shape = shape or tuple(int(x) * b for x in m.rng.integers(9, 15, 2))
        self.pc, self.tilts = sim.detector(m.rng, self.shape)
        opt = {"opt_rots": (True, False, True), "opt_shifts": (False, True, False)} if m.rng.random() < 0.25 else {}
        self.geom = m.call(EBSDGeometry, self.shape, tilts_degrees=self.tilts, proj_center=self.pc, **opt)
        self.dirs = sim.directions(self.shape, self.pc, self.tilts, b)

    def start(self, m, n, deg, noise=0.0, dirs=None):
        """truth, start (in the fundamental zone), full resolution patterns; dirs (n,p,3) when every pattern has its own."""
        qt = ref.rand_q(m.rng, n)
        ax = m.rng.normal(size=(n, 3))
        ax /= np.linalg.norm(ax, axis=1, keepdims=True)
        w = np.radians(np.broadcast_to(deg, n))[:, None] / 2
        q0 = ref.qmul(np.c_[np.cos(w), ax * np.sin(w)], qt)
        q0 = m.call(ori_to_fz_laue, torch.tensor(q0, dtype=T32), self.lg)
        full = sim.directions(self.shape, self.pc, self.tilts) if dirs is None else dirs
        P = simulate(self.img, full, qt)
        sd = P.std(1, keepdims=True) + 1e-9
        P = P / sd + noise * m.rng.normal(size=P.shape)
        P = P * 10 ** m.rng.uniform(-1, 1, (n, 1)) + m.rng.uniform(-5, 20, (n, 1))
        P = P * 10 ** (m.rng.random((n, 1)) * m.rng.choice([0, 0, -4, 4]))  # detectors count in any unit
        return qt, q0, torch.tensor(P.reshape(n, *self.shape), dtype=T32)

    def ncc(self, m, P, q, mode="bilinear", dirs=None):
        """correlation of each pattern with the simulation at its orientation."""
        q = ref.npf(q)
        P = ref.npf(P)
        n, H, W = P.shape
        b = self.b
        E = sim.unit(P.reshape(n, H // b, b, W // b, b).mean((2, 4)).reshape(n, -1))
        d = self.dirs if dirs is None else dirs
        if mode == "bilinear" and b == 1:
            S = simulate(self.img, d, q)
        else:
            v = np.einsum("nij,npj->npi", ref.q_to_R(q).reshape(-1, 3, 3), np.broadcast_to(d, (n, *d.shape[-2:])))
            S = ref.npf(m.call(self.mp.interpolate, torch.tensor(v, dtype=T32), mode=mode, virtual_binning=b))
        return (E * sim.unit(S)).sum(1)


def simulate(img, dirs, q):
    if dirs.ndim == 2:
        return sim.simulate(img, dirs, q)
    return np.concatenate([sim.simulate(img, d, k[None]) for d, k in zip(dirs, q)])


def misori(lg, a, b):
    return np.stack([np.degrees(ref.qangle(ref.qmul(np.asarray(s, float)[None], a), b)) for s in laue.GROUPS[lg]]).min(0)


def refined(m, s, fn, P, q0, phases=None, mps=None, coords=None, **kw):
    e = m.call(ExperimentPatterns, P)
    m.call(e.set_orientations, q0)
    n = len(P)
    e.phases = torch.zeros(n, dtype=torch.long) if phases is None else torch.tensor(phases)
    if coords is not None:
        m.call(e.set_spatial_coords, coords)
    before = e.patterns.clone()
    keep = e.phases.clone()
    with sim.quiet():
        out = m.call(fn, s.mp if mps is None else mps, s.geom, e, **kw)
    m.expect(bool((e.patterns == before).all()) and bool((e.phases == keep).all()), "refine:only-orientations-change")
    q = m.shape(e.orientations, (n, 4), "refine:orientations-shape")
    m.need(bool(torch.isfinite(q).all()), "refine:finite")
    m.small((q.double().norm(dim=1) - 1).abs(), 1e-5, "refine:unit")
    return q.detach(), out


def in_zone(m, s, q, key="refine:fundamental-zone"):
    z = m.call(ori_to_fz_laue, q, s.lg)
    m.small(ref.npf(q)[:, 0].__neg__(), 1e-6, key + "-positive")
    # the equivalent of smallest angle: the scalar part cannot be increased
    m.small(ref.npf(z)[:, 0] - ref.npf(q)[:, 0], 1e-4, key)


@PROP.scenario("local-grid", rounds=3, thorough_rounds=12)
def local_grid(m):
    for edge in [0.05, 0.5, 1.0, 3.0, 10.0, 60.0, 180.0, *m.rng.uniform(0.01, 90, 4)]:
        for k in (0, 1, 2, 3, 5, 7):
            for dim in (1, 2, 3):
                cu = m.call(get_local_orientation_grid, float(edge), k, dim)
                a = 2 * k + 1
                want = {3: a**3, 2: a**3 - (a - 1) ** 3, 1: 3 * (a - 1) + 1}[dim]
                m.shape(cu, (want, 3), "local-grid:points")
                c = ref.npf(cu)
                m.seen(c[:64], tag=(dim, k))
                z = (c == 0).all(1)
                m.expect(z.sum() == 1, "local-grid:identity-once", f"edge {edge} k {k} dim {dim}")
                m.expect(bool(z[want // 2]), "local-grid:centred")
                m.close(c, -c[::-1].copy(), 1e-6 * edge, "local-grid:symmetric")
                m.expect(len(np.unique(np.round(c / (abs(c).max() + 1e-30), 5), axis=0)) == want, "local-grid:distinct")
                h = edge * np.pi ** (2 / 3) / 360
                if k:
                    steps = c / h * k
                    m.small(abs(steps - np.rint(steps)), 1e-4, "local-grid:uniform-steps")
                    zeros = (np.rint(steps) == 0).sum(1)
                    m.expect(bool((zeros >= {3: 0, 2: 1, 1: 2}[dim]).all()), "local-grid:axial")
                    ang = np.degrees(ref.qangle(ref.cu_to_q(c), np.array([[1.0, 0, 0, 0]])))
                    m.small(ang - edge, 1e-3 * edge, "local-grid:within-range")
                    m.small(0.8 * edge - ang.max(), 1e-3, "local-grid:reaches-range")
    for bad in (0, 4, -1):
        m.rejects(get_local_orientation_grid, 1.0, 1, bad, key="local-grid:rejects-dimension")


@PROP.scenario("grid-search", rounds=6, thorough_rounds=40)
def grid_search(m):
    b = int(m.rng.choice([1, 1, 2]))
    s = Setup(m, b)
    n = int(m.rng.choice([1, 2, 7, 13]))
    for rep in range(3):
        half = rep == 2
        qt, q0, P = s.start(m, n, m.rng.uniform(0, 8, n), m.rng.choice([0, 0.5, 3]))
        if rep == 1:  # starts that have nothing to do with the pattern
            q0 = m.call(ori_to_fz_laue, torch.tensor(ref.rand_q(m.rng, n), dtype=T32), s.lg)
        kw = dict(
            grid_semi_edge_in_degrees=float(m.rng.choice([0.2, 1.0, 3.0, 10.0])), n_iter=int(m.rng.choice([1, 3, 6])), virtual_binning=b,
            axial_grid_dimension=int(m.rng.integers(1, 4)), kernel_radius_in_steps=int(m.rng.choice([0, 1, 1, 2])),
            shrink_factor=float(m.rng.choice([0.3, 0.5, 0.9])), match_dtype=torch.float16 if half else T32)
        q, dots = refined(m, s, orientation_grid_refinement, P, q0, batch_size=int(m.rng.choice([1, 4, 100])), **kw)
        m.seen(P.reshape(n, -1), tag=rep)
        tol = 3e-3 if half else 3e-5
        in_zone(m, s, q)
        before, after = s.ncc(m, P, q0), s.ncc(m, P, q)
        z = s.ncc(m, P, m.call(ori_to_fz_laue, q0, s.lg))
        m.small(np.minimum(before, z) - after, tol, "grid:never-worse", f"laue {s.lg} {kw}")
        m.need(isinstance(dots, list) and len(dots) == 1, "grid:scores-per-phase")
        D = ref.npf(m.shape(dots[0], (n, kw["n_iter"]), "grid:scores-shape"))
        m.small(abs(D[:, -1] - after), tol, "grid:score-of-stored-orientation", f"laue {s.lg} {kw}")
        m.small(-np.diff(D, axis=1), tol, "grid:scores-never-fall")
        # no further from the start than the steps can reach
        reach = kw["n_iter"] * kw["grid_semi_edge_in_degrees"]
        m.small(misori(s.lg, ref.npf(q0), ref.npf(q)) - reach, 0.05, "grid:within-reach")
        if kw["kernel_radius_in_steps"] == 0:
            m.small(misori(s.lg, ref.npf(q0), ref.npf(q)), 0.1, "grid:single-point-keeps-start")
        if not half:
            for bs in (1, 3, n, 1000):
                q2, d2 = refined(m, s, orientation_grid_refinement, P, q0, batch_size=bs, **kw)
                m.small(abs(s.ncc(m, P, q2) - after), 3e-5 if kw["n_iter"] == 1 else 3e-3, "grid:batch-independent")


@PROP.scenario("one-step-is-best", rounds=4, thorough_rounds=30)
def one_step(m):
    """one iteration stores the grid point with the highest correlation."""
    s = Setup(m)
    n = int(m.rng.integers(2, 8))
    qt, q0, P = s.start(m, n, m.rng.uniform(0, 6, n), 0.3)
    k, dim, edge = int(m.rng.integers(1, 3)), int(m.rng.integers(1, 4)), float(m.rng.uniform(1, 8))
    q, _ = refined(m, s, orientation_grid_refinement, P, q0, batch_size=3, n_iter=1, grid_semi_edge_in_degrees=edge,
                   kernel_radius_in_steps=k, axial_grid_dimension=dim, match_dtype=T32)
    m.seen(P.reshape(n, -1))
    a = np.arange(-k, k + 1) * edge * np.pi ** (2 / 3) / 360 / k
    cu = np.stack(np.meshgrid(a, a, a, indexing="ij"), -1).reshape(-1, 3)
    cu = cu[(cu == 0).sum(1) >= 3 - dim]
    g = ref.cu_to_q(cu)
    best = np.full(n, -2.0)
    for r in g:
        c = ref.qmul(r[None], ref.npf(q0))
        best = np.maximum(best, s.ncc(m, P, m.call(ori_to_fz_laue, torch.tensor(c, dtype=T32), s.lg)))
    m.small(best - s.ncc(m, P, q), 1e-4, "one-step:best-of-grid", f"laue {s.lg} edge {edge} k {k} dim {dim}")
    near = np.stack([np.degrees(ref.qangle(ref.qmul(np.asarray(o, float)[None], ref.qmul(r[None], ref.npf(q0))), ref.npf(q)))
                     for r in g for o in laue.GROUPS[s.lg]]).min(0)
    m.small(near, 0.1, "one-step:is-grid-point")


@PROP.scenario("gradient", rounds=5, thorough_rounds=40)
def gradient(m):
    b = int(m.rng.choice([1, 1, 2]))
    s = Setup(m, b)
    n = int(m.rng.choice([1, 2, 9]))
    for rep in range(3):
        half = rep == 2
        lr = float(m.rng.choice([1e-4, 1e-3, 5e-3, 0.1]))
        qt, q0, P = s.start(m, n, m.rng.uniform(0, 8, n), m.rng.choice([0, 0.5, 3]))
        kw = dict(n_iter=int(m.rng.choice([1, 10, 30])), learning_rate=lr, virtual_binning=b, match_dtype=torch.float16 if half else T32)
        q, _ = refined(m, s, orientation_grad_refinement, P, q0, batch_size=int(m.rng.choice([1, 4, 100])), **kw)
        m.seen(P.reshape(n, -1), tag=rep)
        before, after = s.ncc(m, P, q0, "bicubic"), s.ncc(m, P, q, "bicubic")
        m.small(before - after, 3e-3 if half else 3e-5, "grad:never-worse", f"laue {s.lg} {kw}")
        moved = (q != q0).any(1)
        if bool(moved.any()):
            in_zone(m, s, q[moved], "grad:fundamental-zone")
        if not half and lr <= 1e-3:
            for bs in (1, n):
                q2, _ = refined(m, s, orientation_grad_refinement, P, q0, batch_size=bs, **kw)
                m.small(abs(s.ncc(m, P, q2, "bicubic") - after), 5e-3, "grad:batch-independent")


@PROP.scenario("batch-independent", rounds=3, thorough_rounds=20)
def batch_independent(m):
    """where a pattern ends up depends on that pattern only: some start at their optimum, some far from it."""
    s = Setup(m)
    n = 12
    qt, q0, P = s.start(m, n, m.rng.choice([0.0, 0.3, 2.0, 5.0], n), 0.2)
    m.seen(P.reshape(n, -1))
    for fn, kw, tol in ((orientation_grid_refinement, dict(grid_semi_edge_in_degrees=float(m.rng.uniform(1, 3)), n_iter=4), 2e-3),
                        (orientation_grad_refinement, dict(n_iter=10, learning_rate=2e-3), 0.02)):
        one, d1 = refined(m, s, fn, P, q0, batch_size=1, match_dtype=T32, **kw)
        perm = m.rng.permutation(n)
        for bs in (5, n):
            q, _ = refined(m, s, fn, P[perm], q0[perm], batch_size=bs, match_dtype=T32, **kw)
            off = misori(1, ref.npf(one)[perm], ref.npf(q))
            # a tie within rounding may send a pattern another way, but not many of them
            m.small((off > tol).sum(), 2, f"batch-independent:{'grid' if kw['n_iter'] == 4 else 'grad'}", f"batch {bs}: {np.round(off, 3)}")


@PROP.scenario("dead-patterns", rounds=2, thorough_rounds=12)
def dead_patterns(m):
    """patterns without any contrast keep a valid orientation, and leave the others alone"""
    s = Setup(m)
    n = 9
    qt, q0, P = s.start(m, n, m.rng.uniform(0, 5, n), 0.2)
    dead = m.rng.random(n) < 0.3
    dead[m.rng.integers(0, n)] = True
    X = P.clone()
    X[torch.tensor(dead)] = torch.tensor(m.rng.choice([0.0, 1.0, 255.0, 0.1], (int(dead.sum()), 1, 1)), dtype=X.dtype)
    m.seen(ref.npf(X).reshape(n, -1))
    for fn, kw in ((orientation_grid_refinement, dict(grid_semi_edge_in_degrees=2.0, n_iter=4)), (orientation_grad_refinement, dict(n_iter=10, learning_rate=2e-3))):
        for bs in (1, 4, n):
            q, _ = refined(m, s, fn, X, q0, batch_size=bs, match_dtype=T32, **kw)
            live = torch.tensor(~dead)
            mode = "bilinear" if fn is orientation_grid_refinement else "bicubic"
            a, b = s.ncc(m, P, q0, mode)[~dead], s.ncc(m, P, q, mode)[~dead]
            m.small(a - b, 3e-5, "dead:others-never-worse", f"laue {s.lg} batch {bs}")
            one, _ = refined(m, s, fn, P[live], q0[live], batch_size=bs, match_dtype=T32, **kw)
            m.small((misori(1, ref.npf(one), ref.npf(q[live])) > 0.02).sum(), 1, "dead:others-unharmed")


@PROP.scenario("recovery", rounds=3, thorough_rounds=20)
def recovery(m):
    """noise-free patterns perturbed by a few degrees come back towards the truth."""
    s = Setup(m)
    n = 12
    deg = float(m.rng.uniform(1.5, 4))
    qt, q0, P = s.start(m, n, deg)
    m.seen(P.reshape(n, -1))
    start = misori(s.lg, qt, ref.npf(q0))
    before = s.ncc(m, P, q0)
    for fn, kw in ((orientation_grid_refinement, dict(grid_semi_edge_in_degrees=2.0, n_iter=10)),
                   (orientation_grid_refinement, dict(grid_semi_edge_in_degrees=2.0, n_iter=14, axial_grid_dimension=1)),
                   (orientation_grad_refinement, dict(n_iter=100, learning_rate=2e-3))):
        for dt in (T32, torch.float16):
            q, _ = refined(m, s, fn, P, q0, batch_size=5, match_dtype=dt, **kw)
            mis = misori(s.lg, qt, ref.npf(q))
            nm = "grid" if fn is orientation_grid_refinement else "grad"
            m.small(np.median(mis) / np.median(start), 0.6, f"recovery:{nm}-closer", f"laue {s.lg} from {np.median(start):.2f}: {np.round(mis, 2)}")
            after = s.ncc(m, P, q)
            gain = np.median((1 - after) / np.maximum(1 - before, 1e-9))
            m.small(gain, 0.6, f"recovery:{nm}-correlation")


@PROP.scenario("phases", rounds=4, thorough_rounds=20)
def phases(m):
    """every pattern is refined against its own phase, also when a phase is empty."""
    a = Setup(m)
    S = [a, Setup(m, like=a), Setup(m, like=a)]
    n = 12
    used = m.rng.choice([0, 1, 2], 2, replace=False)
    ph = m.rng.choice(used, n)
    P = torch.zeros(n, *a.shape)
    q0 = torch.zeros(n, 4)
    for j, s in enumerate(S):
        k = ph == j
        if k.any():
            _, q0[k], P[k] = s.start(m, int(k.sum()), m.rng.uniform(0, 4, int(k.sum())))
    m.seen(P.reshape(n, -1))
    for fn, mode, kw in ((orientation_grid_refinement, "bilinear", dict(grid_semi_edge_in_degrees=1.5, n_iter=4)),
                         (orientation_grad_refinement, "bicubic", dict(n_iter=30))):
        q, dots = refined(m, a, fn, P, q0, phases=ph, mps=[s.mp for s in S], batch_size=int(m.rng.choice([2, 50])), match_dtype=T32, **kw)
        for j, s in enumerate(S):
            k = torch.tensor(ph == j)
            if not bool(k.any()):
                continue
            b, c = s.ncc(m, P[k], q0[k], mode), s.ncc(m, P[k], q[k], mode)
            m.small(b - c, 3e-5, "phases:never-worse")
            alone, _ = refined(m, s, fn, P[k], q0[k], batch_size=50, match_dtype=T32, **kw)
            m.small(abs(s.ncc(m, P[k], alone, mode) - c), 4e-3, "phases:as-if-alone")
            if dots is not None and len(dots) == 3:
                m.small(abs(ref.npf(dots[j])[ph == j, -1] - c), 3e-5, "phases:scores")


@PROP.scenario("scan-position", rounds=3, thorough_rounds=20)
def scan_position(m):
    """with individual pattern centres the source of a pattern is its scan point."""
    s = Setup(m)
    n = 8
    c = m.rng.uniform(-0.3, 0.3, (n, 2)) * s.shape[0]
    from vlib import geom
    x = geom.pixel_positions(geom.grid(s.shape), s.pc, s.shape, s.tilts[2] - s.tilts[1], s.tilts[0])
    d = x[None] - np.c_[c, np.zeros(n)][:, None]
    d /= np.linalg.norm(d, axis=-1, keepdims=True)
    qt, q0, P = s.start(m, n, 2.5, dirs=d)
    m.seen(P.reshape(n, -1))
    kw = dict(grid_semi_edge_in_degrees=1.5, n_iter=8, average_pattern_center=False, coords=torch.tensor(c, dtype=T32), match_dtype=T32)
    q, dots = refined(m, s, orientation_grid_refinement, P, q0, batch_size=int(m.rng.choice([3, 50])), **kw)
    b, a = s.ncc(m, P, q0, dirs=d), s.ncc(m, P, q, dirs=d)
    m.small(b - a, 3e-5, "scan-position:never-worse")
    m.small(abs(ref.npf(dots[0])[:, -1] - a), 1e-4, "scan-position:score")
    mis = misori(s.lg, qt, ref.npf(q))
    m.small(np.median(mis), 1.5, "scan-position:closer", f"laue {s.lg} {np.round(mis, 2)}")
    # the same by gradient
    kw.pop("grid_semi_edge_in_degrees")
    kw.update(n_iter=30, learning_rate=1e-3)
    q, _ = refined(m, s, orientation_grad_refinement, P, q0, batch_size=int(m.rng.choice([3, 50])), **kw)
    b, a = s.ncc(m, P, q0, "bicubic", dirs=d), s.ncc(m, P, q, "bicubic", dirs=d)
    m.small(b - a, 3e-5, "scan-position:gradient-never-worse", f"laue {s.lg}")
    mis = misori(s.lg, qt, ref.npf(q))
    m.small(np.median(mis), 2.4, "scan-position:gradient-closer", f"laue {s.lg} {np.round(mis, 2)}")


@PROP.scenario("defaults", rounds=2)
def defaults(m):
    s = Setup(m)
    qt, q0, P = s.start(m, 5, 2.0, 0.3)
    m.seen(P.reshape(5, -1))
    b = s.ncc(m, P, q0)
    q, _ = refined(m, s, orientation_grid_refinement, P, q0, grid_semi_edge_in_degrees=1.0, batch_size=3)
    m.small(b - s.ncc(m, P, q), 4e-3, "defaults:grid")
    b = s.ncc(m, P, q0, "bicubic")
    q, _ = refined(m, s, orientation_grad_refinement, P, q0, batch_size=3)
    m.small(b - s.ncc(m, P, q, "bicubic"), 4e-3, "defaults:grad")
    e = m.call(ExperimentPatterns, P)
    e.phases = torch.zeros(5, dtype=torch.long)
    for fn, kw in ((orientation_grid_refinement, dict(grid_semi_edge_in_degrees=1.0)), (orientation_grad_refinement, {})):
        try:
            with sim.quiet():
                m.call(fn, s.mp, s.geom, e, batch_size=2, **kw)
            m.expect(False, "defaults:unindexed-rejected")
        except Exception:  # noqa: BLE001
            m.expect(True, "defaults:unindexed-rejected")
