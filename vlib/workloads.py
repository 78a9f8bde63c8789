"""Computations on several arguments or objects, for the checks that watch what calls do besides their result (C33, C34).

A workload is a function rng -> (inputs, run, random): `inputs` is a list of tensors that belong to the caller, run(*inputs)
returns the tensors that the computation produced, and `random` says that it draws from torch's random generator by design.
"""
import contextlib
import io

import numpy as np
import torch

from ebsdtorch.crystallography import diffraction, ebsd_master, groups, kvectors
from ebsdtorch.crystallography.scattering_factors import scattering_factors_Hybrid as HY
from ebsdtorch.crystallography.scattering_factors import scattering_factors_LVD_TCB as LV
from ebsdtorch.crystallography.scattering_factors import scattering_factors_WK as WK
from ebsdtorch.crystallography.unit_cell import Cell
from ebsdtorch.ebsd import fitting
from ebsdtorch.ebsd.experiment_pats import ExperimentPatterns
from ebsdtorch.ebsd.geometry import EBSDGeometry, bruker_geometry_from_SE3, bruker_geometry_to_SE3
from ebsdtorch.ebsd.indexing import dictionary_index_orientations, pca_dictionary_index_orientations
from ebsdtorch.ebsd.master_pattern import MasterPattern
from ebsdtorch.ebsd.project_hrebsd import hrebsd_coords, project_hrebsd
from ebsdtorch.ebsd.refining import get_local_orientation_grid, orientation_grad_refinement, orientation_grid_refinement
from ebsdtorch.harmonics import sht, sht_cc
from ebsdtorch.harmonics import wigner_d_logspace as lg
from ebsdtorch.harmonics import wigner_d_xnum as xn
from ebsdtorch.preprocessing.clahe import clahe_grayscale
from ebsdtorch.preprocessing.nlpar import nlpar
from ebsdtorch.preprocessing.radial_mask import get_radial_mask
from ebsdtorch.preprocessing.resampling import BlurAndDownsample, GaussianBlur2d
from ebsdtorch.s2_and_so3 import laue_fz_ori, laue_fz_s2, laue_generators, quaternions, sampling
from ebsdtorch.simulation.monte_carlo import bse_sim_mc
from ebsdtorch.utils import factorize, knn, mutual_information
from ebsdtorch.utils.pca_covmat import OnlineCovMatrix
from ebsdtorch.utils.pca_online import KrasulinaPCA, OjaPCA
from vlib import ref, sim

CPU = torch.device("cpu")
T32, T64 = torch.float32, torch.float64
ALL = {}


def work(name, random=False):
    def deco(f):
        ALL[name] = (f, random)
        return f

    return deco


def t32(x):
    return torch.tensor(np.asarray(x), dtype=T32)


def t64(x):
    return torch.tensor(np.asarray(x), dtype=T64)


class Scene:
    def __init__(self, rng, n=5):
        self.lg = int(rng.choice([7, 9, 11]))
        self.shape = (12, 10)
        self.pc, self.tilts = sim.detector(rng, self.shape)
        self.img = sim.images(sim.intensity(rng, self.lg, 3, 0.15), 31)
        self.mp = t32(np.concatenate(list(self.img), -1))
        self.q = ref.rand_q(rng, n)
        P = sim.simulate(self.img, sim.directions(self.shape, self.pc, self.tilts), self.q)
        self.P = t32((P + 0.2 * P.std() * rng.normal(size=P.shape)).reshape(n, *self.shape) * 20 + 3)
        self.res = {7: 28.0, 9: 20.0, 11: 16.0}[self.lg]

    def geom(self):
        return EBSDGeometry(self.shape, self.tilts, self.pc)

    def master(self, img):
        mp = MasterPattern(img, laue_group=self.lg)
        mp.normalize("minmax")
        return mp


@work("indexing", random=True)
def indexing(rng):
    s = Scene(rng)
    opts = [dict(), dict(distance_metric="euclidean", match_dtype=T32, quantized_if_x86=False), dict(distance_metric="manhattan", match_dtype=T32, quantized_if_x86=False),
            dict(virtual_binning=2, match_dtype=T32, quantized_if_x86=False, top_k_matches=2), dict(subtract_exp_pat_mean=False, match_dtype=T32, quantized_if_x86=False, dictionary_chunk_size=17, experiment_chunk_size=2)]
    opt = opts[int(rng.integers(len(opts)))]
    mask = torch.tensor(rng.random(s.shape) < 0.8)
    use = rng.random() < 0.5 and "virtual_binning" not in opt

    def run(img, P, mask):
        e = ExperimentPatterns(P)
        dictionary_index_orientations(s.master(img), s.geom(), e, signal_mask=mask if use else None, dictionary_resolution_degrees=s.res, **opt)
        return [e.orientations]

    return [s.mp, s.P, mask], run


@work("pca-indexing", random=True)
def pca_indexing(rng):
    s = Scene(rng)
    mask = torch.tensor(rng.random(s.shape) < 0.9)

    def run(img, P, mask):
        e = ExperimentPatterns(P)
        pca_dictionary_index_orientations(s.master(img), s.geom(), e, 20, signal_mask=mask, dictionary_resolution_learn_deg=s.res, dictionary_resolution_index_deg=s.res,
                                          match_dtype=T32, quantized_via_ao=False, dictionary_chunk_size=64)
        return [e.orientations]

    return [s.mp, s.P, mask], run


@work("grid-refinement")
def grid_refinement(rng):
    s = Scene(rng)
    q0 = laue_fz_ori.ori_to_fz_laue(t32(ref.qmul(s.q, ref.rand_q(rng, 1) * [1, 0, 0, 0] + [[1, 0.02, 0.01, -0.02]])), s.lg)
    q0 = q0 / q0.norm(dim=1, keepdim=True)

    def run(img, P, q0):
        e = ExperimentPatterns(P)
        e.set_orientations(q0)
        e.phases = torch.zeros(len(P), dtype=torch.long)
        dots = orientation_grid_refinement(s.master(img), s.geom(), e, grid_semi_edge_in_degrees=2.0, n_iter=3, batch_size=3, axial_grid_dimension=2, match_dtype=T32)
        return [e.orientations, *dots]

    return [s.mp, s.P, q0], run


@work("gradient-refinement")
def gradient_refinement(rng):
    s = Scene(rng)
    q0 = laue_fz_ori.ori_to_fz_laue(t32(s.q), s.lg)

    def run(img, P, q0):
        e = ExperimentPatterns(P)
        e.set_orientations(q0)
        e.phases = torch.zeros(len(P), dtype=torch.long)
        orientation_grad_refinement(s.master(img), s.geom(), e, n_iter=4, learning_rate=1e-3, batch_size=3, match_dtype=T32)
        return [e.orientations]

    return [s.mp, s.P, q0], run


@work("local-grid")
def local_grid(rng):
    a = float(rng.uniform(0.5, 5))
    n = int(rng.integers(1, 4))
    return [], lambda: list_(get_local_orientation_grid(a, n))


def list_(x):
    return [v for v in x if isinstance(v, torch.Tensor)] if isinstance(x, (tuple, list)) else [x]


@work("scan")
def scan(rng):
    P = t32(rng.random((3, 4, 16, 12)) * 200)
    q = t32(ref.rand_q(rng, 12))
    xy = t32(rng.random((12, 3)))
    F = t32(np.eye(3) + 0.01 * rng.normal(size=(12, 3, 3)))
    i = torch.tensor(rng.integers(0, 12, 7))
    ops = [[("subtract_overall_background",)], [("normalize_per_pattern", "minmax")], [("normalize_per_pattern", "zeromean")], [("normalize_per_pattern", "standard")],
           [("normalize_per_pattern", "minmax"), ("contrast_enhance_clahe", 4.0, 2, 16)], [("standard_clean",)], [("do_nlpar", 1)]]
    seq = sum([ops[k] for k in rng.permutation(len(ops))[:3]], [])
    b = int(rng.choice([1, 2]))

    def run(P, q, xy, F, i):
        e = ExperimentPatterns(P)
        e.set_orientations(q)
        e.set_spatial_coords(xy)
        e.set_inv_f_matrix(F)
        out = [e.get_patterns(i, b)]
        for s in seq:
            getattr(e, s[0])(*s[1:])
            out.append(e.get_patterns(i, b))
        return out + [e.get_orientations(i), e.get_spatial_coords(i), e.get_inv_f_matrix(i), e.patterns]

    return [P, q, xy, F, i], run


@work("scan-phases")
def scan_phases(rng):
    P = t32(rng.random((6, 8, 8)))
    s = [t32(rng.random((6, 2))) for _ in range(2)]
    q = [t32(ref.rand_q(rng, 12).reshape(6, 2, 4)) for _ in range(2)]
    high = bool(rng.random() < 0.5)

    def run(P, s0, s1, q0, q1):
        e = ExperimentPatterns(P)
        e.set_raw_indexing_results(q0, s0, 0)
        e.set_raw_indexing_results(q1, s1, 1)
        e.combine_indexing_results(high)
        return [e.orientations, e.phases, *e.get_indices_per_phase()]

    return [P, *s, *q], run


@work("nlpar")
def w_nlpar(rng):
    k = int(rng.integers(1, 3))
    return [t32(rng.random((5, 6, 8, 7)))], lambda D: [nlpar(D, k_rad=k)]


@work("clahe")
def w_clahe(rng):
    return [t32(rng.random((3, 1, 20, 24)))], lambda x: [clahe_grayscale(x, 4.0, 16, (3, 2))]


@work("resampling")
def resampling(rng):
    return [t32(rng.random((3, 1, 20, 24)))], lambda x: [GaussianBlur2d(1.2)(x), BlurAndDownsample(2)(x), get_radial_mask((20, 24), 9.0)]


@work("master-pattern")
def master_pattern(rng):
    a, b = (t32(rng.random((15, 15)) * 9 + 2) for _ in range(2))
    v = t32(rng.normal(size=(40, 3)))
    kind = str(rng.choice(["minmax", "zeromean", "standard"]))
    pair = rng.random() < 0.5

    def run(a, b, v):
        m = MasterPattern((a, b) if pair else torch.cat((a, b), -1), laue_group=2)
        out = [m.interpolate(v), m.interpolate(v / v.norm(dim=-1, keepdim=True), mode="bicubic", normalize_coords=False), m.interpolate(v, virtual_binning=3)]
        m.normalize(kind)
        out += [m.interpolate(v), m.interpolate(v, virtual_binning=3)]
        m.normalize("minmax")
        m.bin(5)
        m.apply_clahe(4.0, 16, (3, 2))
        return out + [m.interpolate(v), m.master_pattern]

    return [a, b, v], run


@work("geometry")
def geometry(rng):
    g6 = t32(rng.normal(size=(1, 6)) * 0.02)
    px = t32(rng.uniform(0, 60, (7, 2)))
    xy = t32(rng.uniform(-5, 5, (6, 2)))
    pcs, tilt, sx = t32(rng.uniform(0.3, 0.7, (4, 3))), t32(rng.uniform(60, 75, 4)), t32(rng.uniform(-5, 5, 4))

    def run(g6, px, xy, pcs, tilt, sx):
        e = EBSDGeometry((60, 80), (0.5, 70.0, 5.0), (0.5, 0.6, 0.55), se3_vector=g6)
        R, t = e.get_detector2sample()
        s = e.project2sample(px)
        R4, t4 = bruker_geometry_to_SE3(pcs, tilt, sx, (60, 80))
        out = [R, t, s, e.backproject2detector(s), e.get_coords_sample_frame((10, 10)), R4, t4, *bruker_geometry_from_SE3(R4, t4, (60, 80)), *fitting.bruker_geometries_to_SE3(pcs, tilt, sx, (60, 80))]
        e.set_optimizable_se3_params((True, False, True), (False, True, False))
        return [o.detach() for o in out + [*e.get_detector2sample()]]

    return [g6, px, xy, pcs, tilt, sx], run


@work("high-resolution")
def high_resolution(rng):
    mp = t32(rng.random((21, 42)))
    mask = torch.tensor([1.0, 0, 1, 0, 1, 1])
    vec, q, F = t32(rng.normal(size=(3, 6)) * 0.01), t32(ref.rand_q(rng, 3)), t32(np.eye(3) + 0.01 * rng.normal(size=(3, 3, 3)))

    def run(mp, mask, vec, q, F):
        c = hrebsd_coords(mask, vec, q, F, (8, 10), 2, CPU)
        return [c, project_hrebsd(MasterPattern(mp, laue_group=2), c)]

    return [mp, mask, vec, q, F], run


@work("pattern-centre-tools")
def pc_tools(rng):
    px = t32(np.c_[rng.uniform(0, 10, (30, 2)), np.zeros(30)])
    R, t, q = t32(ref.q_to_R(ref.rand_q(rng, 1))[0]), t32(rng.normal(size=3)), t32(ref.rand_q(rng, 4))

    def run(px, R, t, q):
        return [fitting.get_3D_pixel_coords((8, 10), CPU, 2), fitting.apply_geometry(px, R, t), fitting.generate_dictionary_coords(px, q, R, t)]

    return [px, R, t, q], run


@work("pattern-centre-fit", random=True)
def pc_fit(rng):
    s = Scene(rng, 2)
    metric = str(rng.choice(["dot", "mi"]))

    def run(img, P):
        return list_(fitting.spatial_fft_pc_fitter(s.master(img), P[:, None], pc_x_min=0.3, pc_x_max=0.7, pc_y_min=0.3, pc_y_max=0.7, pc_z_min=0.4, pc_z_max=0.6, pc_z_steps=2, primary_tilt_deg=70.0,
                                                   secondary_tilt_deg=0.0, dictionary_resolution_deg=30.0, dictionary_indexing_batch_size=50, virtual_binning=1, metric=metric))

    return [s.mp, s.P], run


@work("nearest-neighbours")
def neighbours(rng):
    X, Q = t32(rng.normal(size=(50, 12))), t32(rng.normal(size=(9, 12)))
    metric = str(rng.choice(["angular", "euclidean", "manhattan"]))
    dt = torch.float16 if rng.random() < 0.3 and metric == "angular" else T32
    ao = bool(rng.random() < 0.5) and metric == "angular"

    def run(X, Q):
        s = knn.ChunkedKNN(50, 9, 3, CPU, distance_metric=metric, match_dtype=dt, quantized_via_ao=ao)
        for a in (0, 20, 40):
            s.set_data_chunk(X[a : a + 20])
            s.query_chunk(Q[4:], 4)
            s.query_chunk(Q[:4], 0)
        out = list(s.retrieve_topk())
        return out + list(knn.knn_batch(X, Q, 3, metric)) if hasattr(knn, "knn_batch") and metric in ("angular", "euclidean", "manhattan") and dt == T32 else out

    return [X, Q], run


@work("covariance")
def covariance(rng):
    X = [t32(rng.normal(size=(n, 9)) + 3) for n in (5, 12, 8)]
    dt = T64 if rng.random() < 0.5 else T32
    c = bool(rng.random() < 0.5)

    def run(*X):
        p = OnlineCovMatrix(9, covmat_dtype=dt, correlation=c)
        for x in X:
            p(x)
        v = p.get_eigenvectors()
        return [p.get_covmat(), v.T @ v, p.get_covmat()]

    return X, run


@work("online-components", random=True)
def online(rng):
    X = [t32(rng.normal(size=(20, 9))) for n in range(4)]
    cls = [KrasulinaPCA, OjaPCA][int(rng.integers(2))]

    def run(*X):
        p = cls(9, 3)
        for x in X:
            p(x)
        return [p.get_components(), p.transform(X[0])]

    return X, run


@work("mutual-information")
def mi(rng):
    a, b = t32(rng.random((3, 200))), t32(rng.random((3, 200)))
    la, lb = torch.tensor(rng.integers(0, 6, (3, 200))), torch.tensor(rng.integers(0, 5, (3, 200)))
    x, y = t32(rng.random((2, 1, 12, 12))), t32(rng.random((2, 1, 12, 12)))

    def run(a, b, la, lb):
        return [mutual_information.mutual_information(a, b, 8), mutual_information.batch_binned_nmi(la, lb, 6, 5), torch.tensor(mutual_information.binned_nmi(la[0], lb[0], 6, 5))]

    return [a, b, la, lb], run


@work("harmonic-transform")
def harmonic(rng):
    L = int(rng.integers(2, 9))
    f = torch.complex(t64(rng.normal(size=(2, 2 * L, 2 * L))), t64(rng.normal(size=(2, 2 * L, 2 * L))))
    r = t64(rng.normal(size=(2, 2 * L, 2 * L)))
    S = sht.CSHT(L, CPU, "double")
    T = sht.RSHT(L, CPU, "double")

    def run(f, r):
        a, b = S.fsht(f), T.fsht(r)
        return [a, S.isht(a), b, T.isht(b), *list_(sht.grid_DriscollHealy(L))]

    return [f, r], run


@work("harmonic-correlation")
def correlation(rng):
    B = int(rng.integers(2, 7))
    f = [torch.complex(t64(rng.normal(size=s)), t64(rng.normal(size=s))) for s in [(2, 2 * B - 1, B)] * 2 + [(2, B, B)] * 2]
    d = lg.wigner_d_eq_half_pi(B + 1, T64, CPU)
    dense = torch.complex(t64(rng.normal(size=(B, 2 * B - 1, 2 * B - 1))), t64(np.zeros((B, 2 * B - 1, 2 * B - 1))))

    def run(F, G, f, g, d, dense):
        return [sht_cc.cs2cc_(B, F, G, d), sht_cc.rs2cc_(B, f, g, d), sht_cc.rs2cc_fast_(B, f, g, dense)]

    return [*f, d, dense], run


@work("rotation-functions")
def rotation_functions(rng):
    L = int(rng.integers(2, 12))
    b = float(rng.uniform(0.1, 1.5))
    lmn = torch.tensor([(l, m, n) for l in range(L) for m in range(l + 1) for n in range(l + 1)])
    lmn = lmn[torch.tensor(rng.permutation(len(lmn)))]
    beta, beta2 = t64(b), t64(np.pi - b)

    def run(lmn, beta, beta2):
        t = lg.wigner_d_lt_half_pi(beta, L, T64, CPU)
        h = lg.wigner_d_eq_half_pi(L, T64, CPU)
        g = lg.wigner_d_gt_half_pi(beta2, L, T64, CPU)
        x = xn.wigner_d_xnum(beta, L, CPU)
        return [lg.read_lmn_wigner_d_half_pi_table(k, lmn) for k in (t, h, g)] + [xn.retrieve_wigner_d(x, lmn), lg.index_from_coords(lmn), xn.index_from_coords(lmn)]

    return [lmn, beta, beta2], run


CRYSTALS = [
    (225, [(28, 0.0, 0.0, 0.0, 1.0, 0.0035)], (0.35236,) * 3, (90.0, 90.0, 90.0)),
    (14, [(14, 0.1, 0.2, 0.3, 1.0, 0.005), (8, 0.3, 0.7, 0.1, 0.5, 0.004)], (0.5, 0.6, 0.7), (90.0, 101.0, 90.0)),
    (194, [(12, 1 / 3, 2 / 3, 0.25, 1.0, 0.006)], (0.32, 0.32, 0.52), (90.0, 90.0, 120.0)),
    (227, [(14, 0.0, 0.0, 0.0, 1.0, 0.005)], (0.5431,) * 3, (90.0, 90.0, 90.0)),
    (166, [(83, 0.0, 0.0, 0.234, 1.0, 0.007)], (0.4546, 0.4546, 1.1862), (90.0, 90.0, 120.0)),
    (2, [(29, 0.1, 0.2, 0.35, 1.0, 0.005)], (0.41, 0.52, 0.63), (81.0, 97.0, 104.0)),
]


def crystal(k):
    sg, at, abc, ang = CRYSTALS[k]
    return Cell(sg, at, abc, "nm", ang, "deg")


@work("unit-cell")
def unit_cell(rng):
    k = int(rng.integers(len(CRYSTALS)))
    p, s = t64(rng.integers(-3, 4, (6, 3))), t64(rng.integers(1, 4, (6, 3)))
    half = bool(rng.random() < 0.3)

    def run(p, s):
        c = crystal(k)
        if half:
            c = c.set_fp_dtype(T32)
            p, s = p.float(), s.float()
        out = [c.transform_space(p, "r", "c"), c.transform_space(p, "d", "c"), c.calc_dot(p, s, "d"), c.calc_length(p, "r"), c.calc_angle(p[:1] + 0.5, s[:1], "d"), c.get_density, c.get_volume,
               c.get_average_atomic_number, c.get_average_atomic_weight, c.get_direct_metric_tensor, c.get_reciprocal_structure_matrix]
        out += [c.get_reflections(0.12, False), c.get_reflections(0.2, True), c.norm_vec(p + 0.5, "d"), c.calc_auto_dot(p, "r"), c.transform_coordinates(p, torch.eye(3, dtype=p.dtype)[[1, 2, 0]], "d", "on"), c.transform_coordinates(p, torch.eye(3, dtype=p.dtype)[[1, 2, 0]], "r", "no"), diffraction.calc_sgh(c, 0.2)]
        return [torch.as_tensor(o) for o in out]

    return [p, s], run


@work("diffraction")
def w_diffraction(rng):
    k = int(rng.integers(4))
    kv = t32([15.0, 20.5][: int(rng.integers(1, 3))])
    sf = str(rng.choice(["WK", "Hybrid"]))

    def run(kv):
        c = crystal(k)
        hkl, U, up, lam = diffraction.calc_helper_bloch_formalism(c, 0.14, kv, scatter_factor=sf)
        r = diffraction.calc_helper_scatter_matrix(c, 0.14, kv, scatter_factor=sf)
        return list_([hkl, U, up, lam]) + list_(r)

    return [kv], run


@work("dynamical-master-pattern")
def dynamical(rng):
    k = int(rng.integers(4))
    kv = t32([15.0, 20.0])
    w = t32(rng.random((2, 10)))

    def run(kv, w):
        return list_(ebsd_master.ebsd_master_pattern(crystal(k), kv, 1.0, w, 0.16, k_chunk_size=7, grid_half_width=2))

    return [kv, w], run


@work("directions")
def directions(rng):
    k = int(rng.integers(len(CRYSTALS)))
    return [], lambda: list_(kvectors.kvectors_grid(crystal(k), 4))


@work("scattering-factors")
def scattering(rng):
    z = torch.tensor(rng.integers(2, 95, 4))
    u = t32(rng.uniform(0.002, 0.01, 4) * 100)
    g = t32(rng.uniform(0.01, 3, 6))
    kv = t32([10.0, 30.0])

    def run(z, u, g, kv):
        out = list_(LV.scatter_factor_LVD(g, z, u, kv, intervals=50))
        for f in (WK.scatter_factor_WK, HY.scatter_factor_hybrid):
            out += list_(f(g, z, u, kv))
        return out

    return [z, u, g, kv], run


@work("monte-carlo", random=True)
def monte_carlo(rng):
    return [], lambda: [bse_sim_mc(20.0, 2, 6, 3, 5.0, 50.0, 28.0, 8.9, 58.69, 200, 10**9, 400, 40, 70.0, 0.0, T32, CPU)]


@work("sampling")
def w_sampling(rng):
    n = int(rng.integers(1, 60))
    lgr = int(rng.integers(1, 12))

    def run():
        return [sampling.s2_fibonacci(n, CPU), sampling.so3_fibonacci(n, CPU), sampling.so3_cubochoric_grid(4, CPU), laue_fz_s2.sample_s2_fz_laue_fibonacci(lgr, 100, CPU), laue_generators.laue_elements(lgr)]

    return [], run


@work("random-sampling", random=True)
def random_sampling(rng):
    n = int(rng.integers(1, 60))
    lgr = int(rng.integers(5, 12))

    def run():
        return [sampling.so3_cu_rand(n, CPU), sampling.so3_uniform_quat(n, CPU), laue_fz_ori.sample_ori_fz_laue_angle(lgr, 25.0, CPU), laue_fz_ori.sample_ori_fz_laue(lgr, 200, CPU)]

    return [], run


@work("space-groups")
def space_groups(rng):
    k = int(rng.integers(1, 231))
    return [], lambda: list_(groups.sg_operators(k))


@work("rotating-sets")
def rotating(rng):
    a, b = (t64(rng.normal(size=(8, 3))) for _ in range(2))
    a, b = a / a.norm(dim=1, keepdim=True), b / b.norm(dim=1, keepdim=True)
    return [a, b], lambda a, b: [quaternions.quaternion_rotate_sets_sphere(a, b)]


@work("factorisation")
def factorisation(rng):
    n = int(rng.integers(2, 2**40))
    return [], lambda: [torch.tensor(factorize.FactorECM(n)), torch.tensor(factorize.nearly_square_factors(n))]
