"""Row-wise public operations of the library, with generators for their rows (used by C33 and C34)."""
import contextlib
import io

import numpy as np
import torch

from ebsdtorch.crystallography import diffraction, ebsd_master, kvectors
from ebsdtorch.crystallography.scattering_factors import scattering_factors_Hybrid, scattering_factors_LVD_TCB, scattering_factors_WK
from ebsdtorch.crystallography.unit_cell import Cell
from ebsdtorch.ebsd import fitting, geometry
from ebsdtorch.ebsd.geometry import EBSDGeometry
from ebsdtorch.ebsd.master_pattern import MasterPattern
from ebsdtorch.ebsd.project_hrebsd import hrebsd_coords
from ebsdtorch.harmonics import sht, sht_cc, wigner_d_logspace, wigner_d_xnum
from ebsdtorch.lie_algebra import se3
from ebsdtorch.preprocessing.clahe import clahe_grayscale
from ebsdtorch.preprocessing.resampling import BlurAndDownsample, GaussianBlur2d
from ebsdtorch.s2_and_so3 import laue_fz_misori, laue_fz_ori, laue_fz_s2, orientations, quaternions, sphere
from ebsdtorch.utils import knn, mutual_information, rosca_lambert
from ebsdtorch.utils.pca_online import KrasulinaPCA, OjaPCA
from vlib import ref, rots


CPU = torch.device("cpu")


def _unit(v):
    return v / np.linalg.norm(v, axis=-1, keepdims=True)


QSPECIAL = np.array([[1, 0, 0, 0], [-1, 0, 0, 0], [0, 1, 0, 0], [0, 0, -1, 0], [0, 0, 0, 1], [0.5, 0.5, 0.5, 0.5], [-0.5, 0.5, -0.5, 0.5]], float)
SSPECIAL = np.array([[0, 0, 1], [0, 0, -1], [1, 0, 0], [0, -1, 0]], float)


def _mix(x, special):
    k = min(len(special), max(len(x) // 4, 0))
    x[:k] = special[:k]
    return x


def g_qu(r, n):
    return _mix(_unit(r.normal(size=(n, 4))), r.permutation(QSPECIAL))


def g_q(r, n):
    "generic rotations only"
    return _unit(r.normal(size=(n, 4)))


def g_any4(r, n):
    return r.normal(size=(n, 4))


def g_rep(rep):
    def g(r, n):
        if rep == "cu":
            return _mix(r.uniform(-1, 1, (n, 3)) * np.pi ** (2 / 3) / 2, np.array([[0, 0, 0], [0.3, 0, 0], [0, -0.2, 0], [0, 0, 1.07]]))
        return np.asarray(rots.from_q(rep, rots.std(g_qu(r, n)) if rep not in ("qu",) else g_qu(r, n)), float)

    g.tail = rots.SIZE[rep]
    return g


def g_s2(r, n):
    return _mix(_unit(r.normal(size=(n, 3))), r.permutation(SSPECIAL))


def g_s2g(r, n):
    return _unit(r.normal(size=(n, 3)))


def g_v3(r, n):
    return r.normal(size=(n, 3))


def g_w(r, n):
    return _unit(r.normal(size=(n, 3))) * 10 ** r.uniform(-6, 0.45, (n, 1))


def g_w6(r, n):
    return np.concatenate([g_w(r, n), r.normal(size=(n, 3))], -1)


def g_R(r, n):
    return ref.q_to_R(g_q(r, n))


def g_se3m(r, n):
    m = np.tile(np.eye(4), (n, 1, 1))
    m[:, :3, :3], m[:, :3, 3] = g_R(r, n), r.normal(size=(n, 3))
    return m


def g_sq(r, n):
    return _mix(r.uniform(-1, 1, (n, 2)), np.array([[0, 0], [1, 1], [-1, 0.0], [0, 1]]))


def g_ang(r, n):
    return r.uniform(0.01, 3.1, n)


def g_pos(r, n):
    return 10 ** r.uniform(-3, 1.6, n)


def g_kv(r, n):
    return r.uniform(1, 300, n)


def g_img(h, w):
    def g(r, n):
        return r.random((n, h, w))

    return g


def g_flat(k):
    def g(r, n):
        return r.random((n, k))

    return g


def g_chan(h, w):
    def g(r, n):
        return r.random((n, 1, h, w))

    return g


def g_hkl(r, n):
    return r.integers(-4, 5, (n, 3)).astype(float)


class Op:
    """fn(*rows, *consts): every row argument has the batch dimensions first.

    cont: a small change of the input gives a small change of the output (precisions can be compared)
    dims: how many batch dimensions are supported: None any >= 1, k exactly k
    orbit: results are misorientations between these Laue groups, of which several are equally good representatives
    tol: multiple of the machine precision allowed between batchings
    """

    def __init__(self, name, fn, gens, consts=(), cont=True, dims=None, tol=200, dtypes=(torch.float32, torch.float64), keeps=True, prec=2e4, levels=False, orbit=None, empty=True):
        self.name, self.fn, self.gens, self.consts, self.cont, self.dims, self.tol, self.dtypes, self.keeps, self.prec, self.levels, self.orbit, self.empty = name, fn, gens, consts, cont, dims, tol, dtypes, keeps, prec, levels, orbit, empty

    def rows(self, rng, n, dtype):
        return [torch.tensor(np.asarray(g(rng, n)), dtype=dtype) for g in self.gens]

    def __call__(self, *rows):
        with contextlib.redirect_stdout(io.StringIO()):
            out = self.fn(*rows, *self.consts)
        return list(out) if isinstance(out, (tuple, list)) else [out]


def _ops():
    L = []

    def add(name, fn, *gens, **kw):
        L.append(Op(name, fn, gens, **kw))

    for p in rots.PAIRS:
        fn = getattr(orientations, p)
        add(p, fn, g_rep(p[:2]), cont=p[:2] != "bu" and p[3:] not in ("ro", "ax", "bu", "cu") and p[:2] not in ("cu",), tol=2e4, prec=1e6)
    for p in ("ho2ax_newton", "ho2ax_reference"):
        add(p, getattr(orientations, p), g_rep("ho"), cont=False, tol=2e4)
    q = quaternions
    for f in (q.qu_std, q.qu_norm, q.qu_norm_std):
        add(f.__name__ if hasattr(f, "__name__") else f.name, f, g_any4)
    for f in ("qu_prod_raw", "qu_prod", "qu_prod_axis"):
        add(f, getattr(q, f), g_q, g_q)
    add("qu_prod_pos_real", q.qu_prod_pos_real, g_q, g_q, cont=False)
    add("qu_triple_prod_pos_real", q.qu_triple_prod_pos_real, g_q, g_q, g_q, cont=False)
    add("qu_slerp", lambda a, b: q.qu_slerp(a, b, 0.3), g_q, g_q, tol=2e4, cont=False)
    add("qu_conj", q.qu_conj, g_qu)
    add("qu_apply", q.qu_apply, g_qu, g_v3)
    add("qu_angle", q.qu_angle, g_q, tol=2e4)
    add("theta_phi_to_xyz", sphere.theta_phi_to_xyz, g_ang, g_ang)
    add("xyz_to_theta_phi", sphere.xyz_to_theta_phi, g_s2, cont=False)
    add("rosca_lambert", sphere.rosca_lambert, g_s2, cont=False, tol=2000)
    add("inv_rosca_lambert", sphere.inv_rosca_lambert, g_sq, tol=2000)
    add("rosca_lambert_side_by_side", sphere.rosca_lambert_side_by_side, g_s2, cont=False, tol=2000)
    for lg in (1, 4, 6, 7, 9, 11):
        for f in ("ori_to_fz_laue", "ori_equiv_laue"):
            add(f"{f}[{lg}]", getattr(laue_fz_ori, f), g_q, consts=(lg,), cont=False)
        for f in ("ori_in_fz_laue", "ori_in_fz_laue_brute"):
            add(f"{f}[{lg}]", getattr(laue_fz_ori, f), g_q, consts=(lg,), cont=False, keeps=False)
        add(f"ori_angle_laue[{lg}]", laue_fz_ori.ori_angle_laue, g_q, g_q, consts=(lg,), tol=2e5, prec=1e5)
        for f in ("s2_to_fz_laue", "s2_equiv_laue"):
            add(f"{f}[{lg}]", getattr(laue_fz_s2, f), g_s2g, consts=(lg,), cont=False)
        add(f"s2_in_fz_laue[{lg}]", laue_fz_s2.s2_in_fz_laue, g_s2g, consts=(lg,), cont=False, keeps=False)
        add(f"ori_color_laue[{lg}]", lambda x, lg=lg: laue_fz_ori.ori_color_laue(x, torch.tensor([0.0, 0.6, 0.8], dtype=x.dtype), lg), g_q, cont=False, keeps=False, levels=True)
    for a, b in ((11, 11), (11, 9), (5, 10), (2, 7)):
        add(f"disorientation[{a},{b}]", laue_fz_ori.disorientation, g_q, g_q, consts=(a, b), cont=False, orbit=(a, b))
        add(f"disori_angle_laue[{a},{b}]", laue_fz_ori.disori_angle_laue, g_q, g_q, consts=(a, b), tol=2e5, prec=1e5)
        add(f"misori_to_fz_laue[{a},{b}]", laue_fz_misori.misori_to_fz_laue, g_q, consts=(a, b), cont=False, orbit=(a, b))
        add(f"disorientation_naive[{a},{b}]", laue_fz_misori.disorientation_naive, g_q, g_q, consts=(a, b), cont=False, orbit=(a, b))
        add(f"misori.disori_angle_laue[{a},{b}]", laue_fz_misori.disori_angle_laue, g_q, g_q, consts=(a, b), tol=2e5, prec=1e5)
    for f in ("skew", "w_exp", "w_exp_vmat", "w_to_v", "w_to_v_inv"):
        add(f, getattr(se3, f), g_w, tol=2e4, prec=1e5)
    for f in ("se3_exp_map_quat", "se3_exp_map_om", "se3_exp_map_split"):
        add(f, getattr(se3, f), g_w6, tol=2e4, prec=1e5)
    add("se3_log_map_quat", se3.se3_log_map_quat, g_q, g_v3, tol=2e4, cont=False)
    add("om_to_w", se3.om_to_w, g_R, tol=2e4, cont=False)
    add("se3_log_map_om", se3.se3_log_map_om, g_se3m, tol=2e4, cont=False)
    add("se3_log_map_split", se3.se3_log_map_split, g_R, g_v3, tol=2e4, cont=False)

    for f in ("square_to_hemisphere", "square_to_hemisphere_v2", "hexagon_to_hemisphere"):
        add(f"rosca.{f}", getattr(rosca_lambert, f), (lambda r, n: 0.8 * g_sq(r, n)) if "hex" in f else g_sq, tol=2000, cont="hex" not in f)
    for f in ("square_to_hemisphere", "hexagon_to_hemisphere"):
        add(f"kvectors.{f}", getattr(kvectors, f), (lambda r, n: 0.8 * g_sq(r, n)) if "hex" in f else g_sq, tol=2000, cont="hex" not in f)

    for mod, nm in ((scattering_factors_WK, "WK"), (scattering_factors_Hybrid, "Hybrid")):
        add(f"{nm}.exp1", mod.exp1, g_pos, tol=1000, prec=1e3)
        add(f"{nm}.expi", mod.expi, g_pos, tol=1000, cont=False)
        add(f"{nm}.e_wavelength_eV_to_A", mod.e_wavelength_eV_to_A, lambda r, n: 1e3 * g_kv(r, n))
    add("calc_lambda", diffraction.calc_lambda, g_kv, prec=100)
    with contextlib.redirect_stdout(io.StringIO()):
        cell = Cell(14, [(14, 0.1, 0.2, 0.3, 1.0, 0.005)], (0.5, 0.6, 0.7), "nm", (90.0, 101.0, 90.0), "deg")
    add("Cell.calc_length", lambda p: cell.calc_length(p, "r"), g_hkl, dtypes=(torch.float64,), tol=2e3)
    add("Cell.transform_space", lambda p: cell.transform_space(p, "r", "c"), g_hkl, dtypes=(torch.float64,), tol=2e3)
    add("Cell.calc_dot", lambda p, s: cell.calc_dot(p, s, "d"), g_v3, g_v3, dtypes=(torch.float64,), tol=2e3)

    with contextlib.redirect_stdout(io.StringIO()):
        cell_i = Cell(227, [(14, 0.0, 0.0, 0.0, 1.0, 0.005)], (0.5431,) * 3, "nm", (90.0,) * 3, "deg")
    geo = EBSDGeometry((60, 80), (1.0, 70.0, 3.0), (0.47, 0.6, 0.55))
    px = lambda r, n: r.uniform(-5, 90, (n, 2))
    add("project2sample", geo.project2sample, px, cont=False, tol=2000)
    add("backproject2detector", geo.backproject2detector, lambda r, n: geo.project2sample(torch.tensor(r.uniform(0, 60, (n, 2)))).detach().numpy(), cont=False, tol=2e4)
    pc = lambda r, n: r.uniform(0.3, 0.7, (n, 3))
    deg = lambda r, n: r.uniform(-10, 80, n)
    add("bruker_geometry_to_SE3", lambda p, a, b: geometry.bruker_geometry_to_SE3(p, a, b, (60, 80)), pc, deg, deg, tol=2000)

    rng = np.random.default_rng(5)
    mp = MasterPattern(torch.tensor(rng.random((21, 42))), laue_group=2)
    for nm, kw in (("", {}), (",bicubic", dict(mode="bicubic")), (",raw", dict(normalize_coords=False, align_corners=True)), (",nearest", dict(mode="nearest", padding_mode="zeros")), (",virtual", dict(virtual_binning=3))):
        def look(x, kw=kw):
            return MasterPattern(mp.master_pattern.to(x.dtype), laue_group=2).interpolate(x, **kw)
        add(f"MasterPattern.interpolate{nm}", look, g_s2g, cont=False, tol=2e4)

    for kw in ({}, dict(clip_limit=3.0, n_bins=16, grid_shape=(3, 2))):
        add(f"clahe_grayscale{kw}", lambda x, kw=kw: clahe_grayscale(x, **kw), g_chan(24, 30), dims=1, cont=False, tol=2000)
    add("GaussianBlur2d", GaussianBlur2d(1.3), g_chan(16, 18), dims=1, tol=200, dtypes=(torch.float32,))
    add("BlurAndDownsample", BlurAndDownsample(2.0), g_chan(16, 18), dims=1, tol=2000, dtypes=(torch.float32,))
    add("mutual_information", lambda a, b: mutual_information.mutual_information(a, b, n_bins=8), g_flat(108), g_flat(108), dims=1, cont=False, tol=2e4, keeps=False)
    for mode in ("none", "Kvalseth Sum"):
        add(f"batch_binned_nmi[{mode}]", lambda a, b, mode=mode: mutual_information.batch_binned_nmi(a, b, 7, 5, norm_mode=mode), g_img(12, 9), g_img(12, 9), dims=1, cont=False, tol=2e4)

    for cls in (KrasulinaPCA, OjaPCA):
        for dt in (torch.float32, torch.float64):
            g = torch.Generator().manual_seed(1)
            p = cls(20, 4, dtype=dt)
            for _ in range(5):
                p(torch.randn(30, 20, generator=g, dtype=dt))
            k = cls is KrasulinaPCA
            add(f"{cls.__name__}.transform", (lambda x, p=p: p.transform(x).T) if k else p.transform, lambda r, n: r.normal(size=(n, 20)), dims=1, dtypes=(dt,), tol=2e4)
            add(f"{cls.__name__}.inverse_transform", (lambda y, p=p: p.inverse_transform(y.T).T) if k else p.inverse_transform, lambda r, n: r.normal(size=(n, 4)), dims=1, dtypes=(dt,), tol=2e4)

    lmn = lambda r, n: (lambda l: np.stack([l, r.integers(0, 10**6, n) % (l + 1), r.integers(0, 10**6, n) % (l + 1)], -1))(r.integers(0, 12, n))
    for mod, nm in ((wigner_d_logspace, "logspace"), (wigner_d_xnum, "xnum")):
        add(f"{nm}.index_from_coords", lambda c, f=mod.index_from_coords: f(c.long()), lmn, dims=None, keeps=False, cont=False)
    tbl = {dt: wigner_d_logspace.wigner_d_eq_half_pi(12, dt, CPU) for dt in (torch.float64,)}
    full = lambda r, n: (lambda l: np.stack([l, r.integers(0, 10**6, n) % (2 * l + 1) - l, r.integers(0, 10**6, n) % (2 * l + 1) - l], -1))(r.integers(0, 12, n))
    add("logspace.lookup", lambda c: wigner_d_logspace.read_lmn_wigner_d_half_pi_table(tbl[torch.float64], c.long()), full, keeps=False, cont=False, dtypes=(torch.float64,))
    xt = wigner_d_xnum.wigner_d_xnum(torch.tensor(1.1, dtype=torch.float64), 12, CPU)
    add("xnum.lookup", lambda c: wigner_d_xnum.retrieve_wigner_d(xt, c.long()), lmn, keeps=False, cont=False, dtypes=(torch.float64,))
    bw = 5
    for nm, cls in (("CSHT", sht.CSHT), ("RSHT", sht.RSHT)):
        for dt, prec in ((torch.float32, "single"), (torch.float64, "double")):
            tr = cls(bw, CPU, prec)
            sig = lambda r, n: r.normal(size=(n, 2 * bw, 2 * bw))
            coef = lambda r, n, w=2 * bw - 1 if nm == "CSHT" else bw: r.normal(size=(n, w, bw, 2))
            add(f"{nm}.fsht", tr.fsht, sig, dims=1, dtypes=(dt,), keeps=False, cont=False, tol=2e3, empty=False)
            add(f"{nm}.isht", lambda c, tr=tr: tr.isht(torch.view_as_complex(c.contiguous())), coef, dims=1, dtypes=(dt,), keeps=False, cont=False, tol=2e3, empty=False)
    cc = lambda w: (lambda r, n: r.normal(size=(n, w, 4, 2)))
    vc = lambda x: torch.view_as_complex(x.contiguous())
    add("cs2cc_", lambda f, g: sht_cc.cs2cc_(4, vc(f), vc(g), tbl[torch.float64]), cc(7), cc(7), dims=1, dtypes=(torch.float64,), keeps=False, cont=False, tol=2e3)
    add("rs2cc_", lambda f, g: sht_cc.rs2cc_(4, vc(f), vc(g), tbl[torch.float64]), cc(4), cc(4), dims=1, dtypes=(torch.float64,), keeps=False, cont=False, tol=2e3)
    add("quaternion_rotate_sets_sphere", quaternions.quaternion_rotate_sets_sphere, g_s2g, g_s2g, tol=2e4, cont=False)
    R0, t0 = torch.tensor(ref.q_to_R(ref.rand_q(rng, 1))[0]), torch.tensor(rng.normal(size=3))
    add("apply_geometry", lambda x: fitting.apply_geometry(x, R0.to(x.dtype), t0.to(x.dtype)), g_v3, dims=1, tol=2e3)
    add("generate_dictionary_coords", lambda q: fitting.generate_dictionary_coords(torch.arange(12, dtype=q.dtype).reshape(4, 3), q, R0.to(q.dtype), t0.to(q.dtype)), g_q, dims=1, tol=2e3)
    add("hrebsd_coords", lambda v, q, f: hrebsd_coords(torch.tensor([1, 0, 1, 0, 1, 1], dtype=v.dtype), v, q, f, (6, 8), 2, CPU, dtype=v.dtype), lambda r, n: 0.01 * r.normal(size=(n, 6)), g_q, lambda r, n: np.eye(3) + 0.01 * r.normal(size=(n, 3, 3)), dims=1, tol=2e4, keeps=True)
    add("bruker_geometries_to_SE3", lambda p, a, b: fitting.bruker_geometries_to_SE3(p, a, b, (60, 80)), pc, deg, deg, dims=1, tol=2e3)
    add("Cell.calc_cross", lambda p, s: cell.calc_cross(p, s, "d", "r", False), g_v3, g_v3, dtypes=(torch.float64,), tol=2e3)
    add("Cell.calc_angle", lambda p, s: cell.calc_angle(p, s, "d"), g_v3, g_v3, dtypes=(torch.float64,), tol=2e5)
    add("Cell.is_g_allowed", lambda g: cell_i.is_g_allowed(g), g_hkl, dtypes=(torch.float64,), keeps=False, cont=False)
    gv = torch.tensor([[1, 0, 0], [0, 2, 1], [-1, 1, 3]], dtype=torch.float64)
    add("calc_sg", lambda k: diffraction.calc_sg(cell, gv[None], k[:, None]), lambda r, n: 200 * _unit(r.normal(size=(n, 3))), dims=1, dtypes=(torch.float64,), keeps=False, cont=False, tol=2e5)
    for nm, f in (("WK", scattering_factors_WK.scatter_factor_WK), ("Hybrid", scattering_factors_Hybrid.scatter_factor_hybrid)):
        z, u, kv = torch.tensor([6, 28, 79]), torch.tensor([0.3, 0.4, 0.5]), torch.tensor([15.0, 30.0])
        add(f"scatter_factor_{nm}", lambda g, f=f: f(g, z, u.to(g.dtype), kv.to(g.dtype)).movedim(-1, 0), lambda r, n: np.r_[0.0, r.uniform(0.01, 3, max(n, 1) - 1)][:n], dims=1, keeps=False, cont=False, tol=2e4)
    data = torch.tensor(rng.normal(size=(40, 9)))
    for metric in ("angular", "euclidean", "manhattan"):
        def near(q, metric=metric):
            v, i = knn.knn_batch(data.to(q.dtype), q, 3, metric)
            v, o = v.sort(dim=1)
            return v, i.gather(1, o)
        add(f"knn_batch[{metric}]", near, lambda r, n: r.normal(size=(n, 9)), dims=1, dtypes=(torch.float32,), keeps=False, cont=False, tol=2e4)
    add("sht.theta_phi_to_xyz", sht.theta_phi_to_xyz, lambda r, n: r.uniform(0.1, 3, (n, 2)), cont=True)
    for nm, cls in (("DLT", sht.DLT), ("RDLT", sht.RDLT)):
        for dt, prec in ((torch.float32, "single"), (torch.float64, "double")):
            tr, w = cls(bw, CPU, prec), 2 * bw - 1 if nm == "DLT" else bw
            add(f"{nm}.fdlt", tr.fdlt, lambda r, n, w=w: r.normal(size=(n, w, 2 * bw)), dims=1, dtypes=(dt,), keeps=False, cont=False, tol=2e3, empty=False)
            add(f"{nm}.idlt", tr.idlt, lambda r, n, w=w: r.normal(size=(n, w, bw)), dims=1, dtypes=(dt,), keeps=False, cont=False, tol=2e3, empty=False)
            if nm == "DLT":
                for part in ("dct", "dst", "idct", "idst"):
                    add(f"weightedDCST.{part}", getattr(tr, part), lambda r, n: r.normal(size=(n, 4, 2 * bw)), dims=1, dtypes=(dt,), keeps=False, cont=False, tol=2e3, empty=False)
    for nm in ("rfz_to_cube", "cube_to_rfz"):  # only the cubic zone exists
        add(f"{nm}[11]", getattr(laue_fz_ori, nm), lambda r, n: r.uniform(-0.41, 0.41, (n, 3)), consts=(11,), cont=False, tol=2e3, keeps=False)
    for mod, nm in ((scattering_factors_WK, "WK"), (scattering_factors_Hybrid, "Hybrid")):
        add(f"{nm}.RIH2_torch", mod.RIH2_torch, lambda r, n: r.uniform(20.5, 300, n), cont=False, keeps=False, tol=2e3)
        add(f"{nm}.RIH1_torch_where", mod.RIH1_torch_where, g_pos, g_pos, g_pos, cont=False, keeps=False, tol=2e4)
    for mod, nm in ((scattering_factors_LVD_TCB, "LVD"), (scattering_factors_Hybrid, "Hybrid")):
        add(f"{nm}.eval_LVD_fit", lambda z, t, mod=mod: mod.eval_LVD_fit(z.long(), t), lambda r, n: r.integers(1, 99, n).astype(float), lambda r, n: r.uniform(0, 5, n), cont=False, keeps=False, tol=2e3)
    xg, ig = (lambda r, n: r.normal(size=n) * 10.0 ** r.uniform(-60, 60, n)), (lambda r, n: r.integers(-1, 2, n).astype(float))
    add("xnum_norm", lambda x, i: wigner_d_xnum.xnum_norm((x, i.int())), xg, ig, cont=False, keeps=False, dtypes=(torch.float64,))
    add("xnum_to_fp", lambda x, i: wigner_d_xnum.xnum_to_fp((x, i.int())), xg, ig, cont=False, keeps=False, dtypes=(torch.float64,))
    add("xnum_sum", lambda x, i, y, j: wigner_d_xnum.xnum_sum((x, i.int()), (y, j.int()), 0.7, -1.3), xg, ig, xg, ig, cont=False, keeps=False, dtypes=(torch.float64,))
    add("signedlogsumexp", lambda a, b, s, t: wigner_d_logspace.signedlogsumexp(a, b, s > 0, t > 0), *[lambda r, n: r.normal(size=n)] * 4, cont=False, keeps=False, tol=2e4)
    add("Cell.norm_vec", lambda p: cell.norm_vec(p, "r"), g_v3, dtypes=(torch.float64,), tol=2e3)
    add("Cell.calc_auto_dot", lambda p: cell.calc_auto_dot(p, "d"), g_v3, dtypes=(torch.float64,), tol=2e3)
    add("calc_sg_batched", lambda k: ebsd_master.calc_sg_batched(cell.rmt, gv[None], k[:, None]), lambda r, n: 200 * _unit(r.normal(size=(n, 3))), dims=1, dtypes=(torch.float64,), keeps=False, cont=False, tol=2e5)
    return L


_built = []


def ops():
    if not _built:
        _built.append(_ops())
    return _built[0]
