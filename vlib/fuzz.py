"""Different ways of making the same call: memory layouts for any tensor argument, batch compositions for row-wise functions.

The value of a row is the same however the rows are handed over, so the oracles of the scenarios stay what they are;
only what the code under test sees varies (single rows, chunks, several batch dimensions, repeated rows, thousands of rows,
views of larger tensors, tensors that are tracked by autograd).
"""
import importlib
import math
import time
import zlib

import numpy as np
import torch


def strided(x):
    "same values, every second row of a larger tensor whose other rows hold NaN"
    big = torch.full((2 * x.shape[0] + 1,) + tuple(x.shape[1:]), float("nan") if x.dtype.is_floating_point else 0, dtype=x.dtype)
    v = big[1::2]
    v.copy_(x)
    return v


def transposed(x):
    "same values, last dimension slowest in memory"
    if x.ndim < 2:
        return strided(x)
    return x.movedim(-1, 0).contiguous().movedim(0, -1)


def padded(x):
    "same values, a window of a larger tensor in every dimension"
    big = torch.full([s + 3 for s in x.shape], float("nan") if x.dtype.is_floating_point else 0, dtype=x.dtype)
    v = big[tuple(slice(1, 1 + s) for s in x.shape)]
    v.copy_(x)
    return v


LAYOUTS = {"strided": strided, "transposed": transposed, "window": padded}


_O = "ebsdtorch.s2_and_so3."
_TABLE = None


def _build():
    """id(function) -> dimensions of one row for every tensor argument"""
    out = {}

    def add(mod, names, *tails):
        mod = importlib.import_module(mod)
        for n in names:
            f = getattr(mod, n, None)
            if f is not None:
                out[id(f)] = tails

    reps = ("ax", "bu", "cl", "cu", "eu", "ho", "om", "qu", "ro", "zh", "cv")
    for a in reps:
        add(_O + "orientations", [f"{a}2{b}" for b in reps] + ([f"ho2ax_newton", "ho2ax_reference"] if a == "ho" else []), 2 if a == "om" else 1)
    add(_O + "quaternions", ["qu_std", "qu_norm", "qu_norm_std", "qu_conj", "qu_angle"], 1)
    add(_O + "quaternions", ["qu_prod_raw", "qu_prod", "qu_prod_axis", "qu_prod_pos_real", "qu_apply", "qu_slerp", "quaternion_rotate_sets_sphere"], 1, 1)
    add(_O + "quaternions", ["qu_triple_prod_pos_real"], 1, 1, 1)
    add(_O + "sphere", ["xyz_to_theta_phi", "rosca_lambert", "inv_rosca_lambert", "rosca_lambert_side_by_side"], 1)
    add(_O + "sphere", ["theta_phi_to_xyz"], 0, 0)
    add(_O + "laue_fz_ori", ["ori_to_fz_laue", "ori_equiv_laue", "ori_in_fz_laue", "ori_in_fz_laue_brute"], 1)
    add(_O + "laue_fz_ori", ["ori_angle_laue", "disorientation", "disori_angle_laue"], 1, 1)
    add(_O + "laue_fz_ori", ["cube_to_rfz", "rfz_to_cube", "ori_color_laue"], 1)
    add(_O + "laue_fz_s2", ["s2_to_fz_laue", "s2_equiv_laue", "s2_in_fz_laue"], 1)
    add(_O + "laue_fz_misori", ["misori_to_fz_laue"], 1)
    add(_O + "laue_fz_misori", ["disorientation_naive", "disori_angle_laue", "disori_angle_laue2"], 1, 1)
    add("ebsdtorch.lie_algebra.se3", ["skew", "w_exp", "w_exp_vmat", "w_to_v", "w_to_v_inv", "se3_exp_map_quat", "se3_exp_map_om", "se3_exp_map_split"], 1)
    add("ebsdtorch.lie_algebra.se3", ["om_to_w", "se3_log_map_om"], 2)
    add("ebsdtorch.lie_algebra.se3", ["se3_log_map_quat"], 1, 1)
    add("ebsdtorch.lie_algebra.se3", ["se3_log_map_split"], 2, 1)
    add("ebsdtorch.utils.rosca_lambert", ["square_to_hemisphere", "square_to_hemisphere_v2", "hexagon_to_hemisphere"], 1)
    add("ebsdtorch.crystallography.kvectors", ["square_to_hemisphere", "hexagon_to_hemisphere"], 1)
    for m in ("WK", "Hybrid"):
        add(f"ebsdtorch.crystallography.scattering_factors.scattering_factors_{m}", ["exp1", "expi", "e_wavelength_eV_to_A", "RIH2_torch"], 0)
    for m in ("LVD_TCB", "Hybrid"):
        add(f"ebsdtorch.crystallography.scattering_factors.scattering_factors_{m}", ["eval_LVD_fit"], 0, 0)
    add("ebsdtorch.crystallography.diffraction", ["calc_lambda"], 0)
    add("ebsdtorch.ebsd.geometry", ["bruker_geometry_to_SE3"], 1, 0, 0)
    add("ebsdtorch.ebsd.geometry", ["bruker_geometry_from_SE3"], 2, 1)
    add("ebsdtorch.ebsd.fitting", ["bruker_geometry_from_SE3"], 2, 1)
    for m in ("logspace", "xnum"):
        add(f"ebsdtorch.harmonics.wigner_d_{m}", ["index_from_coords"], 1)
    # methods and modules by the code they run
    for mod, cls, fn, *tails in (("ebsd.master_pattern", "MasterPattern", "interpolate", 1),):
        f = getattr(getattr(importlib.import_module("ebsdtorch." + mod), cls), fn, None)
        if f is not None:
            out[id(f)] = tuple(tails)
    # exactly one batch dimension
    single = [("preprocessing.clahe", None, "clahe_grayscale", 3), ("utils.mutual_information", None, "mutual_information", 1, 1), ("utils.mutual_information", None, "batch_binned_nmi", 2, 2), ("ebsd.fitting", None, "bruker_geometries_to_SE3", 1, 0, 0),
              ("utils.pca_online", "OjaPCA", "transform", 1), ("utils.pca_online", "OjaPCA", "inverse_transform", 1)]
    single += [("harmonics.sht", c, f, 2) for c in ("CSHT", "RSHT") for f in ("fsht", "isht")] + [("preprocessing.resampling", c, None, 3) for c in ("GaussianBlur2d", "BlurAndDownsample")]
    for mod, cls, fn, *tails in single:
        f = importlib.import_module("ebsdtorch." + mod)
        for nm in (cls, fn):
            f = getattr(f, nm, None) if nm else f
        if f is not None:
            out[id(f)] = tuple(tails) + (None,)
    return out


def tails_of(fn):
    t = table()
    return t.get(id(fn)) or t.get(id(getattr(fn, "__func__", None))) or t.get(id(type(fn)))


def table():
    global _TABLE
    if _TABLE is None:
        _TABLE = _build()
    return _TABLE


class Fuzz:
    def __init__(self, key, seed, rnd):
        self.rng = np.random.default_rng([seed & 0xFFFFFFFF, zlib.crc32(key.encode()), rnd, 77])
        self.last = []
        self.used = {}
        self.grown = {}

    def note(self, what):
        self.last.append(what)
        self.used[what] = self.used.get(what, 0) + 1

    def layout(self, a):
        if not isinstance(a, torch.Tensor):
            if type(a) in (list, tuple):
                return type(a)(self.layout(x) for x in a)
            return a
        if a.requires_grad and a.is_leaf:
            return a
        if a.ndim == 0 or a.numel() == 0 or a.numel() > 2_000_000 or a.requires_grad or a.layout != torch.strided or self.rng.random() > 0.25:
            return a.clone()
        k = str(self.rng.choice(list(LAYOUTS)))
        self.note(k)
        return LAYOUTS[k](a)

    def call(self, fn, args, kw):
        self.last = []
        tails = tails_of(fn)
        multi = tails is None or tails[-1] is not None
        tails = tails if multi else tails[:-1]
        if tails is None or self.rng.random() < 0.4:
            return self.plain(fn, args, kw)
        k = len(tails)
        rows, rest = args[:k], args[k:]
        if len(rows) < k or not all(isinstance(r, torch.Tensor) and r.ndim >= t + 1 and not r.requires_grad for r, t in zip(rows, tails)):
            return self.plain(fn, args, kw)
        shape = rows[0].shape[: rows[0].ndim - tails[0]]
        n = math.prod(shape)
        if n == 0 or n > 20000 or any(r.shape[: r.ndim - t] != shape for r, t in zip(rows, tails)):
            return self.plain(fn, args, kw)
        flat = [r.reshape((n,) + tuple(r.shape[r.ndim - t :])) for r, t in zip(rows, tails)]
        kind = str(self.rng.choice(["chunks", "dims", "repeat", "order", "many"], p=[0.35, 0.3, 0.15, 0.13, 0.07]))
        if fn not in self.grown and self.rng.random() < 0.3:
            kind = "many"
        if kind == "many" and not multi:
            kind = "repeat"
        if not multi and kind == "dims":
            kind = "chunks"
        self.note(kind)
        grad = str(self.rng.choice(["", "tracked", "untracked"], p=[0.7, 0.2, 0.1])) if multi and not hasattr(fn, "__self__") else ""
        if grad:
            self.note(grad)

        def one(r):
            with torch.set_grad_enabled(torch.is_grad_enabled() and grad != "untracked"):
                return self.outs(self.plain(fn, list(r) + list(rest), kw, grad=grad == "tracked"))

        if kind == "chunks":
            cuts = np.unique(np.concatenate([[0, n], self.rng.integers(0, n + 1, int(self.rng.integers(0, 4))), np.minimum(np.arange(1, 1 + int(self.rng.integers(0, 4))), n)]))
            parts = [one([f[a:b] for f in flat]) for a, b in zip(cuts[:-1], cuts[1:])]
            for p, a, b in zip(parts, cuts[:-1], cuts[1:]):
                if not self.fits(p, (int(b - a),)):
                    return p[1](p[0])
            got = [torch.cat(list(c)) for c in zip(*[p[0] for p in parts])], parts[0][1]
        else:
            idx = torch.arange(n)
            at = None
            if kind == "repeat":
                idx = torch.cat((idx, torch.tensor(self.rng.integers(0, n, int(self.rng.integers(1, 40))))))
            if kind == "many":
                # the rows of interest end up anywhere, the last one at the end
                size = self.size(one, flat, n)
                rng = np.random.default_rng(int(self.rng.integers(2**62)))  # (the size depends on the speed of the machine)
                idx = torch.tensor(rng.integers(0, n, size))
                at = np.sort(rng.permutation(size - 1)[:n])
                at[-1] = size - 1
                at = torch.tensor(at)
                idx[at] = torch.arange(n)
                self.grown[fn] = max(self.grown.get(fn, 0), size)
            if kind == "order":
                idx = torch.tensor(self.rng.permutation(n))
            lead = (len(idx),)
            if kind == "dims":
                a = int(self.rng.integers(1, 5))
                idx = torch.cat((idx, idx[-1:].expand(-n % a)))
                b = len(idx) // a
                lead = [(a, b), (b, a), (1, len(idx)), (len(idx), 1), (1, a, b), (a, 1, b), (a, b, 1)][int(self.rng.integers(7))]
            got = one([f[idx].reshape(tuple(lead) + tuple(f.shape[1:])) for f in flat])
            if not self.fits(got, lead):
                return got[1](got[0])
            res = [o.reshape((len(idx),) + tuple(o.shape[len(lead) :])) for o in got[0]]
            if kind == "order":
                res = [o[torch.argsort(idx)] for o in res]
            got = [o[:n] if at is None else o[at] for o in res], got[1]
        return got[1]([o.reshape(tuple(shape) + tuple(o.shape[1:])) for o in got[0]])

    def size(self, one, flat, n):
        """how many rows to blow a batch up to: as many as common chunk sizes and more, if a few rows are quick enough"""
        k = min(n, 500)
        one([f[:k] for f in flat])
        t = time.perf_counter()
        one([f[:k] for f in flat])
        t = (time.perf_counter() - t) / k
        want = int(self.rng.choice([2100, 4200, 8300, 17000, 33000, 66000, 132000]))
        return max(n + 1, min(want, int(0.4 / t)))

    @staticmethod
    def outs(o):
        if isinstance(o, torch.Tensor):
            return [o], lambda r: r[0]
        if type(o) in (list, tuple):
            return list(o), type(o)
        return [o], lambda r: r[0]

    @staticmethod
    def fits(p, lead):
        return all(isinstance(o, torch.Tensor) and tuple(o.shape[: len(lead)]) == tuple(lead) for o in p[0])

    def plain(self, fn, args, kw, grad=False):
        args = [self.layout(a) for a in args]
        if grad:
            pick = self.rng.integers(0, 3, len(args))
            args = [a.requires_grad_(True) if (pick[i] or not pick.any()) and isinstance(a, torch.Tensor) and a.is_floating_point() and a.is_leaf and not a._is_view() else a for i, a in enumerate(args)]
        out = fn(*args, **{k: self.layout(v) for k, v in kw.items()})
        if grad:
            out = out.detach() if isinstance(out, torch.Tensor) else type(out)(o.detach() if isinstance(o, torch.Tensor) else o for o in out) if type(out) in (list, tuple) else out
        return out
