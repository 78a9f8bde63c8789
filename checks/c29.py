"""C29 dynamical diffraction."""
import contextlib
import io

import numpy as np
import torch

from ebsdtorch.crystallography import diffraction as D
from ebsdtorch.crystallography import ebsd_master as M
from ebsdtorch.crystallography.kvectors import kvectors_grid
from ebsdtorch.crystallography.scattering_factors.scattering_factors_Hybrid import scatter_factor_hybrid
from ebsdtorch.crystallography.scattering_factors.scattering_factors_WK import scatter_factor_WK
from ebsdtorch.crystallography.unit_cell import Cell
from vlib import sim
from vlib import spacegroups as S
from vlib.core import Prop

PROP = Prop(
    "C29",
    "a case is one entry block of one structure matrix, or one (direction, energy, site) intensity of one pattern",
    ["the library may use either sign of the phase convention (crystal or inverted crystal), but one and the same everywhere",
     "the depth integration may or may not include the depth bin in which 95% of the electrons are reached: the weights are such that both readings bound the result tightly",
     "scattering factors are taken from the library (C30 decides those)",
     "single precision arithmetic"],
)
# 2 m e / h^2 in nm^-2 / V, h^2 / (2 pi m e) in V nm^2 with f in angstrom
H, ME, Q, CL = 6.62607015e-34, 9.1093837015e-31, 1.602176634e-19, 299792458.0
PREG = 2 * ME * Q / H**2 * 1e-18
PREF = H**2 / (2 * np.pi * ME * Q) * 1e18 * 0.1


def mute(m, fn, *a, **k):
    with sim.quiet():
        return m.call(fn, *a, **k)


def factors(g, at, kv, opt):
    """(n_voltages, n_sites, ...) complex scattering factors of the sites"""
    f = {"WK": scatter_factor_WK, "Hybrid": scatter_factor_hybrid}[opt["scatter_factor"]]
    u, inv = np.unique(np.round(g, 9), return_inverse=True)
    out = f(
        g=torch.tensor((0.2 * np.pi if opt["scatter_factor"] == "WK" else 0.1) * u, dtype=torch.float32),
        Z=torch.tensor([a[0] for a in at]),
        thermal_sigma=torch.tensor([10 * np.sqrt(a[5] / (8 * np.pi**2)) for a in at], dtype=torch.float32),
        voltage_kV=kv,
        include_core=opt["include_core"],
        include_phonon=opt["include_phonon"],
    ).numpy().astype(complex)
    return out[..., inv.reshape(-1)].reshape(*out.shape[:2], *g.shape)


class Model:
    """Independent Bloch-wave structure matrices and intensities of a crystal."""

    def __init__(self, sg, abc, ang, at, dmin, kv, opt, beams=None):
        A = S.basis(abc, ang)
        self.A, self.B = A, np.linalg.inv(A).T
        self.at, self.kv = at, kv.double().numpy()
        if beams is None:
            n = [int(np.floor(v / dmin * (1 + 1e-9))) + 1 for v in abc]
            h = np.stack(np.meshgrid(*[np.arange(-k, k + 1) for k in n], indexing="ij"), -1).reshape(-1, 3)
            R, t = S.ops(sg)
            T = t[(R == np.eye(3, dtype=int)).all((1, 2))]
            g = np.linalg.norm(h @ self.B.T, axis=1)
            h = h[((h @ T.T) % 24 == 0).all(1) & (g * dmin < 1) & (h != 0).any(1)]
            beams = np.concatenate([np.zeros((1, 3), int), h])
        self.h = beams
        self.orb = [S.orbit(sg, a[1:4])[0] for a in at]
        V = np.linalg.det(A)
        d = beams[:, None] - beams[None]
        self.gd = np.linalg.norm(d @ self.B.T, axis=-1)
        f = factors(self.gd, at, kv, opt)
        pref = PREF / V
        ph = [np.exp(-2j * np.pi * (d.astype(float) @ o.T)).sum(-1) for o in self.orb]
        ff = sum(p[None] * f[:, i].real * at[i][4] for i, p in enumerate(ph))
        gg = sum(p[None] * f[:, i].imag * at[i][4] for i, p in enumerate(ph))
        self.U = PREG * pref * (ff + 1j * gg if opt["absorption"] else ff)
        self.Up0 = PREG * pref * (np.abs(gg[:, 0, 0]) if opt["absorption"] else 0 * np.abs(gg[:, 0, 0]))
        self.V0 = pref * np.abs(ff[:, 0, 0])
        E = self.kv * 1e3
        self.lam = H / np.sqrt(2 * ME * Q * (E * (1 + Q * E / (2 * ME * CL**2)) + self.V0)) * 1e9
        self.S = [
            at[i][0] ** 2 * at[i][4] * np.exp(-at[i][5] * 0.25 * self.gd**2) * p.conj() for i, p in enumerate(ph)
        ]

    def intensities(self, dirs, v, w, step, sign):
        """sum over depth bins of w * probability at the sites; dirs Cartesian unit, sign of the phase convention"""
        lam = self.lam[v]
        k = dirs / lam
        g = self.h @ self.B.T
        kg = k[:, None] + g[None]
        num = -(2 * (k[:, None] * g[None]).sum(-1) + (g**2).sum(-1)[None])
        s = num / (2 * (kg * dirs[:, None]).sum(-1))
        U = self.U[v] if sign > 0 else self.U[v].T
        Sm = [x if sign > 0 else x.T for x in self.S]
        out = np.zeros((len(Sm), len(dirs)))
        for n in range(len(dirs)):
            X = U.copy()
            np.fill_diagonal(X, 2 * s[n] / lam + 1j * self.Up0[v])
            X = 1j * np.pi * lam * step * X
            ev, vec = np.linalg.eig(X)
            if np.linalg.cond(vec) > 1e8:
                P = torch.linalg.matrix_exp(torch.tensor(X)).numpy()
            else:
                P = (vec * np.exp(ev)) @ np.linalg.inv(vec)
            psi = np.zeros(len(self.h), complex)
            psi[0] = 1
            L = np.zeros((len(psi), len(psi)), complex)
            for d in range(len(w)):
                psi = P @ psi
                L += w[d] * np.outer(psi, psi.conj())
            for i, x in enumerate(Sm):
                # |sum_g psi_g exp(2 pi i g.r)|^2 summed over the orbit = sum_gh psi_g psi_h* exp(2 pi i (g - h).r)
                out[i, n] = (x * L).sum().real
        return out


def crystal(m, beams, sg=None, n_atoms=None, systems=None):
    rng = m.rng
    while True:
        s = sg or int(rng.integers(1, 231))
        if systems and S.system(s) not in systems:
            continue
        abc, ang = S.random_lattice(rng, S.system(s), 0.3, 0.6)
        at = []
        for _ in range(n_atoms or int(rng.integers(1, 4))):
            p = rng.uniform(0, 1, 3)
            if rng.random() < 0.4:
                p = rng.choice([0.0, 0.5, 0.25], 3)
            if S.orbit(s, p)[1] > 2e-3:
                at.append((int(rng.integers(3, 80)), *map(float, p), float(rng.choice([1.0, 0.7])), float(rng.uniform(0.002, 0.01))))
        if not at or sum(len(S.orbit(s, a[1:4])[0]) for a in at) > 64:
            continue
        d = 0.1
        while True:
            n = [int(np.floor(v / d)) + 1 for v in abc]
            h = np.stack(np.meshgrid(*[np.arange(-k, k + 1) for k in n], indexing="ij"), -1).reshape(-1, 3)
            R, t = S.ops(s)
            T = t[(R == np.eye(3, dtype=int)).all((1, 2))]
            g = np.linalg.norm(h @ np.linalg.inv(S.basis(abc, ang)), axis=1)
            g = g[((h @ T.T) % 24 == 0).all(1) & (g * d < 1)]
            if len(g) <= beams:
                break
            d *= 1.05
        gs = np.sort(g)
        # keep the limit away from any spacing
        if (np.abs(gs * d - 1) < 1e-5).any():
            continue
        return s, abc, ang, at, float(d)


def build(m, c, fp=None):
    s, abc, ang, at, d = c
    cell = mute(m, Cell, s, list(at), abc, "nm", ang, "deg")
    if fp:
        cell = cell.set_fp_dtype(fp)
    return cell


def options(rng, absorption=None):
    return dict(
        scatter_factor=str(rng.choice(["WK", "Hybrid"])),
        absorption=bool(rng.random() < 0.7) if absorption is None else absorption,
        include_core=bool(rng.random() < 0.7),
        include_phonon=bool(rng.random() < 0.7),
    )


def volts(rng, n=None):
    return torch.tensor(np.round(rng.uniform(5, 30, n or int(rng.integers(1, 4))), 1), dtype=torch.float32)


def order(a, b):
    """permutation p with a[p] == b for two lists of beams, or None"""
    ia = {tuple(r): i for i, r in enumerate(a.tolist())}
    try:
        return np.array([ia[tuple(r)] for r in b.tolist()]) if len(ia) == len(a) == len(b) else None
    except KeyError:
        return None


def fits(err, top, tol):
    return err / top <= tol


def sign_of(m, e_plus, e_minus, top, tol, key, tag, signs):
    """record the convention that fits; both fit for centrosymmetric cases"""
    m.small(min(e_plus, e_minus) / top, tol, key, tag)
    if e_plus > 4 * tol * top:
        signs.add(-1)
    if e_minus > 4 * tol * top:
        signs.add(1)


@PROP.scenario("structure-matrix", thorough_rounds=8)
def structure_matrix(m):
    signs = set()
    for rep in range(m.n(50, 80)):
        cr = crystal(m, 60)
        s, abc, ang, at, d = cr
        opt, kv = options(m.rng), volts(m.rng)
        fp = torch.float32 if m.rng.random() < 0.3 else None
        cell = build(m, cr, fp)
        tag = f"sg {s} {at} {abc} {ang} dmin={d} {kv.tolist()} {opt} {fp}"
        hkl, U, up, lam = mute(m, D.calc_helper_bloch_formalism, cell, d, kv, **opt)
        md = Model(s, abc, ang, at, d, kv, opt)
        p = order(np.asarray(hkl), md.h)
        m.need(p is not None, "matrix:beams", tag)
        m.expect((hkl[0] == 0).all(), "matrix:first-beam-000", tag)
        m.shape(U, (len(kv), len(p), len(p)), "matrix:shape")
        U = U.to(torch.complex128).numpy()[:, p][:, :, p]
        m.seen(np.abs(U).reshape(-1, U.shape[-1]), tag=tag)
        top = np.abs(md.U).max()
        sign_of(m, np.abs(U - md.U).max(), np.abs(U - md.U.transpose(0, 2, 1)).max(), top, 1e-3, "matrix:coefficient-of-the-difference", tag, signs)
        if not opt["absorption"]:
            m.small(np.abs(U - U.conj().transpose(0, 2, 1)).max() / top, 1e-5, "matrix:hermitian-without-absorption", tag)
        m.small(np.abs(up.double().numpy() - md.Up0).max() / max(md.Up0.max(), 1e-6), 1e-3, "matrix:mean-absorption", tag)
        m.expect(not up.is_complex(), "matrix:mean-absorption-real", tag)
        m.small(np.abs(lam.double().numpy() / md.lam - 1).max(), 1e-5, "matrix:wavelength", tag)
        # entries do not depend on which other beams there are
        hkl2, U2, up2, lam2 = mute(m, D.calc_helper_bloch_formalism, cell, d * 1.25, kv, **opt)
        big = {tuple(r): i for i, r in enumerate(np.asarray(hkl).tolist())}
        sub = [big.get(tuple(r), -1) for r in np.asarray(hkl2).tolist()]
        m.need(min(sub) >= 0, "matrix:beams-nested", tag)
        U0 = mute(m, D.calc_helper_bloch_formalism, cell, d, kv, **opt)[1].to(torch.complex128).numpy()
        m.small(np.abs(U2.to(torch.complex128).numpy() - U0[:, sub][:, :, sub]).max() / top, 1e-5, "matrix:independent-of-other-beams", tag)
        m.small(float((lam2 - lam).abs().max()), 1e-6, "matrix:wavelength-independent-of-beams", tag)
        # one voltage at a time
        if len(kv) > 1:
            one = mute(m, D.calc_helper_bloch_formalism, cell, d, kv[1:2], **opt)[1].to(torch.complex128).numpy()
            m.small(np.abs(one[0] - U0[1]).max() / top, 1e-5, "matrix:independent-of-other-voltages", tag)
        # the scattering-matrix form is wavelength * structure matrix
        q = mute(m, D.calc_helper_scatter_matrix, cell, d, kv, **opt)
        hq = order(np.asarray(q[0]), md.h)
        m.need(hq is not None, "scattering:beams", tag)
        qq = q[1].to(torch.complex128).numpy()[:, hq][:, :, hq]
        w = md.U * md.lam[:, None, None]
        sign_of(m, np.abs(qq - w).max(), np.abs(qq - w.transpose(0, 2, 1)).max(), np.abs(w).max(), 1e-3, "scattering:coefficients", tag, signs)
        if opt["absorption"]:
            m.small(np.abs(q[2].double().numpy() * md.lam * md.Up0 - 1).max() if md.Up0.min() > 1e-6 else 0.0, 1e-3, "scattering:absorption-length", tag)
        if np.abs(qq - w).max() > np.abs(qq - w.transpose(0, 2, 1)).max():
            w = w.transpose(0, 2, 1)
        q = mute(m, D.calc_helper_scatter_matrix, cell, d, kv, apply_qg_shift=False, **opt)
        qq = q[1].to(torch.complex128).numpy()[:, hq][:, :, hq]
        if not opt["absorption"]:
            m.small(np.abs(qq - np.abs(w)).max() / np.abs(w).max(), 1e-3, "scattering:moduli", tag)
        else:
            big_enough = np.abs(w) > 1e-3 * np.abs(w).max()
            m.small((np.abs(np.abs(qq) - np.abs(w)) * big_enough).max() / np.abs(w).max(), 1e-3, "scattering:moduli", tag)
    m.expect(len(signs) <= 1, "matrix:one-sign-convention", f"{signs}")


@PROP.scenario("excitation-errors", thorough_rounds=8)
def excitation(m):
    """the reciprocal lattice point displaced by the excitation error along the beam is on the Ewald sphere (to second order)"""
    for _ in range(m.n(60, 200)):
        cr = crystal(m, 200)
        s, abc, ang, at, d = cr
        cell = build(m, cr)
        B = np.linalg.inv(S.basis(abc, ang)).T
        k = m.rng.normal(size=(5, 3))
        k *= (1 / 0.0086) * m.rng.uniform(0.7, 3) / np.linalg.norm(k, axis=1, keepdims=True)
        h = m.rng.integers(-8, 9, (9, 3))
        kr = k @ np.linalg.inv(B).T
        m.seen(np.concatenate([k, k], 1))
        g = h @ B.T
        n = k / np.linalg.norm(k, axis=1, keepdims=True)
        for name, got in (
            ("calc_sg", m.call(D.calc_sg, cell, torch.tensor(h)[None], torch.tensor(kr)[:, None])),
            ("calc_sg_batched", m.call(M.calc_sg_batched, cell.rmt, torch.tensor(h).double()[None], torch.tensor(kr)[:, None])),
        ):
            m.shape(got, (5, 9), f"excitation:{name}:shape")
            sg = got.double().numpy()
            q = k[:, None] + g[None] + sg[..., None] * n[:, None]
            res = (q**2).sum(-1) - (k**2).sum(-1)[:, None] - sg**2
            m.small(np.abs(res).max() / (k**2).sum(-1).max(), 1e-9, f"excitation:{name}:ewald", f"{abc} {ang}")


def weights(rng, nv, nd):
    """depth distributions with 94.9% before the last bin that matters, 5.1% in it, and nothing after"""
    w = np.zeros((nv, nd + 6))
    lo = np.zeros_like(w)
    for v in range(nv):
        n = int(rng.integers(2, nd))
        a = rng.uniform(0.05, 1, n) * np.exp(-np.arange(n) / rng.uniform(3, 30))
        w[v, :n] = 0.949 * a / a.sum()
        lo[v, :n] = w[v, :n]
        w[v, n] = 0.051
    s = rng.uniform(0.3, 3, (nv, 1))
    return w * s, lo * s


@PROP.scenario("patterns", thorough_rounds=8)
def patterns(m):
    signs = set()
    for rep in range(m.n(28, 50)):
        cr = crystal(m, 40)
        s, abc, ang, at, d = cr
        opt, kv = options(m.rng), volts(m.rng)
        cell = build(m, cr, torch.float32 if m.rng.random() < 0.5 else None)
        n = int(m.rng.integers(2, 4))
        w, lo = weights(m.rng, len(kv), 40)
        step = float(m.rng.choice([1.0, 1.0, 0.5, 2.0]))
        tag = f"sg {s} {at} {abc} {ang} dmin={d} {kv.tolist()} {opt} step={step} half-width={n}"
        wt = torch.tensor(w, dtype=torch.float32)
        keep, kvk = wt.clone(), kv.clone()
        state = {k: v.clone() for k, v in vars(cell).items() if isinstance(v, torch.Tensor)}
        with sim.quiet():
            m.calls.setdefault("ebsd_master_pattern", [0, 0])
            out = M.ebsd_master_pattern(cell, kv, step, wt, d, k_chunk_size=7, grid_half_width=n, **opt)
        m.expect(torch.equal(wt, keep), "patterns:weights-unchanged", tag)
        m.expect(torch.equal(kv, kvk), "patterns:voltages-unchanged", tag)
        m.expect(all(torch.equal(v, getattr(cell, k)) for k, v in state.items()), "patterns:cell-unchanged", tag)
        k, ij = mute(m, kvectors_grid, cell, n)
        m.shape(out, (len(kv), len(at), len(k)), "patterns:shape")
        m.seen(out.reshape(-1, out.shape[-1]).T.double(), tag=tag)
        m.expect(bool(torch.isfinite(out).all()), "patterns:finite", tag)
        o = out.double().numpy()
        m.small(max(0.0, float(-o.min())) / np.abs(o).max(), 1e-4, "patterns:non-negative", tag)
        with sim.quiet():
            out2 = m.plain(M.ebsd_master_pattern, cell, kv, step, wt, d, k_chunk_size=7, grid_half_width=n, **opt)
        m.expect(torch.equal(out, out2), "patterns:reproducible", tag)
        out3 = mute(m, M.ebsd_master_pattern, cell, kv, step, wt * 7.0, d, k_chunk_size=3, grid_half_width=n, **opt)
        m.small(np.abs(out3.double().numpy() - o).max() / o.max(), 1e-4, "patterns:independent-of-chunks-and-scale", tag)
        md = Model(s, abc, ang, at, d, kv, opt)
        dirs = k.double().numpy()
        dirs /= np.linalg.norm(dirs, axis=1, keepdims=True)
        pick = m.rng.permutation(len(dirs))[:6]
        tot = w.sum()
        best = {}
        for sign in (1, -1):
            e = 0.0
            for v in range(len(kv)):
                nd = int((w[v] > 0).sum())
                L = md.intensities(dirs[pick], v, lo[v, :nd] / tot, step, sign)
                U = md.intensities(dirs[pick], v, w[v, :nd] / tot, step, sign)
                g = o[v][:, pick]
                top = U.max()
                e = max(e, float(np.maximum(L - g, g - U).max()) / top)
            best[sign] = e
        sign_of(m, max(best[1], 0), max(best[-1], 0), 1.0, 3e-3, "patterns:wave-equation", tag, signs)
    m.expect(len(signs) <= 1, "patterns:one-sign-convention", f"{signs}")


@PROP.scenario("symmetry", thorough_rounds=8)
def symmetry(m):
    """the crystal described atom by atom in P1 has the same pattern, and that pattern has the crystal's symmetry"""
    for rep in range(m.n(16, 30)):
        sg = int(m.rng.integers(1, 231))
        while S.system(sg) in (5, 6) or len(S.centring(sg)) > 0:
            sg = int(m.rng.integers(1, 231))
        cr = crystal(m, 28, sg=sg, n_atoms=1)
        s, abc, ang, at, d = cr
        opt, kv = options(m.rng), volts(m.rng, 1)
        w, _ = weights(m.rng, 1, 25)
        wt = torch.tensor(w, dtype=torch.float32)
        n = 2
        full = [(a[0], *map(float, q), a[4], a[5]) for a in at for q in S.orbit(s, a[1:4])[0]]
        cell, p1 = build(m, cr, torch.float32), build(m, (1, abc, ang, full, d), torch.float32)
        tag = f"sg {s} {at} {abc} {ang} dmin={d} {kv.tolist()} {opt}"
        o = mute(m, M.ebsd_master_pattern, cell, kv, 1.0, wt, d, grid_half_width=n, **opt).double().sum(1)[0].numpy()
        f = mute(m, M.ebsd_master_pattern, p1, kv, 1.0, wt, d, grid_half_width=n, **opt).double().sum(1)[0].numpy()
        ij = mute(m, kvectors_grid, cell, n)[1].numpy()
        fk, fij = (v.double().numpy() for v in mute(m, kvectors_grid, p1, n))
        where = {tuple(r): i for i, r in enumerate(fij.astype(int).tolist())}
        m.seen(np.concatenate([fij, f[:, None]], 1))
        idx = np.array([where[tuple(r)] for r in ij.astype(int).tolist()])
        m.small(np.abs(f[idx] - o).max() / f.max(), 2e-3, "symmetry:same-crystal-described-in-P1", tag)
        A = S.basis(abc, ang)
        for R in S.point_rots(s):
            C = A @ R @ np.linalg.inv(A)
            if abs(abs(C[2, 2]) - 1) > 1e-9:
                continue
            q = np.rint(np.concatenate([fij[:, :2] @ C[:2, :2].T, fij[:, 2:] * C[2, 2]], 1)).astype(int)
            j = np.array([where[tuple(r)] for r in q.tolist()])
            m.small(np.abs(f[j] - f).max() / f.max(), 2e-3, "symmetry:invariant-under-the-point-group", f"{tag} {R.tolist()}")
