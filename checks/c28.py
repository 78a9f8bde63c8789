"""C28 reflections."""
import contextlib
import io

import numpy as np
import torch

from ebsdtorch.crystallography import diffraction as D
from ebsdtorch.crystallography.unit_cell import Cell
from vlib import spacegroups as S
from vlib.core import Prop

PROP = Prop(
    "C28",
    "a case is one reflection of one crystal (listed, or found by brute force), or one lattice with its list",
    ["reflections whose spacing equals the limit to 1e-9 may be listed or not",
     "rhombohedral lattices are described in the hexagonal (obverse) setting, which is what the operators of the library use"],
)


def mute(m, fn, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return m.call(fn, *a, **k)


def lattice(rng, x=None, sg=None, lo=0.25, hi=0.9):
    if sg is None:
        x = x or int(rng.integers(1, 8))
        sg = int(rng.choice([s for s in range(1, 231) if S.system(s) == x]))
    x = S.system(sg)
    abc, ang = S.random_lattice(rng, x, lo, hi)
    return x, sg, abc, ang


def brute(abc, ang, dmin):
    """all reflections with spacing >= dmin: exact bound |h| <= |a|/dmin"""
    n = [int(np.floor(v / dmin * (1 + 1e-9))) + 1 for v in abc]
    h = np.stack(np.meshgrid(*[np.arange(-k, k + 1) for k in n], indexing="ij"), -1).reshape(-1, 3)
    h = h[(h != 0).any(1)]
    B = np.linalg.inv(S.basis(abc, ang)).T
    g = np.linalg.norm(h @ B.T, axis=1)
    keep = g * dmin <= 1 + 1e-9
    return h[keep], 1 / g[keep]


def allowed(sg, h):
    """lattice centring from the pure translations of the group"""
    R, t = S.ops(sg)
    one = (R == np.eye(3, dtype=int)).all((1, 2))
    T = t[one]
    return ((h @ T.T) % 24 == 0).all(1)


def cell(m, sg, abc, ang, atoms=((14, 0.1, 0.2, 0.3, 1.0, 0.005),)):
    return mute(m, Cell, sg, list(atoms), abc, "nm", ang, "deg")


def keyset(h):
    return set(map(tuple, np.asarray(h).tolist()))


@PROP.scenario("lists", thorough_rounds=10)
def lists(m):
    todo = list(range(1, 8)) * m.n(12, 20)
    for x in todo:
        x, sg, abc, ang = lattice(m.rng, x, hi=float(m.rng.choice([0.6, 0.9])))
        dmin = float(m.rng.uniform(0.06, 0.25))
        if m.rng.random() < 0.3:  # a round spacing of the lattice as the limit
            dmin = abc[0] / int(m.rng.integers(2, 6)) * (1 - 1e-6)
        if np.prod(abc) / dmin**3 > 20000:
            dmin = (np.prod(abc) / 20000) ** (1 / 3)
        c = cell(m, sg, abc, ang)
        tag = f"sg {sg} {abc} {ang} dmin={dmin}"
        for centring in (True, False):
            h, d = brute(abc, ang, dmin)
            if centring:
                k = allowed(sg, h)
                h, d = h[k], d[k]
            firm = keyset(h[d > dmin * (1 + 1e-9)])
            may = keyset(h)
            got = mute(m, c.get_reflections, dmin, False, centring)
            m.shape(got, (None, 3), "lists:shape")
            m.expect(not got.is_floating_point(), "lists:integers", tag)
            have = keyset(got.numpy())
            m.seen(got)
            m.expect(len(have) == len(got), "lists:each-once", tag)
            m.expect(firm <= have, "lists:complete", f"{tag}: {len(firm - have)} of {len(firm)} missing, e.g. {sorted(firm - have)[:3]}")
            m.expect(have <= may, "lists:nothing-else", f"{tag}: {sorted(have - may)[:3]}")
            # what the list says must be what the cell says
            if len(got):
                sp = 1 / m.call(c.calc_length, got, "r")
                m.expect(float(sp.min()) > dmin * (1 - 1e-6), "lists:spacing", tag)
            if centring:
                # every difference of two listed reflections (and 000) is in the table of differences
                if len(got) < 400:
                    table = keyset(mute(m, c.get_reflections, dmin, True).numpy())
                    full = np.concatenate([np.zeros((1, 3), int), got.numpy()])
                    diff = keyset((full[:, None] - full[None]).reshape(-1, 3)) - {(0, 0, 0)}
                    m.expect(diff <= table, "lists:differences", f"{tag}: {len(diff - table)} missing, e.g. {sorted(diff - table)[:3]}")
                    t = np.array(sorted(table)).reshape(-1, 3)
                    m.expect(allowed(sg, t).all() and (0, 0, 0) not in table, "lists:differences-allowed", tag)
                lim = mute(m, c.get_hkl_limits, dmin)
                top = np.abs(h[d > dmin * (1 + 1e-9)]).max(0) if firm else np.zeros(3)
                m.expect((np.array(lim) >= top).all(), "lists:limits", f"{tag}: {lim} < {top}")


@PROP.scenario("centring")
def centring(m):
    g = np.stack(np.meshgrid(*[np.arange(-6, 7)] * 3, indexing="ij"), -1)
    for sg in range(1, 231):
        _, _, abc, ang = lattice(m.rng, sg=sg)
        c = cell(m, sg, abc, ang)
        got = mute(m, c.is_g_allowed, torch.as_tensor(g))
        m.seen((sg, S.centring(sg)))
        m.shape(got, g.shape[:-1], "centring:shape")
        want = allowed(sg, g.reshape(-1, 3)).reshape(g.shape[:-1])
        m.expect((got.numpy() == want).all(), "centring:absences", f"sg {sg}: {int((got.numpy() != want).sum())} differ")


def atoms(rng, n=None):
    out = []
    for _ in range(n or int(rng.integers(1, 4))):
        p = rng.uniform(0, 1, 3)
        if rng.random() < 0.3:
            p = rng.choice([0.0, 0.5, 0.25, 0.75], 3)
        out.append((int(rng.integers(3, 80)), *map(float, p), float(rng.choice([1.0, 0.6])), float(rng.uniform(0.001, 0.01))))
    return out


def clear(sg, at):
    return all(S.orbit(sg, a[1:4])[1] > 2e-3 for a in at)


def crystal(m, sg, beams=70):
    while True:
        _, _, abc, ang = lattice(m.rng, sg=sg, lo=0.3, hi=0.6)
        at = atoms(m.rng)
        if clear(sg, at):
            break
    d = 0.12
    while allowed(sg, brute(abc, ang, d)[0]).sum() > beams:
        d *= 1.06
    while allowed(sg, brute(abc, ang, d)[0]).sum() < min(beams, 12):
        d /= 1.06
    d *= 0.9999
    return cell(m, sg, abc, ang, at), abc, ang, at, d


@PROP.scenario("structure-factors", thorough_rounds=8)
def structure_factors(m):
    """the emission matrix against a direct sum over every atom of the cell; extinctions; symmetry"""
    sgs = [int(v) for v in m.rng.permutation(np.arange(1, 231))[: m.n(90, 230)]]
    for sg in sgs:
        c, abc, ang, at, d = crystal(m, sg)
        tag = f"sg {sg} {abc} {ang} dmin={d}"
        beams = mute(m, c.get_reflections, d, False).numpy()
        full = np.concatenate([np.zeros((1, 3), int), beams])
        out = mute(m, D.calc_sgh, c, d)
        m.shape(out, (len(at), len(full), len(full)), "structure:shape")
        out = out.to(torch.complex128).numpy()
        B = np.linalg.inv(S.basis(abc, ang)).T
        diff = full[None] - full[:, None]
        s2 = 0.25 * (np.linalg.norm(diff @ B.T, axis=-1) ** 2)
        m.seen(np.concatenate([beams, np.full((len(beams), 1), sg)], 1))
        R, t = S.ops(sg)
        signs = []
        for i, a in enumerate(at):
            orb = S.orbit(sg, a[1:4])[0]
            ph = np.exp(2j * np.pi * (diff.astype(float) @ orb.T)).sum(-1)
            want = a[0] ** 2 * a[4] * np.exp(-a[5] * s2) * ph
            top = a[0] ** 2 * len(orb)
            e = [np.abs(out[i] - want).max(), np.abs(out[i] - want.conj()).max()]
            signs.append(int(np.argmin(e)) if abs(e[0] - e[1]) > 1e-4 * top else -1)
            m.small(min(e) / top, 2e-4, "structure:direct-sum", f"{tag} {a}")
            m.small(np.abs(out[i] - out[i].conj().T).max() / top, 1e-5, "structure:hermitian", f"{tag} {a}")
            m.small(np.abs(out[i].diagonal() - a[0] ** 2 * a[4] * len(orb)).max() / top, 1e-5, "structure:forward", f"{tag} {a}")
            # F(hR) = F(h) exp(-2 pi i h.t): equal magnitudes of equivalent reflections, and extinctions
            F = {tuple(h): out[i][0, j] for j, h in enumerate(full.tolist())}
            for j, h in enumerate(full):
                eq = h @ R
                phase = (t @ h) % 24
                fixed = (eq == h).all(1)
                if (fixed & (phase != 0)).any():
                    m.small(abs(F[tuple(h)]) / top, 2e-4, "structure:extinct", f"{tag} {a} {h}")
                for q in eq[m.rng.permutation(len(eq))[:6]]:
                    if tuple(q) in F:
                        m.small(abs(abs(F[tuple(q)]) - abs(F[tuple(h)])) / top, 2e-4, "structure:equivalent-magnitudes", f"{tag} {a} {h}~{q}")
                    else:
                        m.expect(False, "structure:list-closed-under-symmetry", f"{tag} {h}~{q}")
        m.expect(len(set(s for s in signs if s >= 0)) <= 1, "structure:one-sign-convention", f"{tag}: {signs}")
    m.sample(space_groups=sgs[:10])


@PROP.scenario("potential", rounds=1, thorough_rounds=8)
def potential(m):
    """equivalent reflections have equal Fourier coefficients of the potential and extinct ones none"""
    sgs = [int(v) for v in m.rng.permutation(np.arange(1, 231))[: m.n(40, 120)]]
    for sg in sgs:
        c, abc, ang, at, d = crystal(m, sg, beams=60)
        kv = torch.tensor([float(m.rng.uniform(5, 30))])
        scat = "WK" if m.rng.random() < 0.7 else "Hybrid"
        tag = f"sg {sg} {at} {abc} {ang} dmin={d} {scat}"
        hkl, U, up, lam = mute(m, D.calc_helper_bloch_formalism, c, d, kv, scatter_factor=scat)
        full = np.concatenate([np.zeros((1, 3), int), mute(m, c.get_reflections, d, False).numpy()])
        m.expect((np.asarray(hkl) == full).all() if hkl.shape == full.shape else False, "potential:beams", tag)
        m.shape(U, (1, len(full), len(full)), "potential:shape")
        U = U[0].to(torch.complex128).numpy()
        R, t = S.ops(sg)
        m.seen(np.concatenate([full, np.full((len(full), 1), sg)], 1))
        top = np.abs(U[0]).max()
        F = {tuple(h): U[0, j] for j, h in enumerate(full.tolist())}
        for h in full:
            eq = h @ R
            phase = (t @ h) % 24
            if ((eq == h).all(1) & (phase != 0)).any():
                m.small(abs(F[tuple(h)]) / top, 5e-4, "potential:extinct", f"{tag} {h}")
            for k in m.rng.permutation(len(eq))[:6]:
                q = tuple(eq[k])
                if q in F:
                    m.small(abs(abs(F[q]) - abs(F[tuple(h)])) / top, 5e-4, "potential:equivalent-magnitudes", f"{tag} {h}~{q}")
                    w = np.exp(-2j * np.pi * phase[k] / 24)
                    e = min(abs(F[q] - F[tuple(h)] * w), abs(F[q] - F[tuple(h)] * w.conj()))
                    m.small(e / top, 5e-4, "potential:equivalent-phases", f"{tag} {h}~{q}")
