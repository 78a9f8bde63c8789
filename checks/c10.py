"""C10 detector geometry."""
import numpy as np
import torch

import ebsdtorch.ebsd.fitting as FI
import ebsdtorch.ebsd.geometry as G
from vlib import geom, ref
from vlib.core import Prop

PROP = Prop(
    "C10",
    "a case is one geometry (detector shape, pattern centre, tilts, extra pose) or one pixel projected through it; shapes are square and "
    "oblong, tilts signed and zero, binnings all divisors used",
    ["float32 results are judged relative to the detector size",
     "pixel k is centred k + 1/2 pixels from the detector edge and pcz counts detector heights, as the Bruker convention of the code has it"],
)
CPU = torch.device("cpu")


@PROP.scenario("pattern-centre-to-pose", rounds=6)
def pose(m):
    for dt, tol in ((torch.float64, 1e-11), (torch.float32, 3e-6)):
        shape, _, _ = geom.rand_geom(m.rng)
        n = m.n(200, 2000)
        pc = np.stack([m.rng.uniform(-0.2, 1.2, n), m.rng.uniform(-0.2, 1.2, n), m.rng.uniform(0.2, 1.5, n)], 1)
        t = m.rng.uniform(-179, 179, n)
        t[: n // 2] = m.rng.uniform(-90, 0, n // 2)
        sx = m.rng.uniform(-80, 80, n)
        sx[m.rng.random(n) < 0.3] = 0
        t[:4], sx[:4] = [-70, -90, 0, 70], [0, 0, 0, 5]
        P, T, X = (torch.tensor(x, dtype=dt) for x in (pc, t, sx))
        for nm, to, fr in (("geometry", G.bruker_geometry_to_SE3, G.bruker_geometry_from_SE3),
                           ("fitting", FI.bruker_geometries_to_SE3, FI.bruker_geometry_from_SE3)):
            R, tv = m.call(to, P, T, X, shape)
            m.shape(R, (n, 3, 3), f"to-pose:{nm}:shape")
            m.shape(tv, (n, 3), f"to-pose:{nm}:shape")
            sc = max(shape)
            Ro = geom.tilt_R(t, sx)
            m.small(abs(ref.npf(R) - Ro), tol, f"to-pose:{nm}:rotation", rows=P)
            pix = m.rng.uniform(0, 1, (n, 2)) * shape
            want = geom.pixel_positions(pix, pc, shape, t, sx)
            got = np.einsum("nij,nj->ni", ref.npf(R), np.concatenate([pix, np.zeros((n, 1))], 1)) + ref.npf(tv)
            m.small(abs(got - want) / sc, tol, f"to-pose:{nm}:pixel", rows=P)
            R2, tv2 = R.clone(), tv.clone()
            out = fr(R2, tv2, shape)
            m.calls.setdefault(f"{nm}.from_SE3", [0, 0])[0] += 1
            m.expect(torch.equal(R2, R) and torch.equal(tv2, tv), f"from-pose:{nm}:inputs-untouched")
            m.need(len(out) == 3, f"from-pose:{nm}:outputs")
            m.close(out[0].double(), P.double(), tol * 10, f"from-pose:{nm}:pattern-centre", rows=P)
            m.close(out[1].double(), T.double(), 5e-3 if dt == torch.float32 else 1e-9, f"from-pose:{nm}:primary-tilt")
            m.close(out[2].double(), X.double(), 5e-3 if dt == torch.float32 else 1e-9, f"from-pose:{nm}:secondary-tilt")
            for i in range(3):
                a, b = m.call(to, P[i : i + 1], T[i : i + 1], X[i : i + 1], shape)
                m.close(torch.cat([a.reshape(-1), b.reshape(-1)]), torch.cat([R[i].reshape(-1), tv[i]]), tol * sc, f"to-pose:{nm}:alone")
            # one geometry for every centre: zero-dimensional tilts
            a, b = m.call(to, P, T[0], X[0], shape)
            m.close(b.double(), torch.tensor(geom.pixel_positions(np.full((n, 2), 0.0), pc, shape, t[0], sx[0])), tol * sc, f"to-pose:{nm}:shared-tilt")
        m.seen(pc, tag=str(dt))
    m.sample(shape=shape, pc=P[:2], primary=T[:2], secondary=X[:2])


def make(m, dt=torch.float32, **kw):
    shape, pc, tilts = geom.rand_geom(m.rng)
    g = m.call(G.EBSDGeometry, shape, tilts, pc, **kw)
    if dt == torch.float64:
        g = g.double()
    return g, shape, pc, tilts


def oracle(pix, shape, pc, tilts):
    return geom.pixel_positions(pix, np.array(pc), shape, tilts[2] - tilts[1], tilts[0])


@PROP.scenario("projection", rounds=30)
def projection(m):
    for dt in (torch.float32, torch.float64):
        g, shape, pc, tilts = make(m, dt)
        H, W = shape
        sc = max(H, W)
        pix = m.rng.uniform(0, 1, (60, 2)) * [H, W]
        want = oracle(pix, shape, pc, tilts)
        P = torch.tensor(pix, dtype=dt)
        s = m.call(g.project2sample, P).detach()
        m.shape(s, (60, 3), "project:shape")
        m.expect(s.dtype == dt, "project:dtype")
        m.small(abs(ref.npf(s) - want) / sc, 3e-6, "project:position", f"{shape} {pc} {tilts}", rows=P)
        b = m.call(g.backproject2detector, s).detach()
        m.shape(b, (60, 2), "backproject:shape")
        bt = 2e-4 if dt == torch.float32 else 3e-6
        m.small(abs(ref.npf(b) - pix) / sc, bt, "backproject:round-trip", f"{shape} {pc} {tilts}", rows=P)
        k = torch.tensor(m.rng.uniform(0.01, 50, (60, 1)), dtype=dt)
        m.small(abs(ref.npf(m.call(g.backproject2detector, s * k).detach()) - pix) / sc, bt, "backproject:any-length", rows=P)
        # same coordinates in other dtypes and shapes
        other = torch.float64 if dt == torch.float32 else torch.float32
        so = m.call(g.project2sample, P.to(other)).detach()
        m.small(abs(ref.npf(so) - want) / sc, 3e-6, "project:other-dtype")
        m.small(abs(ref.npf(m.call(g.backproject2detector, so).detach()) - pix) / sc, 2e-4, "backproject:other-dtype")
        m.close(m.call(g.project2sample, P[0]).detach(), s[0], 1e-5 * sc, "project:single")
        m.close(m.call(g.backproject2detector, s[0]).detach(), b[0], 1e-4 * sc, "backproject:single")
        m.close(m.call(g.project2sample, P.reshape(3, 4, 5, 2)).detach(), s.reshape(3, 4, 5, 3), 1e-5 * sc, "project:batched")
        m.close(m.call(g.backproject2detector, s.reshape(3, 4, 5, 3)).detach(), b.reshape(3, 4, 5, 2), 1e-4 * sc, "backproject:batched")
        # scan offsets move the origin of every ray
        scan = m.rng.uniform(-0.05, 0.05, (7, 2)) * sc
        S = torch.tensor(scan, dtype=dt)
        ps = m.call(g.project2sample, P[:, None, :], S[None]).detach()
        m.shape(ps, (60, 7, 3), "scan:shape")
        off = np.concatenate([scan, np.zeros((7, 1))], 1)
        m.small(abs(ref.npf(ps) - (want[:, None] - off[None])) / sc, 4e-6, "scan:relative-to-point")
        bs = m.call(g.backproject2detector, ps, S[None]).detach()
        m.shape(bs, (60, 7, 2), "scan:back-shape")
        m.small(abs(ref.npf(bs) - pix[:, None]) / sc, 3 * bt, "scan:round-trip")
        m.seen(pix, tag=str(dt))
    m.sample(shape=shape, pc=pc, tilts=tilts, pixels=P[:2], sample_frame=s[:2])


@PROP.scenario("pixel-grid", rounds=8)
def pixel_grid(m):
    shape, pc, tilts = geom.rand_geom(m.rng)
    g = m.call(G.EBSDGeometry, shape, tilts, pc)
    H, W = shape
    sc = max(shape)
    for b in [(1, 1), (2, 2), (3, 3), (4, 4), (6, 6), (12, 12), (2, 3), (1, 4), (H, W)]:
        want = oracle(geom.grid(shape, b), shape, pc, tilts)
        for dt in (torch.float32, torch.float64):
            c = m.call(g.get_coords_sample_frame, b, dt).detach()
            m.need(c.numel() == want.size, "grid:count", f"{shape} binning {b}: {tuple(c.shape)}")
            m.expect(c.dtype == dt, "grid:dtype")
            m.small(abs(ref.npf(c).reshape(-1, 3) - want) / sc, 3e-6, "grid:pixel-centres", f"{shape} binning {b}")
        if b[0] == b[1]:
            p = m.call(FI.get_3D_pixel_coords, shape, CPU, b[0], torch.float64)
            m.need(p.numel() == want.size, "fitting-grid:count")
            m.small(abs(ref.npf(p).reshape(-1, 3) - np.c_[geom.grid(shape, b), np.zeros(len(want))]), 1e-9, "fitting-grid:pixel-centres", f"{shape} {b}")
            R, t = m.call(FI.bruker_geometries_to_SE3, torch.tensor([pc]).double(), torch.tensor([tilts[2] - tilts[1]]).double(), torch.tensor([tilts[0]]).double(), shape)
            d = ref.npf(m.call(FI.apply_geometry, p, R, t))
            unit = want / np.linalg.norm(want, axis=1, keepdims=True)
            m.small(abs(d - unit), 1e-6, "fitting-grid:directions")
            q = ref.rand_q(m.rng, 3)
            dd = m.call(FI.generate_dictionary_coords, p, torch.tensor(q), R, t)
            m.shape(dd, (3, len(want), 3), "fitting-grid:dictionary-shape")
            m.small(abs(ref.npf(dd) - np.einsum("qij,nj->qni", ref.q_to_R(q), unit)), 1e-6, "fitting-grid:dictionary-directions")
        m.seen((shape, b, pc))
    for b in ((5, 1), (1, 7), (H + 1, 1)):
        if H % b[0] or W % b[1]:
            m.rejects(g.get_coords_sample_frame, b, key="grid:rejects-uneven-binning")
    m.sample(shape=shape, binning=b, first=c.reshape(-1, 3)[:1])


@PROP.scenario("padded-grid", rounds=8)
def padded_grid(m):
    shape, _, _ = geom.rand_geom(m.rng)
    H, W = shape
    for b in (1, 2, 3, 4, 6):
        lim = [float(x) for x in (m.rng.uniform(-0.2, 0.5), m.rng.uniform(0.5, 1.2), m.rng.uniform(-0.2, 0.5), m.rng.uniform(0.5, 1.2))]
        if b == 1:
            lim = [0.0, 1.0, 0.0, 1.0]
        p, pad, psh = m.call(FI.get_3D_pixel_coords_with_periphery, shape, CPU, *lim, binning=b, dtype=torch.float64)
        h, w = H // b, W // b
        wl, wr, hl, hr = pad
        m.expect(tuple(psh) == (h + hl + hr, w + wl + wr), "padded:shape", f"{psh} {pad}")
        m.need(p.shape[0] == psh[0] * psh[1], "padded:count")
        # a larger pattern centre lies further from the first column (row) of the detector,
        # so the detector reaches further before the reference one
        for got, f, size in ((wr, 0.5 - lim[0], w), (wl, lim[1] - 0.5, w), (hr, 0.5 - lim[2], h), (hl, lim[3] - 0.5, h)):
            m.small(abs(got - f * size), 1.0, "padded:reach", f"{pad} for limits {lim}")
        P = ref.npf(p).reshape(psh[0], psh[1], 3)
        core = P[hl : hl + h, wl : wl + w].reshape(-1, 3)
        m.small(abs(core - np.c_[geom.grid(shape, (b, b)), np.zeros(h * w)]), 1e-9, "padded:core-is-detector", f"{shape} binning {b}")
        if psh[0] > 1:
            m.small(abs(np.diff(P[..., 0], axis=0) - b), 1e-9, "padded:even-rows", f"{shape} binning {b}")
        if psh[1] > 1:
            m.small(abs(np.diff(P[..., 1], axis=1) - b), 1e-9, "padded:even-columns")
        m.seen((shape, b, tuple(lim)))
    m.sample(shape=shape, binning=b, limits=lim, padding=list(pad))


@PROP.scenario("pose-adjustment", rounds=15)
def adjust(m):
    shape, pc, tilts = geom.rand_geom(m.rng)
    H, W = shape
    sc = max(shape)
    pix = m.rng.uniform(0, 1, (30, 2)) * [H, W]
    P = torch.tensor(pix)
    base = oracle(pix, shape, pc, tilts)
    g = m.call(G.EBSDGeometry, shape, tilts, pc).double()
    # history: a random walk over which components may move and by how much
    v = np.zeros(6)
    rots, shifts = (False,) * 3, (False,) * 3
    for step in range(m.n(8, 20)):
        act = m.rng.integers(0, 4)
        if act == 0:
            rots = tuple(bool(x) for x in m.rng.integers(0, 2, 3))
            m.call(g.set_optimizable_se3_params, opt_rots=rots)
        elif act == 1:
            shifts = tuple(bool(x) for x in m.rng.integers(0, 2, 3))
            m.call(g.set_optimizable_se3_params, opt_shifts=shifts)
        elif act == 2:
            rots, shifts = (tuple(bool(x) for x in m.rng.integers(0, 2, 3)) for _ in range(2))
            m.call(g.set_optimizable_se3_params, rots, shifts)
        else:
            v = m.rng.normal(size=6) * [0.05, 0.05, 0.05, 2, 2, 2] * m.rng.choice([0, 1])
            with torch.no_grad():
                g.se3_vector.copy_(torch.tensor(v)[None])
        mask = np.array(rots + shifts, float)
        A = np.zeros((4, 4))
        w = v * mask
        A[0, 1], A[0, 2], A[1, 2] = -w[2], w[1], -w[0]
        A[:3, :3] -= A[:3, :3].T.copy()
        A[:3, 3] = w[3:]
        M = ref.expm(A)
        moved = pix @ M[:3, :2].T + M[:3, 3]
        R = geom.tilt_R(tilts[2] - tilts[1], tilts[0])
        org = np.array([pc[1] * H - 0.5, pc[0] * W - 0.5, -pc[2] * H])
        want = (moved - org) @ R.T
        s = m.call(g.project2sample, P)
        m.shape(s, (30, 3), "adjust:shape")
        m.small(abs(ref.npf(s.detach()) - want) / sc, 3e-6, "adjust:position", f"after {step + 1} steps, mask {mask}, vector {v}")
        m.small(abs(ref.npf(m.call(g.backproject2detector, s.detach()).detach()) - pix) / sc, 3e-6, "adjust:round-trip")
        if not w.any():
            m.small(abs(ref.npf(s.detach()) - base) / sc, 3e-6, "adjust:zero-is-start")
        Rd, td = m.call(g.get_detector2sample)
        m.shape(Rd, (3, 3), "adjust:pose-shape")
        m.shape(td, (3,), "adjust:pose-shape")
        # only the released components receive a gradient
        if mask.any():
            c = torch.tensor(m.rng.normal(size=(30, 3)))
            (gr,) = torch.autograd.grad((s * c).sum(), g.se3_vector)
            m.small(abs(ref.npf(gr).reshape(-1)[mask == 0]), 0, "adjust:frozen-gradient")
            m.small((abs(ref.npf(gr).reshape(-1)[mask == 1]) < 1e-12).astype(float), 0, "adjust:free-gradient")
        else:
            m.expect(not s.requires_grad, "adjust:frozen-detached")
        m.seen(np.concatenate([mask, v, [step]])[None])
    # shifts alone are a pattern centre change
    d = m.rng.normal(size=3) * 3
    g2 = m.call(G.EBSDGeometry, shape, tilts, pc, torch.tensor([0, 0, 0, *d]), (False,) * 3, (True,) * 3).double()
    pc2 = (pc[0] - d[1] / W, pc[1] - d[0] / H, pc[2] + d[2] / H)
    m.small(abs(ref.npf(m.call(g2.project2sample, P).detach()) - oracle(pix, shape, pc2, tilts)) / sc, 4e-6, "adjust:shift-is-pattern-centre")
    # saved and restored
    g3 = m.call(G.EBSDGeometry, shape, (0.0, 60.0, 0.0), (0.5, 0.5, 0.5)).double()
    g3.load_state_dict(g2.state_dict())
    g3.set_optimizable_se3_params((False,) * 3, (True,) * 3)
    m.close(m.call(g3.project2sample, P).detach(), m.call(g2.project2sample, P).detach(), 1e-9, "adjust:state-restores")
    m.sample(shape=shape, pc=pc, vector=v.tolist(), mask=mask.tolist())
