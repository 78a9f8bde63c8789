"""C17 pattern-centre fitting."""
import numpy as np
import torch

from ebsdtorch.ebsd.fitting import (
    apply_geometry, bruker_geometries_to_SE3, bruker_geometry_from_SE3, generate_dictionary_coords, get_3D_pixel_coords,
    get_3D_pixel_coords_with_periphery, spatial_fft_pc_fitter)
from ebsdtorch.ebsd.geometry import EBSDGeometry
from ebsdtorch.ebsd.master_pattern import MasterPattern
from ebsdtorch.s2_and_so3.laue_fz_ori import sample_ori_fz_laue_angle
from vlib import geom, laue, ref, sim
from vlib.core import Prop

PROP = Prop(
    "C17",
    "a case is one fitted pattern set (or one geometry): patterns simulated on and off the search grid for random phases, detector shapes incl. odd ones, search ranges, "
    "binnings, tilts, dictionary batch sizes and both metrics, against an exhaustive search",
    ["shifts within a thousandth of a pixel of the requested range may or may not be searched",
     "mutual information is compared within what one pixel on a grey-level edge can change"],
)
CPU = torch.device("cpu")
T32 = torch.float32


@PROP.scenario("geometry", rounds=4, thorough_rounds=20)
def geometry(m):
    shape, pc, tilts = geom.rand_geom(m.rng)
    b = int(m.rng.choice([1, 2, 3, 4]))
    pix = m.shape(m.call(get_3D_pixel_coords, shape, CPU, b, torch.float64), (shape[0] // b * (shape[1] // b), 3), "geometry:grid-shape")
    m.seen(pix)
    g = geom.grid(shape, (b, b))
    m.close(pix, np.c_[g, np.zeros(len(g))], 1e-9 * max(shape), "geometry:grid")
    p32 = m.call(get_3D_pixel_coords, shape, CPU, b)
    m.expect(p32.dtype == T32, "geometry:grid-dtype")
    t, sx = tilts[2] - tilts[1], tilts[0]
    n = 6
    pcs = np.array([pc]) + np.r_[0, m.rng.uniform(-0.2, 0.2, n - 1)][:, None]
    R, tr = m.call(bruker_geometries_to_SE3, torch.tensor(pcs), torch.tensor(t).double().expand(n), torch.tensor(sx).double().expand(n), shape)
    m.shape(R, (n, 3, 3), "geometry:rotation-shape"), m.shape(tr, (n, 3), "geometry:translation-shape")
    m.close(R, np.broadcast_to(geom.tilt_R(t, sx), (n, 3, 3)), 1e-6, "geometry:rotation")
    for k in range(n):
        want = geom.pixel_positions(g, pcs[k], shape, t, sx)
        d = m.call(apply_geometry, pix, R[k], tr[k])
        m.close(d, want / np.linalg.norm(want, axis=1, keepdims=True), 1e-6, "geometry:directions")
    bp, bt, bs = m.call(bruker_geometry_from_SE3, R, tr, shape)
    m.close(bp, pcs, 1e-6, "geometry:round-trip")
    m.close(bt, torch.full((n,), t).double(), 1e-4, "geometry:tilt-round-trip")
    m.close(bs, torch.full((n,), sx).double(), 1e-4, "geometry:secondary-tilt-round-trip")
    e = m.call(EBSDGeometry, shape, tilts_degrees=tilts, proj_center=pc)
    if shape[0] % b == 0 and shape[1] % b == 0:
        c = m.call(e.get_coords_sample_frame, (b, b)).reshape(-1, 3)
        c = c / c.norm(dim=1, keepdim=True)
        m.close(m.call(apply_geometry, p32, R[0].float(), tr[0].float()), c, 2e-5, "geometry:agrees-with-detector")
    q = ref.rand_q(m.rng, 5)
    dd = m.shape(m.call(generate_dictionary_coords, pix, torch.tensor(q), R[0], tr[0]), (5, len(g), 3), "geometry:dictionary-shape")
    d0 = geom.pixel_positions(g, pcs[0], shape, t, sx)
    d0 /= np.linalg.norm(d0, axis=1, keepdims=True)
    m.close(dd, np.einsum("nij,pj->npi", ref.q_to_R(q), d0), 1e-6, "geometry:dictionary-directions")


def exact(x):
    return int(np.floor(x + 1e-6)), int(np.floor(x - 1e-6))


@PROP.scenario("periphery", rounds=6, thorough_rounds=30)
def periphery(m):
    for _ in range(10):
        b = int(m.rng.choice([1, 2, 3]))
        H, W = (int(x) * b for x in m.rng.integers(3, 40, 2))
        lo, hi = 0.5 - m.rng.uniform(0, 0.8, 2), 0.5 + m.rng.uniform(0, 0.8, 2)
        pix, pad, shp = m.call(get_3D_pixel_coords_with_periphery, (H, W), CPU, lo[0], hi[0], lo[1], hi[1], b, torch.float64)
        m.seen(np.array([[H, W, b, *lo, *hi]]))
        wl, wr, ht, hb = pad
        # a centre of 0.5 - s / size is reached by a displacement of s pixels
        m.expect(ht in exact((hi[1] - 0.5) * H / b) and hb in exact((0.5 - lo[1]) * H / b), "periphery:rows", f"{pad} {H} {b} {lo} {hi}")
        m.expect(wl in exact((hi[0] - 0.5) * W / b) and wr in exact((0.5 - lo[0]) * W / b), "periphery:columns", f"{pad} {W} {b} {lo} {hi}")
        m.need(tuple(shp) == (H // b + ht + hb, W // b + wl + wr), "periphery:padded-shape")
        m.shape(pix, (shp[0] * shp[1], 3), "periphery:coords-shape")
        i = (np.arange(shp[0]) - ht) * b + (b - 1) / 2
        j = (np.arange(shp[1]) - wl) * b + (b - 1) / 2
        want = np.stack(np.meshgrid(i, j, [0.0], indexing="ij"), -1).reshape(-1, 3)
        m.close(pix, want, 1e-9 * max(H, W), "periphery:coords")


def entropy(p, axis):
    return -np.where(p > 0, p * np.log(np.where(p > 0, p, 1)), 0).sum(axis)


def scores(S, P, pads, metric):
    """(dictionary, pattern, shift y, shift x) scores; S (D,ph,pw) peripheral simulations, P (B,h,w)."""
    ht, hb, wl, wr = pads
    h, w = P.shape[1:]
    ph, pw = S.shape[1:]

    def corr(a, k):  # sum over the pattern of a[x + s] k[x] for s = -pad .. pad
        f = np.fft.rfft2(a)[:, None] * np.fft.rfft2(k, s=(ph, pw)).conj()[None]
        c = np.fft.irfft2(f, s=(ph, pw))
        return c[..., : ht + hb + 1, : wl + wr + 1]

    if metric == "dot":
        return corr(S, P)
    n = 4
    ls, lp = np.minimum((S * n).astype(int), n - 1), np.minimum((P * n).astype(int), n - 1)
    J = np.stack([np.stack([corr((ls == i) * 1.0, (lp == j) * 1.0) for j in range(n)]) for i in range(n)])
    J = np.rint(J) / (h * w)
    return np.maximum(0, entropy(J.sum(1), 0) + entropy(J.sum(0), 0) - entropy(J, (0, 1)))


def fit_round(m, metric):
    lg = int(m.rng.choice([5, 7, 9, 10, 11, 11]))
    b = int(m.rng.choice([1, 1, 2]))
    n = int(m.rng.integers(30, 50))
    img = sim.images(sim.intensity(m.rng, lg, 3, 0.15), n)
    img = (img - img.min()) / (img.max() - img.min())
    img32 = torch.tensor(img, dtype=T32)
    img = ref.npf(img32)
    mp = m.call(MasterPattern, (img32[0], img32[1]), laue_group=lg)
    h, w = (int(x) for x in m.rng.integers(8, 15, 2))
    H, W = h * b, w * b
    sx = float(m.rng.choice([0.0, m.rng.uniform(-5, 5)]))
    tilt = float(m.rng.uniform(60, 75))
    lo, hi = m.rng.uniform(0.05, 0.5, 2), m.rng.uniform(0.5, 0.95, 2)
    zlo = float(m.rng.uniform(0.35, 0.5))
    zhi, steps = zlo + 0.2, int(m.rng.integers(1, 4))
    res = {5: 25, 7: 28, 9: 20, 10: 20, 11: 16}[lg]
    with sim.quiet():
        dic = ref.npf(m.call(sample_ori_fz_laue_angle, lg, float(res), CPU))
    B = int(m.rng.integers(1, 4))
    zs = np.linspace(zlo, zhi, steps)
    # half of the pattern sets lie on the search grid
    z = float(m.rng.choice(zs))
    s = np.array([m.rng.integers(-int((hi[k] - 0.5) * x), int((0.5 - lo[k]) * x) + 1) for k, x in ((0, w), (1, h))])
    pc = 0.5 - s / np.array([w, h])
    q = dic[m.rng.integers(0, len(dic), B)]
    if m.rng.random() < 0.5:
        pc, z, q = pc + m.rng.uniform(-0.03, 0.03, 2), z + m.rng.uniform(-0.05, 0.05), ref.rand_q(m.rng, B)
    P = sim.simulate(img, sim.directions((H, W), (*pc, z), (sx, tilt, 0.0)), q)
    P = P + m.rng.choice([0, 0.2]) * P.std() * m.rng.normal(size=P.shape)
    P = (P * m.rng.uniform(0.5, 20, (B, 1)) + m.rng.uniform(-3, 3, (B, 1))).reshape(B, 1, H, W)
    if B > 1 and m.rng.random() < 0.3:  # a dead pattern matches nothing and leaves the others alone
        P[m.rng.integers(B)] = m.rng.choice([0.0, 255.0, -3.7])
    P = torch.tensor(P, dtype=T32)
    given = P.clone()
    batch = int(m.rng.choice([7, 50, len(dic), len(dic) + 1, 1024]))
    args = dict(pc_x_min=lo[0], pc_x_max=hi[0], pc_y_min=lo[1], pc_y_max=hi[1], pc_z_min=zlo, pc_z_max=zhi, pc_z_steps=steps, primary_tilt_deg=tilt,
                secondary_tilt_deg=sx, dictionary_resolution_deg=float(res), dictionary_indexing_batch_size=batch, virtual_binning=b, metric=metric)
    with sim.quiet():
        rec = spatial_fft_pc_fitter
        out = None
        try:
            out = rec(mp, P, **args)
        except Exception as e:  # noqa: BLE001
            m.expect(False, f"fit:{metric}:raises", f"{type(e).__name__}: {str(e)[-300:]} {(H, W)} {args}")
            return
    m.calls.setdefault("spatial_fft_pc_fitter", [0, 0])[0] += 1
    m.seen(P.reshape(B, -1), tag=metric)
    m.expect(bool((P == given).all()), "fit:patterns-unchanged")
    bpc, bq = out
    m.shape(bpc, (3,), "fit:centre-shape"), m.shape(bq, (B, 4), "fit:orientations-shape")
    bpc, bq = ref.npf(bpc), ref.npf(bq)
    # exhaustive search
    pads = [exact(x) for x in ((hi[1] - 0.5) * h, (0.5 - lo[1]) * h, (hi[0] - 0.5) * w, (0.5 - lo[0]) * w)]
    pads = [p[1] for p in pads]  # the surely requested range
    ht, hb, wl, wr = (p + 1 for p in pads)  # one more to judge what was returned
    i, j = np.arange(-ht, h + hb), np.arange(-wl, w + wr)
    pix = np.stack(np.meshgrid(i * b + (b - 1) / 2, j * b + (b - 1) / 2, indexing="ij"), -1).reshape(-1, 2)
    E = ref.npf(given).reshape(B, h, b, w, b).mean((2, 4))
    E = E - E.min((1, 2), keepdims=True)
    E = E / np.maximum(E.max((1, 2), keepdims=True), 1e-30)
    if metric == "dot":
        E = E - E.mean((1, 2), keepdims=True)
    M = []
    for z_ in zs:
        x = geom.pixel_positions(pix, (0.5, 0.5, z_), (H, W), -tilt, sx)
        x /= np.linalg.norm(x, axis=1, keepdims=True)
        if b == 1:
            S = sim.simulate(img, x, dic)
        else:
            v = np.einsum("nij,pj->npi", ref.q_to_R(dic), x)
            S = ref.npf(m.call(mp.interpolate, torch.tensor(v, dtype=T32), virtual_binning=b))
        S = S.reshape(len(dic), len(i), len(j))
        c = scores(S, E, (ht, hb, wl, wr), metric)
        M.append(c)
    M = np.stack(M)  # (z, D, B, y, x); shift index 0 is -(pad+1): S[0] is pixel -(pad+1)
    avg = M.max(1).mean(1)
    inner = avg[:, 1:-1, 1:-1]
    tol = 2e-4 * max(1.0, abs(avg).max()) if metric == "dot" else 2 * np.log(h * w) / (h * w)
    # the returned centre as a shift
    sy, sx_ = (0.5 - bpc[1]) * h, (0.5 - bpc[0]) * w
    m.small(max(abs(sy - np.rint(sy)), abs(sx_ - np.rint(sx_))), 1e-3, "fit:whole-pixel-shift")
    iz = int(abs(zs - bpc[2]).argmin())
    m.small(abs(zs[iz] - bpc[2]), 1e-5, "fit:z-on-grid")
    y, x = int(np.rint(sy)) + ht, int(np.rint(sx_)) + wl
    m.need(0 <= y < avg.shape[1] and 0 <= x < avg.shape[2], "fit:centre-in-range", f"{bpc} for {lo} {hi}")
    m.small(bpc[:2] - hi, 1e-3 / min(h, w), "fit:centre-not-above-range"), m.small(lo - bpc[:2], 1e-3 / min(h, w), "fit:centre-not-below-range")
    m.small(inner.max() - avg[iz, y, x], tol, f"fit:{metric}:best-centre", f"laue {lg} {(H, W)} bin {b} batch {batch} of {len(dic)}, {bpc} truth {pc} {z}")
    a = abs(bq @ dic.T)
    k = a.argmax(1)
    m.small(1 - a.max(1), 1e-5, "fit:dictionary-member")
    got = M[iz, k, np.arange(B), y, x]
    m.small(M[iz, :, :, y, x].max(0) - got, tol, f"fit:{metric}:best-orientation", f"laue {lg} {(H, W)} bin {b} batch {batch} of {len(dic)}")


@PROP.scenario("correlation", rounds=10, thorough_rounds=80)
def correlation(m):
    fit_round(m, "dot")


@PROP.scenario("mutual-information", rounds=5, thorough_rounds=40)
def mutual(m):
    fit_round(m, "mi")


@PROP.scenario("recovery", rounds=3, thorough_rounds=15)
def recovery(m):
    """patterns simulated at a grid point of the search give back that point."""
    lg = 11
    f = sim.intensity(m.rng, lg, 4, 0.12)
    img = sim.images(f, 60)
    img = (img - img.min()) / (img.max() - img.min())
    mp = m.call(MasterPattern, tuple(torch.tensor(img, dtype=T32)), laue_group=lg)
    H, W = (int(x) for x in m.rng.integers(18, 25, 2))
    s = m.rng.integers(-5, 6, 2)
    zs = np.array([0.4, 0.5, 0.6])
    z = float(m.rng.choice(zs))
    pc = 0.5 - s / np.array([W, H])
    with sim.quiet():
        dic = ref.npf(m.call(sample_ori_fz_laue_angle, lg, 14.0, CPU))
    q = dic[m.rng.integers(0, len(dic), 5)]
    P = torch.tensor(sim.simulate(img, sim.directions((H, W), (*pc, z), (0.0, 70.0, 0.0)), q).reshape(5, 1, H, W), dtype=T32)
    m.seen(P.reshape(5, -1))
    with sim.quiet():
        bpc, bq = m.call(spatial_fft_pc_fitter, mp, P, pc_x_min=0.2, pc_x_max=0.8, pc_y_min=0.15, pc_y_max=0.85, pc_z_min=0.4, pc_z_max=0.6, pc_z_steps=3,
                         dictionary_resolution_deg=14.0, dictionary_indexing_batch_size=64, metric="mi")
    m.close(bpc, np.array([*pc, z]), 1e-4, "recovery:centre", f"{(H, W)}")
    mis = np.stack([ref.qangle(ref.qmul(np.asarray(o, float)[None], q), ref.npf(bq)) for o in laue.GROUPS[lg]]).min(0)
    m.small(np.degrees(mis), 4.0, "recovery:orientations", "(members near the zone boundary have close equivalents)")


@PROP.scenario("rejected", rounds=1)
def rejected(m):
    img = sim.images(sim.intensity(m.rng, 11), 20)
    mp = m.call(MasterPattern, tuple(torch.tensor(img, dtype=T32)), laue_group=11)
    m.seen("rejects")
    with sim.quiet():
        m.rejects(spatial_fft_pc_fitter, mp, torch.rand(2, 8, 8), key="rejected:dimensions")
        m.rejects(spatial_fft_pc_fitter, mp, torch.rand(2, 2, 8, 8), key="rejected:channels")
        m.rejects(spatial_fft_pc_fitter, mp, torch.rand(2, 1, 9, 8), virtual_binning=2, key="rejected:binning")
        m.rejects(spatial_fft_pc_fitter, mp, torch.rand(2, 1, 8, 8), metric="other", dictionary_resolution_deg=20.0, pc_z_steps=1, key="rejected:metric")
