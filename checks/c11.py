"""C11 deformation projection (HR-EBSD)."""
import numpy as np
import torch

import ebsdtorch.ebsd.geometry as G
import ebsdtorch.ebsd.project_hrebsd as H
from ebsdtorch.ebsd.master_pattern import MasterPattern
from vlib import geom, ref
from vlib.core import Prop

PROP = Prop(
    "C11",
    "a case is one deformation state (pose vector, component mask, orientation, inverse deformation gradient) of a batch seen through one "
    "detector and binning; states include the undeformed one, pure rotations, stretches, shears and gradients of determinant far from one",
    ["float32 results are judged to 2e-5 on unit directions"],
)
CPU = torch.device("cpu")


def states(m, B):
    shape, pc, tilts = geom.rand_geom(m.rng)
    q = ref.rand_q(m.rng, B)
    q[0] = [1, 0, 0, 0]
    F = np.eye(3) + m.rng.normal(size=(B, 3, 3)) * m.rng.choice([0, 1e-4, 1e-2, 0.15], (B, 1, 1))
    F[0] = np.eye(3)
    v = m.rng.normal(size=(B, 6)) * [0.6, 0.6, 0.6, 5, 5, 5] + [0, 0, 0, -shape[0] / 2, -shape[1] / 2, shape[0] * 0.8]
    mask = m.rng.integers(0, 2, 6).astype(float) if m.rng.random() < 0.5 else np.ones(6)
    mask[5] = 1
    return shape, pc, tilts, mask, v, q, F


def want_dirs(shape, b, mask, v, q, F):
    pix = geom.grid(shape, (b, b))
    out = []
    for vi, qi, Fi in zip(v * mask, q, F):
        A = np.zeros((4, 4))
        A[0, 1], A[0, 2], A[1, 2] = -vi[2], vi[1], -vi[0]
        A[:3, :3] -= A[:3, :3].T.copy()
        A[:3, 3] = vi[3:]
        M = ref.expm(A)
        d = (pix @ M[:3, :2].T + M[:3, 3]) @ ref.q_to_R(qi).T @ Fi.T
        out.append(d / np.linalg.norm(d, axis=1, keepdims=True))
    return np.array(out)


@PROP.scenario("directions", rounds=15)
def directions(m):
    B = int(m.rng.integers(1, 6))
    shape, pc, tilts, mask, v, q, F = states(m, B)
    for b in (1, 2, 3, 4, 12):
        want = want_dirs(shape, b, mask, v, q, F)
        for dt, tol in ((torch.float64, 1e-10), (torch.float32, 3e-5)):
            args = [torch.tensor(x, dtype=dt) for x in (mask, v, q, F)]
            out = m.call(H.hrebsd_coords, *args, shape, b, CPU, dt)
            m.shape(out, (B, want.shape[1], 3), "directions:shape")
            m.expect(out.dtype == dt, "directions:dtype")
            m.small(abs(np.linalg.norm(ref.npf(out), axis=-1) - 1), 1e-9 if dt == torch.float64 else 2e-6, "directions:unit")
            m.small(abs(ref.npf(out) - want), tol, "directions:composition", f"{shape} binning {b}")
            for i in range(B):
                one = m.call(H.hrebsd_coords, args[0], *(a[i : i + 1] for a in args[1:]), shape, b, CPU, dt)
                m.close(one[0], out[i], tol, "directions:alone")
            m.seen(np.concatenate([v, q, F.reshape(B, 9)], 1), tag=f"{b}{dt}{shape}")
    h, w = shape
    for bad in (5, 7, 11):
        if h % bad or w % bad:
            m.rejects(H.hrebsd_coords, *args, shape, bad, CPU, key="directions:rejects-uneven-binning")
    m.sample(shape=shape, mask=mask.tolist(), vector=v[0].tolist(), f_inverse=F[0].tolist())


@PROP.scenario("undeformed", rounds=8)
def undeformed(m):
    """the undeformed state sees what the plain detector geometry sees."""
    shape, pc, tilts, *_ = states(m, 1)
    R, t = m.call(G.bruker_geometry_to_SE3, torch.tensor([pc]).double(), torch.tensor([tilts[2] - tilts[1]]).double(), torch.tensor([tilts[0]]).double(), shape)
    vec = m.call(H.se3_log_map_split, R, t)
    g = m.call(G.EBSDGeometry, shape, tilts, pc)
    B = 3
    q = ref.rand_q(m.rng, B)
    q[0] = [1, 0, 0, 0]
    for b in (1, 2, 6):
        out = m.call(H.hrebsd_coords, torch.ones(6).double(), vec.repeat(B, 1), torch.tensor(q), torch.eye(3).double().repeat(B, 1, 1), shape, b, CPU, torch.float64)
        c = ref.npf(m.call(g.get_coords_sample_frame, (b, b), torch.float64).detach()).reshape(-1, 3)
        c /= np.linalg.norm(c, axis=1, keepdims=True)
        m.shape(out, (B, len(c), 3), "undeformed:shape")
        m.small(abs(ref.npf(out) - np.einsum("bij,nj->bni", ref.q_to_R(q), c)), 3e-6, "undeformed:plain-geometry", f"{shape} {pc} {tilts} binning {b}")
        # a deformation gradient that is a rotation only turns the crystal
        g2 = ref.rand_q(m.rng, B)
        rot = m.call(H.hrebsd_coords, torch.ones(6).double(), vec.repeat(B, 1), torch.tensor(q), torch.tensor(ref.q_to_R(g2)), shape, b, CPU, torch.float64)
        m.small(abs(ref.npf(rot) - np.einsum("bij,bnj->bni", ref.q_to_R(g2), ref.npf(out))), 1e-9, "undeformed:rotation")
        # volumetric expansion moves nothing
        k = torch.tensor(m.rng.uniform(0.5, 2, B))
        vol = m.call(H.hrebsd_coords, torch.ones(6).double(), vec.repeat(B, 1), torch.tensor(q), torch.eye(3).double() * k[:, None, None], shape, b, CPU, torch.float64)
        m.small(abs(ref.npf(vol) - ref.npf(out)), 1e-12, "undeformed:volumetric")
        m.seen(np.concatenate([q, g2], 1), tag=f"{b}{shape}")
    m.sample(shape=shape, pc=pc, tilts=tilts, pose=vec)


@PROP.scenario("patterns", rounds=2)
def patterns(m):
    n = int(m.rng.integers(8, 40))
    N, S = m.rng.random((2, n, n))
    mp = m.call(MasterPattern, (torch.tensor(N), torch.tensor(S)), laue_group=11)
    B = 3
    shape, pc, tilts, mask, v, q, F = states(m, B)
    co = m.call(H.hrebsd_coords, *(torch.tensor(x) for x in (mask, v, q, F)), shape, 2, CPU, torch.float64)
    p = m.call(H.project_hrebsd, mp, co)
    m.shape(p, tuple(co.shape[:2]), "patterns:shape")
    m.small(abs(ref.npf(p) - geom.lookup(N, S, ref.npf(co))), 1e-6, "patterns:lookup")
    for i in range(B):
        m.close(m.call(H.project_hrebsd, mp, co[i : i + 1])[0], p[i], 1e-6, "patterns:alone")
    near = m.call(H.project_hrebsd, mp, co, mode="nearest")
    m.expect(bool(np.isin(ref.npf(near).round(9), np.concatenate([N, S]).round(9)).all()), "patterns:nearest-values")
    # a coarser detector sees the pattern smoothed accordingly
    b = int(m.rng.integers(2, 5))
    coarse = m.call(H.project_hrebsd, mp, co, virtual_binning=b)
    smooth = m.call(MasterPattern, (torch.tensor(N), torch.tensor(S)), laue_group=11)
    m.close(coarse, m.call(smooth.interpolate, co, padding_mode="border", align_corners=False, normalize_coords=False, virtual_binning=b), 1e-6, "patterns:virtual-binning")
    m.expect(float(coarse.std()) < float(p.std()), "patterns:virtual-binning-smooths")
    m.close(m.call(H.project_hrebsd, mp, co), p, 1e-6, "patterns:virtual-binning-left-the-pattern-alone")
    m.seen(co.reshape(-1, 3)[:500])


@PROP.scenario("gradients", rounds=2)
def gradients(m):
    """the fit differentiates through the projection."""
    shape, pc, tilts, mask, v, q, F = states(m, 2)
    mask = np.ones(6)
    xs = [torch.tensor(x, requires_grad=True) for x in (v, q, F)]
    out = m.call(H.hrebsd_coords, torch.tensor(mask), *xs, shape, 12, CPU, torch.float64)
    c = torch.tensor(m.rng.normal(size=out.shape))
    gr = torch.autograd.grad((out * c).sum(), xs)
    for k, (x, g) in enumerate(zip((v, q, F), gr)):
        if k == 1:
            continue  # a perturbed quaternion leaves the unit sphere
        for _ in range(8):
            i = tuple(int(m.rng.integers(0, s)) for s in x.shape)
            f = []
            for s in (1, -1):
                y = [v.copy(), q.copy(), F.copy()]
                y[k][i] += s * 1e-6
                f.append(float((torch.tensor(want_dirs(shape, 12, mask, *y)) * c).sum()))
            num = (f[0] - f[1]) / 2e-6
            m.small(abs(float(g[i]) - num) / (1 + abs(num)), 1e-4, "gradients", f"argument {k} component {i}")
            m.seen((k, i))
