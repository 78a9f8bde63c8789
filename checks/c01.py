"""C01 every conversion preserves the rotation and returns the canonical range."""
import math

import numpy as np
import torch

import ebsdtorch.s2_and_so3.orientations as O
from vlib import ref, rots
from vlib.core import Prop

PROP = Prop(
    "C01",
    "a case is one rotation pushed through one conversion; non-trivial = distinct (conversion, "
    "dtype, input row); inputs cover the identity, half turns, symmetry axes, tiny and near-pi "
    "angles, cube faces/edges/corners and uniform rotations",
    ["reference conversions in vlib/ref.py (float64, written from the definitions) are right",
     "CPU execution; float32 accuracy limits are those of the published formulas"],
)
PI = math.pi


def tol(name, dt, ang, extra=""):
    if dt == torch.float64:
        # the published fit kikuchipy uses exceeds 1 by 1.9e-12 at 0: angles below 4e-6 are lost
        # (the arc cosine loses half of the digits near one)
        t = 2e-7 if name.endswith("cu") else 1e-7 if extra else 3e-8
        return t + np.minimum(5e-6, 2e-11 / np.maximum(ang, 1e-9)) if extra == "(kikuchipy)" else np.full_like(ang, t)
    if name.endswith("cu"):
        return np.full_like(ang, 6e-3)
    return np.where((ang < 0.05) | (ang > PI - 0.05), 4e-3 if extra == "(rounded)" else 1.5e-3, 5e-5)


def check_range(m, rep, y, dt, key):
    e = (1e-8 if "reference" in key else 1e-13) if dt == torch.float64 else 1e-5
    y = ref.npf(y)
    if rep == "qu":
        m.small(abs(np.linalg.norm(y, axis=-1) - 1), 20 * e, key + ":unit")
        m.small(np.maximum(0, -y[..., 0]), 10 * e, key + ":nonneg")
    elif rep == "om":
        # (rotations below 0.05 come from a series of two terms)
        e = max(20 * e, 1e-9)
        m.small(abs(y @ np.swapaxes(y, -1, -2) - np.eye(3)), e, key + ":orthonormal")
        m.small(abs(np.linalg.det(y) - 1), e, key + ":det")
    elif rep in ("ax", "ro"):
        m.small(abs(np.linalg.norm(y[..., :3], axis=-1) - 1), 20 * e, key + ":unit-axis")
        lo = np.maximum(0, -y[..., 3])
        if rep == "ro":  # tan(pi/2) rounds to a huge number of either sign: still a half turn
            lo = np.where(y[..., 3] < -1e5, 0.0, lo)
        hi = np.maximum(0, y[..., 3] - PI) if rep == "ax" else np.zeros_like(lo)
        m.small(lo + hi, 10 * e, key + ":angle-range")
    elif rep == "ho":
        m.small(np.maximum(0, np.linalg.norm(y, axis=-1) - ref.BALL_R), 10 * e, key + ":ball")
    elif rep == "cu":
        m.small(np.maximum(0, abs(y) - ref.CUBE_SEMI), 1e-6 if dt == torch.float64 else 2e-3, key + ":cube")
    elif rep == "bu":
        r = np.maximum(0, -y) + np.maximum(0, y - np.array([2 * PI, PI, 2 * PI]))
        m.small(r, 10 * e, key + ":euler-range")


def one(m, name, fn, x, q, dt, extra=""):
    a, b = name[:2], name[3:5]
    xt = torch.tensor(x, dtype=dt)
    # the rotation actually handed over after rounding to dt
    q_in = rots.to_q(a, xt.double().numpy()) if a != "ro" else q
    y = m.call(fn, xt)
    key = f"{name}{extra}"
    m.shape(y, (len(x),) + rots.SIZE[b], f"{key}:shape")
    m.expect(y.dtype == dt, f"{key}:dtype", f"{y.dtype}")
    ang = ref.q_to_ax(q_in)[:, 3]
    err = ref.qangle(rots.to_q(b, np.nan_to_num(y.double().numpy(), nan=7.0, posinf=np.inf)), q_in)
    err = np.where(torch.isnan(y).reshape(len(x), -1).any(1).numpy(), np.inf, err)
    m.seen(x, tag=f"{key}/{dt}")
    if m.small(err, tol(name, dt, ang, extra), f"{key}:rotation", f"{dt}", rows=xt):
        if not (b == "ro" and extra in ("(-q)", "(rounded)")):
            check_range(m, b, y, dt, key)
    m.sample(conversion=key, input=xt[:1], output=y[:1])
    return y


@PROP.scenario("pairwise", rounds=2)
def pairwise(m):
    q = rots.workload(m.rng, m.n(400, 1200))
    cu = rots.cu_workload(m.rng, m.n(400, 1200))
    q_cu = ref.cu_to_q(cu)
    for name in rots.PAIRS:
        fn = getattr(O, name)
        a = name[:2]
        for dt in (torch.float64, torch.float32):
            if a == "cu":
                one(m, name, fn, cu, q_cu, dt)
            else:
                qq = rots.std(q)
                one(m, name, fn, rots.from_q(a, qq), qq, dt)


@PROP.scenario("either-sign", rounds=4)
def either_sign(m):
    """q and -q describe the same rotation for every conversion that takes quaternions."""
    q = -rots.std(rots.workload(m.rng, m.n(300, 900)))
    for name in [p for p in rots.PAIRS if p.startswith("qu2")]:
        for dt in (torch.float64, torch.float32):
            one(m, name, getattr(O, name), q, q, dt, extra="(-q)")


@PROP.scenario("rounded-units", rounds=3)
def rounded_units(m):
    """Unit vectors, sines and cosines that rounding has left a few ulp outside their range."""
    g = m.rng
    for dt in (torch.float64, torch.float32):
        e = float(torch.finfo(dt).eps)
        rows = []
        for k in (1, 2, 3):
            for s in (1.0, -1.0):
                for w in ((0, 0, 0), (0, 0, e), (1e-3 * e ** .5, 0, 0), (0, e ** .5 / 2, 0)):
                    v = np.array([s * (1 + k * e), *w])
                    rows += [v, v[[1, 0, 2, 3]], v[[1, 2, 0, 3]], v[[1, 2, 3, 0]]]
                    # a product with the own inverse leaves exact zeros below one
                    rows.append(np.array([s * (1 - k * e / 2), *w]))
        u = rots.std(rots.workload(g, m.n(100, 400)))
        rows = np.concatenate([np.array(rows), u * (1 + e * g.integers(-3, 4, (len(u), 1)))])
        for name in [p for p in rots.PAIRS if p.startswith("qu2")]:
            one(m, name, getattr(O, name), rows, rows / np.linalg.norm(rows, axis=-1, keepdims=True), dt,
                extra="(rounded)")
        q = rots.std(rots.workload(g, m.n(150, 500)))
        om = ref.q_to_R(q) * (1 + e * g.integers(-2, 3, (len(q), 3, 3)))
        for name in [p for p in rots.PAIRS if p.startswith("om2")]:
            one(m, name, getattr(O, name), om, q, dt, extra="(rounded)")
        ax = ref.q_to_ax(q)
        ax[:, :3] *= 1 + e * g.integers(-3, 4, (len(q), 1))
        for name in [p for p in rots.PAIRS if p.startswith("ax2")]:
            one(m, name, getattr(O, name), ax, q, dt, extra="(rounded)")


@PROP.scenario("euler-branches", rounds=4)
def euler_branches(m):
    """Degenerate Euler angles (Phi = 0, pi), angles outside one turn, negative angles."""
    r = m.rng
    n = m.n(300, 900)
    P = r.choice([0.0, PI / 2, PI, 1e-3, PI - 1e-3, 0.7], n)
    bu = np.stack([r.choice([0, PI / 2, PI, 3 * PI / 2, 2 * PI, 1.1, -0.4, 7.0], n), P,
                   r.choice([0, PI / 2, PI, 3 * PI / 2, 2 * PI, 2.3, -1.3, 9.0], n)], -1)
    q = ref.R_to_q(ref.bu_to_R(bu))
    for name in [p for p in rots.PAIRS if p.startswith("bu2")]:
        for dt in (torch.float64, torch.float32):
            one(m, name, getattr(O, name), bu, q, dt, extra="(wide)")
    # there and back again through quaternions
    for dt in (torch.float64, torch.float32):
        b2 = m.call(O.qu2bu, m.call(O.bu2qu, torch.tensor(bu, dtype=dt)))
        err = ref.qangle(rots.to_q("bu", ref.npf(b2)), q)
        m.small(err, 1e-6 if dt == torch.float64 else 2e-3, "bu2qu2bu:rotation", rows=torch.tensor(bu))
        m.seen(bu, tag=f"rt{dt}")


@PROP.scenario("homochoric-variants", rounds=6)
def ho_variants(m):
    q = rots.std(rots.workload(m.rng, m.n(400, 1200)))
    ho = ref.q_to_ho(q)
    for dt in (torch.float64, torch.float32):
        one(m, "ho2ax", O.ho2ax, ho, q, dt)
        one(m, "ho2ax_newton", O.ho2ax_newton, ho, q, dt)
        for c in ("kikuchipy", "EMsoft"):
            one(m, "ho2ax_reference", lambda h, c=c: O.ho2ax_reference(h, c), ho, q, dt, extra=f"({c})")
        one(m, "ho2ax", lambda h: O.ho2ax(h, False), ho, q, dt, extra="(precise)")


@PROP.scenario("six-d", rounds=12)
def six_d(m):
    """Any two independent 3-vectors give the Gram-Schmidt rotation."""
    n = m.n(500, 2000)
    zh = m.rng.normal(size=(n, 6)) * 10 ** m.rng.uniform(-3, 3, (n, 1))
    q = ref.zh_to_q(zh)
    for dt in (torch.float64,):
        one(m, "zh2om", O.zh2om, zh, q, dt)
        one(m, "zh2qu", O.zh2qu, zh, q, dt)


@PROP.scenario("clifford", rounds=12)
def clifford(m):
    q = rots.std(ref.rand_q(m.rng, m.n(500, 2000)))
    for dt, t in ((torch.float64, 1e-10), (torch.float32, 1e-4)):
        qt = torch.tensor(q, dtype=dt)
        cl = m.call(O.qu2cl, qt)
        m.shape(cl, (len(q), 6), "qu2cl:shape")
        w, x, y, z = qt.double().numpy().T
        want = np.arctan(np.stack([x / w, z / y, y / w, x / z, z / w, y / x], -1))
        m.close(cl, torch.tensor(want), t, "qu2cl:value")
        m.seen(q, tag=f"{dt}")


@PROP.scenario("chains", rounds=6)
def chains(m):
    """Random walks over the conversion graph end at the rotation they started from."""
    adj = {}
    for p in rots.PAIRS:
        adj.setdefault(p[:2], []).append(p[3:5])
    q = rots.std(ref.rand_q(m.rng, 64))
    for _ in range(m.n(60, 200)):
        rep, x, path = "qu", torch.tensor(q), ["qu"]
        for _ in range(int(m.rng.integers(2, 8))):
            nxt = adj[rep][int(m.rng.integers(len(adj[rep])))]
            x = m.call(getattr(O, f"{rep}2{nxt}"), x)
            rep = nxt
            path.append(nxt)
        err = ref.qangle(rots.to_q(rep, np.nan_to_num(x.numpy(), nan=7.0, posinf=np.inf)), q)
        m.small(err, 2e-6, "chain:rotation", "->".join(path), rows=torch.tensor(q))
        m.seen("->".join(path))


@PROP.scenario("batch-shapes", rounds=3)
def batch_shapes(m):
    """(..., n) inputs of any batch shape give the same rows as the flat batch."""
    for shape in [(1,), (0,), (5,), (2, 3), (1, 1), (3, 1, 4), (2, 2, 2, 2)]:
        k = int(np.prod(shape))
        q = rots.std(ref.rand_q(m.rng, k)) if k else np.zeros((0, 4))
        for name in rots.PAIRS:
            a, b = name[:2], name[3:5]
            x = (rots.from_q(a, q) if a != "cu" else m.rng.uniform(-1, 1, (k, 3))) if k else np.zeros((0,) + rots.SIZE[a])
            xt = torch.tensor(x)
            flat = m.call(getattr(O, name), xt) if k else torch.zeros((0,) + rots.SIZE[b], dtype=torch.float64)
            y = m.call(getattr(O, name), xt.reshape(shape + rots.SIZE[a]))
            m.close(y, flat.reshape(shape + rots.SIZE[b]), 1e-12, f"{name}:batch-shape", str(shape))
            m.seen(f"{name}{shape}")
