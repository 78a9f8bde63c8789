"""C02 quaternion algebra."""
import math

import numpy as np
import torch

import ebsdtorch.s2_and_so3.quaternions as Q
from vlib import ref, rots
from vlib.core import Prop, _names as nm

PROP = Prop(
    "C02",
    "a case is one row of one quaternion operation; non-trivial = distinct (operation, dtype, row); rows mix uniform, "
    "identity, half-turn, near-identity, negative-real-part, equal and antipodal pairs, equal and opposite directions",
    ["unit quaternions up to rounding; slerp of exactly antipodal quaternions is undefined and not judged"],
)
DTS = [(torch.float64, 1e-12), (torch.float32, 3e-6)]
PI = math.pi


def pairs(m, n):
    a = rots.workload(m.rng, n)
    b = rots.workload(m.rng, n)
    k = min(len(a), len(b))
    a, b = a[:k], b[:k]
    a = a * np.where(m.rng.random((k, 1)) < 0.5, -1, 1)
    b = b * np.where(m.rng.random((k, 1)) < 0.5, -1, 1)
    b[: k // 10] = a[: k // 10]
    b[k // 10 : k // 5] = -a[k // 10 : k // 5]
    b[k // 5 : k // 4] = ref.qconj(a[k // 5 : k // 4])
    return a, b


@PROP.scenario("products", rounds=4, thorough_rounds=40)
def products(m):
    a, b = pairs(m, m.n(500, 3000))
    c = rots.workload(m.rng, 200)
    c = c[m.rng.integers(0, len(c), len(a))]
    for dt, t in DTS:
        at, bt, ct = (torch.tensor(x, dtype=dt) for x in (a, b, c))
        A, B, C = (ref.npf(x) for x in (at, bt, ct))
        ab = ref.qmul(A, B)
        m.close(m.call(Q.qu_prod_raw, at, bt), torch.tensor(ab), t, "prod_raw", rows={"a": at, "b": bt})
        p = m.call(Q.qu_prod, at, bt)
        m.expect(p.dtype == dt, "prod:dtype")
        m.small(np.maximum(0, -ref.npf(p)[:, 0]), 0, "prod:nonneg", rows=at)
        m.small(ref.qangle(ref.npf(p), ab), 20 * t, "prod:rotation", rows={"a": at, "b": bt})
        m.close(p.abs(), torch.tensor(abs(ab)), t, "prod:components")
        m.close(m.call(Q.qu_prod_pos_real, at, bt), torch.tensor(abs(ab[:, 0])), t, "prod_pos_real")
        m.close(m.call(Q.qu_prod_axis, at, bt), torch.tensor(ab[:, 1:]), t, "prod_axis")
        abc = ref.qmul(ref.qmul(A, B), C)
        m.close(m.call(Q.qu_triple_prod_pos_real, at, bt, ct), torch.tensor(abs(abc[:, 0])), 3 * t, "triple_prod")
        # associativity and inverse observed on the library's own results
        l = m.call(Q.qu_prod_raw, m.call(Q.qu_prod_raw, at, bt), ct)
        r = m.call(Q.qu_prod_raw, at, m.call(Q.qu_prod_raw, bt, ct))
        m.close(l, r, 4 * t, "associative")
        inv = m.call(Q.qu_conj, at)
        m.close(inv, torch.tensor(ref.qconj(A)), 0, "conj")
        e = m.call(Q.qu_prod_raw, at, inv)
        m.close(e, torch.tensor([[1.0, 0, 0, 0]]).expand(len(a), 4).double(), 4 * t, "conj:inverse")
        s = m.call(Q.qu_std, at)
        m.small(np.maximum(0, -ref.npf(s)[:, 0]), 0, "std:nonneg")
        m.close(s, torch.tensor(A * np.where(A[:, :1] < 0, -1.0, 1.0)), 0, "std:value")
        scale = torch.tensor(10 ** m.rng.uniform(-3, 3, (len(a), 1)), dtype=dt)
        m.close(m.call(Q.qu_norm, at * scale), torch.tensor(ref.qnorm(A)), 4 * t, "norm", rows=at)
        ns = m.call(Q.qu_norm_std, at * scale)
        m.close(ns, torch.tensor(rots.std(ref.qnorm(A))), 4 * t, "norm_std", rows=at) if False else m.small(
            ref.qangle(ref.npf(ns), A), 20 * t, "norm_std:rotation", rows=at)
        m.small(np.maximum(0, -ref.npf(ns)[:, 0]), 0, "norm_std:nonneg")
        m.small(abs(np.linalg.norm(ref.npf(ns), axis=1) - 1), 4 * t, "norm_std:unit")
        m.seen(np.hstack([a, b]), tag=str(dt))
        m.sample(a=at[:1], b=bt[:1], product=p[:1])


@PROP.scenario("apply", rounds=4, thorough_rounds=40)
def apply(m):
    a, _ = pairs(m, m.n(500, 3000))
    x = m.rng.normal(size=(len(a), 3)) * 10 ** m.rng.uniform(-12, 9, (len(a), 1))
    x[:20] = np.eye(3)[m.rng.integers(0, 3, 20)]
    x[20:25] = 0
    for dt, t in DTS:
        at, xt = torch.tensor(a, dtype=dt), torch.tensor(x, dtype=dt)
        got = m.call(Q.qu_apply, at, xt)
        X = ref.npf(xt)
        want = np.einsum("nij,nj->ni", ref.q_to_R(ref.npf(at)), X)
        sc = np.maximum(np.linalg.norm(X, axis=1, keepdims=True), 1e-30)  # a short vector keeps its digits as well
        m.small(abs(ref.npf(got) - want) / sc, 8 * t, "apply:matrix", rows={"q": at, "x": xt})
        m.small(abs(np.linalg.norm(ref.npf(got), axis=1) - np.linalg.norm(X, axis=1)) / sc[:, 0], 8 * t, "apply:length")
        back = m.call(Q.qu_apply, m.call(Q.qu_conj, at), got)
        m.small(abs(ref.npf(back) - X) / sc, 16 * t, "apply:inverse")
        b = torch.tensor(rots.workload(m.rng, 50), dtype=dt)
        b = b[torch.tensor(m.rng.integers(0, len(b), len(a)))]
        two = m.call(Q.qu_apply, m.call(Q.qu_prod, at, b), xt)
        seq = m.call(Q.qu_apply, at, m.call(Q.qu_apply, b, xt))
        m.small((two - seq).abs().double().numpy() / sc, 24 * t, "apply:composition")
        m.seen(np.hstack([a, x]), tag=str(dt))


@PROP.scenario("angle", rounds=4, thorough_rounds=40)
def angle(m):
    a = rots.std(pairs(m, m.n(400, 2000))[0])
    for dt, t in DTS:
        at = torch.tensor(a, dtype=dt)
        # rounding may leave the real part a few ulp above one
        at[:50] = torch.tensor([1.0, 0, 0, 0], dtype=dt)
        at[:50, 0] += torch.finfo(dt).eps * torch.arange(50).to(dt) / 10
        got = m.call(Q.qu_angle, at)
        A = ref.npf(at)
        want = 2 * np.arctan2(np.linalg.norm(A[:, 1:], axis=1), A[:, 0])
        m.small(abs(ref.npf(got) - want), 1e-7 if dt == torch.float64 else 2e-3, "angle", rows=at)
        mid = (want > 0.1) & (want < PI - 0.1)
        m.small(abs(ref.npf(got) - want)[mid], 1e-11 if dt == torch.float64 else 2e-5, "angle:generic")
        m.seen(a, tag=str(dt))


@PROP.scenario("slerp", rounds=4, thorough_rounds=40)
def slerp(m):
    a, b = pairs(m, m.n(300, 1500))
    keep = (a * b).sum(1) > -0.995
    a, b = a[keep], b[keep]
    th = 2 * np.arctan2(np.linalg.norm(a - b, axis=1), np.linalg.norm(a + b, axis=1))
    for dt, t in DTS:
        at, bt = torch.tensor(a, dtype=dt), torch.tensor(b, dtype=dt)
        for f in [0.0, 0.25, 0.5, float(m.rng.random()), 1.0]:
            got = m.call(Q.qu_slerp, at, bt, f)
            m.shape(got, a.shape, "slerp:shape")
            G = ref.npf(got)
            m.small(abs(np.linalg.norm(G, axis=1) - 1), 400 * t, "slerp:unit", rows={"a": at, "b": bt})
            s = np.where(th > 1e-9, np.sin(th), 1)
            w1 = np.where(th > 1e-9, np.sin((1 - f) * th) / s, 1 - f)
            w2 = np.where(th > 1e-9, np.sin(f * th) / s, f)
            m.small(abs(G - (a * w1[:, None] + b * w2[:, None])), 400 * t, f"slerp:path", f"t={f}", rows={"a": at, "b": bt})
            m.seen(np.hstack([a, b]), tag=f"{dt}{f}")
        one = m.call(Q.qu_slerp, at[0], bt[0], 0.3)
        m.close(one, m.call(Q.qu_slerp, at, bt, 0.3)[0], 4 * t, "slerp:single")
        hw = m.call(Q.qu_slerp, at[:60].reshape(6, 10, 4), bt[:60].reshape(6, 10, 4), 0.3)
        m.close(hw, m.call(Q.qu_slerp, at[:60], bt[:60], 0.3).reshape(6, 10, 4), 4 * t, "slerp:batch")
        # inputs need not be normalised
        m.close(m.call(Q.qu_slerp, at * 3, bt * 0.2, 0.4), m.call(Q.qu_slerp, at, bt, 0.4), 400 * t, "slerp:normalises")


@PROP.scenario("direction-pairs", rounds=4, thorough_rounds=40)
def dirs(m):
    n = m.n(400, 2000)
    s = m.rng.normal(size=(n, 3))
    f = m.rng.normal(size=(n, 3))
    pool = np.array(ref.axis_pool())
    s[: len(pool)] = pool
    f[: len(pool)] = -pool
    s[40:60] = pool[m.rng.integers(0, len(pool), 20)]
    f[40:60] = s[40:60]
    f[60:70] = -s[60:70]
    f[70:90] = s[70:90] + 1e-4 * m.rng.normal(size=(20, 3))
    f[90:110] = -s[90:110] + 1e-3 * m.rng.normal(size=(20, 3))
    s /= np.linalg.norm(s, axis=1, keepdims=True)
    f /= np.linalg.norm(f, axis=1, keepdims=True)
    for dt, t in ((torch.float64, 1e-8), (torch.float32, 3e-3)):
        st, ft = torch.tensor(s, dtype=dt), torch.tensor(f, dtype=dt)
        q = m.call(Q.quaternion_rotate_sets_sphere, st, ft)
        m.shape(q, (n, 4), "dirs:shape")
        m.small(abs(np.linalg.norm(ref.npf(q), axis=1) - 1), 1e-5 if dt == torch.float32 else 1e-10, "dirs:unit", rows=st)
        got = np.einsum("nij,nj->ni", ref.q_to_R(np.nan_to_num(ref.npf(q), nan=5.0)), ref.npf(st))
        d = np.linalg.norm(got - ref.npf(ft), axis=1)
        # the axis of nearly opposite points is known to the rounding of the inputs over their distance from opposite
        gap = np.linalg.norm(ref.npf(st) + ref.npf(ft), axis=1)
        t = t + np.where(gap > 1e-9, 20 * torch.finfo(dt).eps / np.maximum(gap, 1e-9), 0)
        m.small(d, t, "dirs:maps", rows={"start": st, "finish": ft})
        # minimal rotation: the angle equals the angle between the directions
        ang = np.arctan2(np.linalg.norm(np.cross(s, f), axis=1), (s * f).sum(1))
        qa = 2 * np.arctan2(np.linalg.norm(ref.npf(q)[:, 1:], axis=1), abs(ref.npf(q)[:, 0]))
        m.small(abs(qa - ang), t + (1e-6 if dt == torch.float64 else 3e-3), "dirs:minimal", rows={"start": st, "finish": ft})
        m.seen(np.hstack([s, f]), tag=str(dt))


@PROP.scenario("broadcast", rounds=4, thorough_rounds=40)
def broadcast(m):
    a = torch.tensor(ref.rand_q(m.rng, 12)).reshape(3, 4, 4)
    b = torch.tensor(ref.rand_q(m.rng, 4))
    x = torch.tensor(m.rng.normal(size=(4, 3)))
    bb = b.expand(3, 4, 4).contiguous()
    for fn in (Q.qu_prod_raw, Q.qu_prod, Q.qu_prod_pos_real, Q.qu_prod_axis):
        want = m.call(fn, a.reshape(12, 4), bb.reshape(12, 4))
        for l, r in ((a, b), (a, b[None]), (a, bb)):
            got = m.call(fn, l, r)
            m.close(got.reshape(want.shape) if got.numel() == want.numel() else got, want, 1e-14, f"broadcast:{nm(fn)}")
        outer = m.call(fn, a[:, :, None], b)
        want = m.call(fn, a.reshape(12, 1, 4).expand(12, 4, 4).reshape(48, 4), b.expand(12, 4, 4).reshape(48, 4))
        m.close(outer.reshape(want.shape), want, 1e-14, f"broadcast:{nm(fn)}:outer")
        m.seen(nm(fn))
    got = m.call(Q.qu_apply, a, x)
    want = torch.stack([m.call(Q.qu_apply, a[i], x) for i in range(3)])
    m.close(got, want, 1e-14, "broadcast:apply")
    got = m.call(Q.qu_apply, a[:, :, None], x)
    m.shape(got, (3, 4, 4, 3), "broadcast:apply-outer")
    for fn in (Q.qu_std, Q.qu_norm, Q.qu_conj, Q.qu_norm_std, Q.qu_angle):
        got = m.call(fn, a)
        m.close(got.reshape(12, *got.shape[2:]), m.call(fn, a.reshape(12, 4)), 1e-15, f"broadcast:{nm(fn)}")
        m.close(m.call(fn, a[0, 0]), got[0, 0], 1e-15, f"broadcast:{nm(fn)}:single")
        m.seen(nm(fn))
    t = torch.tensor(m.rng.normal(size=(3, 4, 3)))
    t = t / t.norm(dim=-1, keepdim=True)
    got = m.call(Q.quaternion_rotate_sets_sphere, t, t.flip(0))
    m.close(got.reshape(12, 4), m.call(Q.quaternion_rotate_sets_sphere, t.reshape(12, 3), t.flip(0).reshape(12, 3)), 1e-15, "broadcast:dirs")
