"""C12 master pattern lookup."""
import numpy as np
import torch

from ebsdtorch.ebsd.master_pattern import MasterPattern
from vlib import geom, laue, ref
from vlib.core import Prop

PROP = Prop(
    "C12",
    "a case is one looked-up direction or one step of a history of lookups, binnings, normalisations and contrast enhancements; "
    "directions mix uniform ones, pixel nodes, poles, the equator from both sides and the seam of the stored image",
    ["bilinear and nearest lookups with replicated borders and pixel-centred grids are judged (the settings the library uses)",
     "directions within rounding of a nearest-neighbour tie or of the equator plane may take either side",
     "min-max normalisation keeps the documented 1e-4 guard in its denominator"],
)


def dirs(m, n, H, W):
    v = m.rng.normal(size=(n, 3))
    k = n // 8
    v[:k] = geom.node_dirs(H, W)[m.rng.integers(0, H * W, k)] * np.c_[np.ones((k, 2)), m.rng.choice([-1, 1], k)]
    v[k : 2 * k, 2] = m.rng.choice([-1, 1], k) * 10 ** m.rng.uniform(-5, -1, k)
    v[2 * k : 2 * k + 6] = np.concatenate([np.eye(3), -np.eye(3)])
    e = v[2 * k + 6 : 3 * k]
    e[:, 0], e[:, 2] = 1, m.rng.choice([-1, 1], len(e)) * 10 ** m.rng.uniform(-4, 0, len(e))  # seam of the stored image
    e[:, :2] *= m.rng.choice([-1, 1], (len(e), 1))
    return v / np.linalg.norm(v, axis=1, keepdims=True)


def build(m, dt=torch.float64, square=True):
    H = int(m.rng.integers(2, 40))
    W = H if square else int(m.rng.integers(2, 40))
    N, S = m.rng.random((2, H, W)) * 10 ** m.rng.uniform(0, 3) + m.rng.uniform(-5, 5)
    if dt == torch.float32:
        N, S = N.astype(np.float32), S.astype(np.float32)
    form = m.rng.integers(0, 2)
    t = (torch.tensor(N, dtype=dt), torch.tensor(S, dtype=dt))
    mp = m.call(MasterPattern, t if form else torch.cat(t, 1), laue_group=int(m.rng.integers(1, 12)))
    return mp, N.astype(float), S.astype(float)


@PROP.scenario("lookup", rounds=15)
def lookup(m):
    for dt, tol in ((torch.float64, 1e-6), (torch.float32, 2e-5)):
        mp, N, S = build(m, dt, bool(m.rng.random() < 0.7))
        H, W = N.shape
        sc = np.ptp(np.stack([N, S])) * max(H, W)
        v = dirs(m, m.n(2000, 20000), H, W)
        vt = torch.tensor(v, dtype=dt)
        V = ref.npf(vt)
        out = m.call(mp.interpolate, vt)
        m.shape(out, (len(v),), "lookup:shape")
        want = geom.lookup(N, S, V)
        # sqrt(1 - |z|) carries sqrt(eps) near the poles
        near = np.where(1 - abs(V[:, 2]) < 1e-2, 30, 1)
        m.small(abs(ref.npf(out) - want) / sc / near, tol, "lookup:bilinear", f"{H}x{W}", rows=vt)
        lo, hi = min(N.min(), S.min()), max(N.max(), S.max())
        m.expect(bool(((ref.npf(out) >= lo - 1e-5 * abs(hi - lo)) & (ref.npf(out) <= hi + 1e-5 * abs(hi - lo))).all()), "lookup:in-range")
        for i, I in ((0, N), (1, S)):
            d = geom.node_dirs(H, W) * [1, 1, 1 - 2 * i]
            d[:, 2] += np.where(d[:, 2] == 0, 1e-12 * (1 - 2 * i), 0)
            o = ref.npf(m.call(mp.interpolate, torch.tensor(d, dtype=dt)))
            m.small(abs(o - I.reshape(-1)) / sc, 30 * tol, "lookup:exact-at-nodes", f"hemisphere {i} of {H}x{W}")
            o = ref.npf(m.call(mp.interpolate, torch.tensor(d, dtype=dt), mode="nearest"))
            m.small(abs(o - I.reshape(-1)), 1e-9, "lookup:nearest-at-nodes")
        # direction length does not matter; normalised input may skip the normalisation
        k = torch.tensor(10 ** m.rng.uniform(-3, 3, (len(v), 1)), dtype=dt)
        m.small(abs(ref.npf(m.call(mp.interpolate, vt * k)) - want) / sc / near, 3 * tol, "lookup:any-length", rows=vt)
        m.small(abs(ref.npf(m.call(mp.interpolate, vt, normalize_coords=False)) - want) / sc / near, 3 * tol, "lookup:unit-input", rows=vt)
        # batching
        p = m.rng.permutation(len(v))
        m.close(m.call(mp.interpolate, vt[p]), out[p], 1e-5 * sc * tol * 1e5, "lookup:order")
        for shp in [(len(v) // 4, 4), (1, len(v)), (2, len(v) // 8, 4)]:
            o = m.call(mp.interpolate, vt.reshape(shp + (3,)))
            m.shape(o, shp, "lookup:batched-shape")
            m.close(o.reshape(-1), out, tol * sc, "lookup:batched")
            tr = m.call(mp.interpolate, vt.reshape(shp + (3,)).transpose(0, 1))
            m.close(tr.transpose(0, 1).reshape(-1), out, tol * sc, "lookup:transposed")
        for n in (1, 2, 3, 7, 13, 97, 101):
            m.close(m.call(mp.interpolate, vt[:n]), out[:n], tol * sc, "lookup:any-count")
        m.close(m.call(mp.interpolate, vt[0]), out[0], tol * sc, "lookup:single")
        m.seen(v, tag=str(dt))
    m.sample(size=[H, W], direction=vt[:2], value=out[:2], expected=want[:2])


def binned(I, b):
    H, W = I.shape
    return I.reshape(H // b, b, W // b, b).mean((1, 3))


@PROP.scenario("histories", rounds=15)
def histories(m):
    b_all = [2, 2, 3, 3, 4, 4, 6, 12]
    H = 12 * int(m.rng.integers(1, 4))
    N, S = m.rng.random((2, H, H)) * 7 + 2
    user = torch.tensor(np.concatenate([N, S], 1))
    keep = user.clone()
    mp = MasterPattern(user, laue_group=11)
    m.calls["MasterPattern"] = m.calls.get("MasterPattern", [0, 0])
    v = dirs(m, 400, H, H)
    dt = torch.float64
    trace = []
    for step in range(m.n(14, 40)):
        act = m.rng.choice(["lookup", "lookup", "lookup", "bin", "minmax", "zeromean", "standard", "clahe", "assign", "cast"])
        b = int(m.rng.choice([1, *b_all]))
        if act == "clahe" and (not trace or trace[-1] != "minmax"):
            act = "minmax"
        trace.append(str(act))
        cat = np.concatenate([N, S], 1)
        if act == "bin":
            m.call(mp.bin, max(b, 2))
        elif act in ("minmax", "zeromean", "standard"):
            m.call(mp.normalize, act)
            if act == "minmax":
                cat = (cat - cat.min()) / (np.ptp(cat) + 1e-4)
            else:
                cat = cat - cat.mean()
                if act == "standard":
                    cat = cat / cat.std(ddof=1)
        elif act == "clahe":
            before = cat
            m.call(mp.apply_clahe, 40.0, 64, (3, 4))
            got = ref.npf(mp.master_pattern)
            m.need(got.shape == before.shape, "history:clahe-shape")
            m.expect(bool(np.isfinite(got).all()) and got.min() >= -1e-5 and got.max() <= 1 + 1e-5, "history:clahe-range")
            m.expect(abs(got - before).max() > 1e-6, "history:clahe-acts")
            cat = got
        elif act == "assign":
            cat = m.rng.random(cat.shape) * 3
            mp.master_pattern = torch.tensor(cat, dtype=dt)
        elif act == "cast":
            dt = torch.float32 if dt == torch.float64 else torch.float64
            mp = mp.to(dt)
        if act != "lookup":
            got = ref.npf(mp.master_pattern)
            m.need(got.shape == cat.shape, "history:pattern-shape")
            m.small(abs(got - cat), 1e-5 * (1 + abs(cat).max()), "history:stored-pattern", f"after {trace}")
            N, S = got[:, :H], got[:, H:]
        else:
            b = int(m.rng.choice([b, b, b, H, 3 * H]))  # down to one pixel per hemisphere
            n = int(m.rng.choice([len(v), len(v), 1, 2, 13, m.rng.integers(0, len(v))]))
            sub = v[m.rng.permutation(len(v))[:n]]
            free = bool(m.rng.random() < 0.5)
            x = torch.tensor(sub * (10 ** m.rng.uniform(-2, 2, (n, 1)) if free else 1), dtype=dt)
            shp = (n,) if n % 2 or m.rng.random() < 0.5 else (2, n // 2)
            out = m.call(mp.interpolate, x.reshape(shp + (3,)), normalize_coords=free or bool(m.rng.random() < 0.5), virtual_binning=b)
            m.shape(out, shp, "history:shape")
            out = out.reshape(-1)
            b = min(b, H)
            want = geom.lookup(binned(N, b), binned(S, b), sub)
            sc = np.ptp(np.stack([N, S])) * H / b
            tol = (1e-6 if dt == torch.float64 else 2e-5) * np.where(1 - abs(sub[:, 2]) < 1e-2, 30, 1)
            m.small(abs(ref.npf(out) - want) / sc, tol, "history:lookup-reflects-state", f"binning {b} after {trace}")
        m.seen((step, tuple(trace[-4:]), H, b))
    m.expect(torch.equal(user, keep), "history:caller-tensor-untouched")
    m.sample(size=H, trace=" ".join(trace))


@PROP.scenario("odd-binning", rounds=2)
def odd(m):
    """hemispheres of odd size: a smooth pattern is still found where it is."""
    for H in (61, 71, 81, 101):
        d = geom.node_dirs(H, H)
        c = m.rng.normal(size=(2, 3))
        f = lambda v, i: v @ c[i]
        N, S = f(d, 0).reshape(H, H), f(d * [1, 1, -1], 1).reshape(H, H)
        mp = m.call(MasterPattern, (torch.tensor(N), torch.tensor(S)), laue_group=2)
        v = m.rng.normal(size=(3000, 3))
        v /= np.linalg.norm(v, axis=1, keepdims=True)
        want = np.where(v[:, 2] < 0, f(v, 1), f(v, 0))
        for b in (1, 2, 3, 4, 5, 7):
            out = ref.npf(m.call(mp.interpolate, torch.tensor(v), virtual_binning=b))
            e = out - want
            sc = np.linalg.norm(c, axis=1).max()
            m.small(abs(e) / sc, 3.0 * b / H + 3 / H, "odd-binning:close", f"{H} binned by {b}")
            inner = abs(v[:, 2]) > 0.15
            for s in (1, -1):
                sel = inner & (np.sign(v[:, 2]) == s)
                # a shifted image shows as a consistent error along one axis
                p = geom.rosca(v[sel])
                ok = (abs(p) < 0.97).all(1) & (abs(abs(p[:, 0]) - abs(p[:, 1])) > 0.02)
                val = lambda q: f(geom.unrosca(q) * [1, 1, s], 0 if s > 0 else 1)
                gx, gy = ((val(p + h) - val(p - h)) / 2e-3 for h in (np.array([1e-3, 0]), np.array([0, 1e-3])))
                A = np.c_[gx, gy, v[sel], np.ones(sel.sum())][ok]
                shift = np.linalg.lstsq(A, e[sel][ok], rcond=None)[0][:2] * H / 2
                m.small(abs(shift), 0.1 * b + 0.3, "odd-binning:no-shift", f"{H} binned by {b}: shift in pixels")
            m.seen((H, b))


@PROP.scenario("construction", thorough_rounds=1)
def construction(m):
    t = torch.rand(4, 8)
    for k in range(1, 12):
        m.expect(m.call(MasterPattern, t, laue_group=k).laue_group == k, "construct:laue")
        m.seen(k)
    for _, pg, k in laue.PG:
        m.expect(m.call(MasterPattern, t, point_group=pg).laue_group == k, "construct:point-group", pg)
    for sg in range(1, 231):
        m.expect(m.call(MasterPattern, t, space_group=sg).laue_group == laue.sg_laue(sg), "construct:space-group", str(sg))
    m.rejects(MasterPattern, t, key="construct:needs-symmetry")
    m.rejects(MasterPattern, t, laue_group=1, space_group=2, key="construct:one-symmetry")
    m.rejects(MasterPattern, t, laue_group=1, point_group="m-3m", key="construct:one-symmetry")
    m.rejects(MasterPattern, t[None], laue_group=1, key="construct:two-dimensional")
    m.rejects(MasterPattern, (t[None], t[None]), laue_group=1, key="construct:two-dimensional")
    m.rejects(m.call(MasterPattern, t, laue_group=1).normalize, "nonsense", key="construct:normalisation-name")
