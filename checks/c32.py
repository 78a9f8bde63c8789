"""C32 image similarity."""
import numpy as np
import torch

from ebsdtorch.utils.mutual_information import batch_binned_nmi, binned_nmi, cmif, mutual_information
from vlib import ref
from vlib.core import Prop

PROP = Prop(
    "C32",
    "a case is one image pair (or one pair and shift): independent, dependent, identical, constant, few-valued and saturated images for every bin count, unit, normalisation, "
    "mask, batch broadcast and implementation (scatter, histogram, FFT, chunked FFT)",
    ["grey levels are placed at bin centres or at the top edge, so that binning is unambiguous; continuous values are compared within what single pixels on a bin edge can change",
     "normalised values are undefined where an entropy vanishes: only finiteness is required there"],
)
T32 = torch.float32
MODES = ["none", "Kvalseth Sum", "Kvalseth Min", "Kvalseth Max", "Yao", "Strehl-Ghosh", "Logarithmic"]


def H(p):
    p = np.asarray(p, float).ravel()
    p = p[p > 0]
    return float(-(p * np.log(p)).sum())


def normed(hx, hy, hj, mode):
    """value, or None where the normalisation divides by (almost) nothing."""
    mi = max(0.0, hx + hy - hj)
    if mode == "none":
        return mi
    if min(hx, hy) < 1e-5:
        return None
    d = {"Kvalseth Sum": (hx + hy) / 2, "Kvalseth Min": min(hx, hy), "Kvalseth Max": max(hx, hy), "Yao": hj, "Strehl-Ghosh": np.sqrt(hx * hy),
         "Logarithmic": hx if abs(hx - hy) < 1e-6 else (hx - hy) / np.log(hx / hy)}[mode]
    return mi / d


def joint(a, b, na, nb):
    J = np.zeros((na, nb))
    np.add.at(J, (a.ravel(), b.ravel()), 1)
    return J


def mi(a, b, na, nb, mode="none", drop=False, bits=False):
    J = joint(a, b, na, nb)
    if drop:
        J = J[1:, 1:]
    if J.sum() == 0:
        return None
    J = J / J.sum()
    k = np.log(2) if bits else 1.0
    return normed(H(J.sum(1)) / k, H(J.sum(0)) / k, H(J) / k, mode)


def levels(m, n, na, nb):
    """grey level pairs of different dependence."""
    kind = m.rng.integers(0, 6)
    x = m.rng.integers(0, na, n)
    if kind == 0:
        y = m.rng.integers(0, nb, n)
    elif kind == 1:
        y = (x * nb) // na
    elif kind == 2:
        y = np.where(m.rng.random(n) < 0.8, (x * nb) // na, m.rng.integers(0, nb, n))
    elif kind == 3:
        x[:] = m.rng.integers(0, na)
        y = m.rng.integers(0, nb, n)
    elif kind == 4:
        x, y = np.where(m.rng.random(n) < 0.5, na - 1, 0), np.where(m.rng.random(n) < 0.3, nb - 1, 0)
    else:
        y = m.rng.permutation(nb)[(x * nb) // na]
    return x, y


def grey(m, x, n):
    """pixel values of grey levels x: bin centres, sometimes the upper edge 1 for the highest level."""
    v = (x + 0.5) / n
    if m.rng.random() < 0.4:
        v = np.where(x == n - 1, 1.0, v)
    return torch.tensor(v, dtype=T32)


@PROP.scenario("histogram", rounds=3, thorough_rounds=20)
def histogram(m):
    for _ in range(25):
        na, nb = (int(x) for x in m.rng.integers(2, 70, 2))
        shape = [(int(m.rng.integers(1, 400)),), tuple(int(x) for x in m.rng.integers(1, 20, 2))][m.rng.integers(0, 2)]
        n = int(np.prod(shape))
        x, y = levels(m, n, na, nb)
        u, v = grey(m, x, na).reshape(shape), grey(m, y, nb).reshape(shape)
        m.seen(np.stack([x, y], 1)[:64], tag=(na, nb))
        mode = str(m.rng.choice(MODES))
        drop, bits = bool(m.rng.random() < 0.3), bool(m.rng.random() < 0.5)
        un = "bits" if bits else "nats"
        got = float(m.call(binned_nmi, u, v, na, nb, un, mode, drop))
        want = mi(x, y, na, nb, mode, drop, bits)
        m.expect(np.isfinite(got), "histogram:finite", f"{na} {nb} {mode} {drop}")
        if want is not None:
            m.small(abs(got - want), 3e-4, "histogram:value", f"bins {na} {nb} {mode} {un} drop {drop}")
        back = float(m.call(binned_nmi, v, u, nb, na, un, mode, drop))
        if want is not None:
            m.small(abs(back - got), 3e-4, "histogram:symmetric", mode)
        one = float(m.call(binned_nmi, u, u, na, na, un, "none", drop))
        w1 = mi(x, x, na, na, "none", drop, bits)
        if w1 is not None:
            m.small(abs(one - w1), 3e-4, "histogram:self")
            plain = float(m.call(binned_nmi, u, v, na, nb, un, "none", False))
            m.small(plain - float(m.call(binned_nmi, u, u, na, na, un, "none", False)), 3e-4, "histogram:self-is-largest")
            m.small(-plain, 3e-5, "histogram:non-negative")
    m.rejects(binned_nmi, u, v, na, nb, "nats", "other", key="histogram:rejects-mode")


@PROP.scenario("batches", rounds=10, thorough_rounds=15)
def batches(m):
    for ba, bb in ((1, 1), (4, 4), (1, 5), (5, 1), (2, 2)):
        na, nb = (int(x) for x in m.rng.integers(2, 20, 2))
        shape = (6, 7) if m.rng.random() < 0.5 else (42,)
        L = [levels(m, 42, na, nb) for _ in range(5)]
        u = torch.stack([grey(m, p[0], na).reshape(shape) for p in L[:ba]])
        v = torch.stack([grey(m, p[1], nb).reshape(shape) for p in L[:bb]])
        m.seen(u, v)
        mode = str(m.rng.choice(MODES))
        drop, bits = bool(m.rng.random() < 0.3), bool(m.rng.random() < 0.5)
        got = m.shape(m.call(batch_binned_nmi, u, v, na, nb, "bits" if bits else "nats", mode, drop), (max(ba, bb),), "batches:shape")
        for i in range(max(ba, bb)):
            w = mi(L[i % ba][0], L[i % bb][1], na, nb, mode, drop, bits)
            m.expect(bool(torch.isfinite(got[i])), "batches:finite")
            if w is not None:
                m.small(abs(float(got[i]) - w), 3e-4, "batches:value", mode)
    m.rejects(batch_binned_nmi, torch.rand(2, 9), torch.rand(3, 9), 4, 4, key="batches:rejects-mismatch")


@PROP.scenario("scatter", rounds=5, thorough_rounds=20)
def scatter(m):
    for ba, bb in ((1, 1), (4, 4), (1, 5), (5, 1)):
        k = int(m.rng.choice([2, 3, 8, 16, 64]))
        n = int(m.rng.integers(1, 500))
        L = [levels(m, n, k, k) for _ in range(5)]
        for p in L:  # pin the range, so that the normalisation maps level to level
            if n > 1 and m.rng.random() < 0.8:
                p[0][:2], p[1][:2] = (0, k - 1), (0, k - 1)
        v = lambda x: torch.tensor(x, dtype=T32)  # noqa: E731
        a, b = np.stack([p[0] for p in L[:ba]]), np.stack([p[1] for p in L[:bb]])
        m.seen(a[:, :64], b[:, :64])
        raw = m.shape(m.call(mutual_information, v((a + 0.5) / k), v((b + 0.5) / k), k, False), (max(ba, bb),), "scatter:shape")
        sa, sb = 10 ** m.rng.uniform(-1, 1.7, (ba, 1)), 10 ** m.rng.uniform(-1, 1.7, (bb, 1))  # every image has its own brightness range
        oa, ob = m.rng.uniform(-3, 3, (ba, 1)), m.rng.uniform(-7, 7, (bb, 1))
        # arbitrary scale and offset with bin centres kept clear of the edges
        nor = m.call(mutual_information, v(stretch(a, k) * sa + oa), v(stretch(b, k) * sb + ob), k, True)
        for i in range(max(ba, bb)):
            x, y = a[i % ba], b[i % bb]
            m.small(abs(float(raw[i]) - mi(x, y, k, k)), 1e-4 + 1e-6 * n, "scatter:value", f"bins {k} pixels {n} batch {ba} {bb}")
            full = [len(z) and z.min() == 0 and z.max() == k - 1 for z in (x, y)]
            if all(f or z.min() == z.max() for f, z in zip(full, (x, y))):
                m.small(abs(float(nor[i]) - mi(x, y, k, k)), 1e-4 + 1e-6 * n, "scatter:normalised", f"bins {k} pixels {n} batch {ba} {bb}")
        swap = m.call(mutual_information, v((b + 0.5) / k), v((a + 0.5) / k), k, False)
        m.close(swap, raw, 1e-4, "scatter:symmetric")
        # grey level relabelling keeps the information
        perm = m.rng.permutation(k)
        m.close(m.call(mutual_information, v((perm[a] + 0.5) / k), v((b + 0.5) / k), k, False), raw, 1e-4, "scatter:relabelling")
    x = torch.rand(3, 2000, generator=m.gen)
    y = torch.rand(3, 2000, generator=m.gen)
    got = m.call(mutual_information, x, y, 16)
    xn, yn = (ref.npf((z - z.min(1, keepdim=True).values) / (z.max(1, keepdim=True).values - z.min(1, keepdim=True).values)) for z in (x, y))
    for i in range(3):
        lx, ly = (np.minimum((z[i] * 16).astype(int), 15) for z in (xn, yn))
        m.small(abs(float(got[i]) - mi(lx, ly, 16, 16)), 2e-2, "scatter:continuous")
    c = m.call(mutual_information, torch.full((3, 50), 0.7), y[:, :50], 8)
    m.close(c, torch.zeros(3), 1e-5, "scatter:constant")
    m.rejects(mutual_information, x[:2], y, key="scatter:rejects-mismatch")


def stretch(a, k):
    """values whose min-max normalisation falls well inside the bins: levels 0 and k-1 sit on the range ends."""
    v = (a + 0.5) / k
    return np.where(a == 0, 0.0, np.where(a == k - 1, 1.0, v))


@PROP.scenario("cross", rounds=10, thorough_rounds=80)
def cross(m):
    """the FFT maps against the histogram of every shift."""
    bd, bs = (int(x) for x in [m.rng.integers(2, 9, 2), m.rng.integers(2, 20, 2), m.rng.choice([8, 9, 16, 17], 2)][m.rng.integers(0, 3)])
    h, w = (int(x) for x in m.rng.integers(1, 10, 2))
    nd, ns = (int(x) for x in m.rng.integers(1, 5, 2))
    D = np.stack([levels(m, h * w, bd, bd)[0].reshape(h, w) for _ in range(nd)])
    S = np.stack([levels(m, h * w, bs, bs)[0].reshape(h, w) for _ in range(ns)])
    if bd == bs and m.rng.random() < 0.5:
        S[0] = np.roll(D[0], (1, 2), (0, 1))
    Md, Ms = (m.rng.random((nd, h, w)) < 0.8), (m.rng.random((ns, h, w)) < 0.7)
    Md[:, 0, 0] = Ms[:, 0, 0] = True
    use = m.rng.integers(0, 4)
    if not use & 1:
        Md[:] = True
    if not use & 2:
        Ms[:] = True
    const, mode = bool(m.rng.random() < 0.5), MODES[m.round % len(MODES)]
    lead = int(m.rng.integers(0, 3))

    def t(x):
        "a stack with one or two leading dimensions, at times a window of a larger stack"
        n = len(x)
        if lead == 2 and n == 4:
            big = torch.full((3, 4, h, w), float("nan"))
            big[:2, 1:3] = x.reshape(2, 2, h, w)
            return big[:2, 1:3]
        return x.reshape(n, 1, h, w) if lead else x

    got = m.call(
        cmif, t(torch.stack([grey(m, d, bd) for d in D])), t(torch.stack([grey(m, s, bs) for s in S])),
        t(torch.tensor(Md, dtype=T32)) if use & 1 else None, t(torch.tensor(Ms, dtype=T32)) if use & 2 else None,
        bd, bs, int(m.rng.choice([8, 8, 3, 1])), const, mode)
    m.seen(D.reshape(nd, -1), S.reshape(ns, -1), tag=(bd, bs, mode, const))
    m.shape(got, (nd, ns, h, w), "cross:shape")
    m.need(bool(torch.isfinite(got).all()), "cross:finite", f"bins {bd} {bs} {mode} constant {const}")
    G = ref.npf(got)
    for a in range(nd):
        for b in range(ns):
            hd0, hs0 = H(np.bincount(D[a][Md[a]], minlength=bd) / Md[a].sum()), H(np.bincount(S[b][Ms[b]], minlength=bs) / Ms[b].sum())
            for y in range(h):
                for x in range(w):
                    sh = (h // 2 - y, w // 2 - x)
                    d, k = np.roll(D[a], sh, (0, 1)), np.roll(Md[a], sh, (0, 1)) & Ms[b]
                    if not k.any():
                        continue
                    J = joint(d[k], S[b][k], bd, bs) / k.sum()
                    hd, hs = (hd0, hs0) if const else (H(J.sum(1)), H(J.sum(0)))
                    want = normed(hd, hs, H(J), mode)
                    if want is None or (mode == "Yao" and H(J) < 1e-5):
                        continue
                    m.small(abs(G[a, b, y, x] - want), 5e-4, "cross:value", f"bins {bd} {bs} {mode} constant {const} masks {use} {(h, w)} pair {a, b} shift {y, x}")


@PROP.scenario("implementations", rounds=3, thorough_rounds=10)
def implementations(m):
    """every implementation gives the same plain mutual information."""
    for k in (2, 4, 8, 9, 16):
        x, y = levels(m, 15 * 12, k, k)
        x[:2], y[:2] = (0, k - 1), (k - 1, 0)
        u, v = grey(m, x, k), grey(m, y, k)
        m.seen(np.stack([x, y], 1))
        a = float(m.call(binned_nmi, u, v, k, k))
        b = float(m.call(mutual_information, u[None], v[None], k, False)[0])
        o = m.call(cmif, u.reshape(1, 15, 12), v.reshape(1, 15, 12), None, None, k, k)
        p = m.call(cmif, u.reshape(1, 15, 12), v.reshape(1, 15, 12), None, None, k, k, 8, True)
        for z, n in ((b, "scatter"), (float(o[0, 0, 7, 6]), "cross"), (float(p[0, 0, 7, 6]), "cross-constant")):
            m.small(abs(a - z), 1e-3, f"implementations:{n}", f"bins {k}")
    m.rejects(cmif, torch.rand(1, 4, 5), torch.rand(1, 5, 4), key="implementations:rejects-shapes")
