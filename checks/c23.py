"""C23 Wigner d elements."""
import math
from fractions import Fraction

import numpy as np
import torch

from ebsdtorch.harmonics import wigner_d_logspace as lg
from ebsdtorch.harmonics import wigner_d_xnum as xn
from vlib import harm
from vlib.core import Prop

PROP = Prop(
    "C23",
    "a case is one angle with one maximum degree (every element of the table compared), or one index; angles over the whole range including 0, pi/2, pi and their neighbourhoods",
    ["tabulated element (l, m, n) is d^l_{n m}(beta) of exp(-i beta Jy) (the library's documented swap of m and n)", "float32 tables to 2e-6 (l+1)^2"],
)
CPU = torch.device("cpu")
PI = math.pi


def ref_table(L, beta, degrees=None):
    idx, val = [], []
    for l in range(L + 1) if degrees is None else degrees:
        d = harm.d_full(l, beta)
        m, n = np.tril_indices(l + 1)
        idx.append(l * (l + 1) * (l + 2) // 6 + m * (m + 1) // 2 + n)
        val.append(d[n + l, m + l])
    return np.concatenate(idx), np.concatenate(val)


def size(L):
    return (L + 1) * (L + 2) * (L + 3) // 6


def log_table(m, beta, L, dt):
    if beta < PI / 2:
        return m.call(lg.wigner_d_lt_half_pi, beta, L, dt, CPU)
    if beta == PI / 2:
        return m.call(lg.wigner_d_eq_half_pi, L, dt, CPU)
    return m.call(lg.wigner_d_gt_half_pi, beta, L, dt, CPU)


def angles(rng, k):
    a = [0.0, 1e-12, 1e-6, 1e-3, PI / 3, PI / 2 - 1e-9, PI / 2, PI / 2 + 1e-9, 2 * PI / 3, math.acos(1 / 3), PI - 1e-3, PI - 1e-7, PI]
    return [a[i] for i in rng.permutation(len(a))[:k]] + [float(x) for x in rng.uniform(0, PI, k)] + [float(math.acos(rng.integers(-5, 6) / 6))]


@PROP.scenario("tables", rounds=12, thorough_rounds=60)
def tables(m):
    L = int(m.rng.choice([0, 1, 2, 3, 4, 5, int(m.rng.integers(6, 40))]))
    for beta in angles(m.rng, 5):
        idx, want = ref_table(L, beta)
        m.seen((L, beta), tag="table")
        for dt in (torch.float64, torch.float32):
            t = m.shape(log_table(m, beta, L, dt), (size(L),), "log:size")
            m.expect(t.dtype == dt, "log:dtype")
            m.close(t[idx], want, (5e-14 if dt == torch.float64 else 2e-6) * (L + 1) ** 2, "log:value" if dt == torch.float64 else "log:value32", f"L={L} beta={beta!r}")
        if beta < PI:
            t = m.shape(m.call(xn.wigner_d_xnum, torch.tensor(beta, dtype=torch.float64), L, CPU), (size(L),), "xnum:size")
            m.close(t[idx], want, 5e-14 * (L + 1) ** 2, "xnum:value", f"L={L} beta={beta!r}")


@PROP.scenario("high-degree", rounds=3, thorough_rounds=12)
def high(m):
    L = int(m.rng.integers(80, m.n(150, 420)))
    deg = sorted({L, L - 1, int(m.rng.integers(40, L)), int(m.rng.integers(2, 40))})
    betas = [float(m.rng.uniform(0.01, PI - 0.01)), PI / 2, float(m.rng.choice([0.01, 1e-4, PI - 0.01, PI / 2 + 1e-7, 0.3]))]
    for beta in betas:
        idx, want = ref_table(L, beta, deg)
        m.seen((L, beta), tag="high")
        t = m.shape(log_table(m, beta, L, torch.float64), (size(L),), "log:size")
        m.expect(bool(torch.isfinite(t).all()), "log:finite", f"L={L} beta={beta!r}")
        m.close(t[idx], want, 2e-14 * (L + 1) ** 2, "log:high-degree", f"L={L} beta={beta!r}")
        x = m.shape(m.call(xn.wigner_d_xnum, torch.tensor(beta, dtype=torch.float64), L, CPU), (size(L),), "xnum:size")
        m.close(x[idx], want, 2e-14 * (L + 1) ** 2, "xnum:high-degree", f"L={L} beta={beta!r}")
        m.close(t, x, 4e-14 * (L + 1) ** 2, "schemes-agree", f"L={L} beta={beta!r}")
        t32 = log_table(m, beta, L, torch.float32)
        m.close(t32, t, 2e-6 * (L + 1) ** 2, "log:high-degree32", f"L={L} beta={beta!r}")


@PROP.scenario("very-high-degree", rounds=1, thorough_rounds=4)
def very_high(m):
    """band limits beyond which the seeds of the recursion leave the range of float64"""
    L = int(m.rng.integers(m.n(740, 800), m.n(780, 1000)))
    beta = [0.3, PI / 2, PI - 0.4, float(m.rng.uniform(0.02, PI - 0.02))][int(m.rng.integers(4))]
    x = m.shape(m.call(xn.wigner_d_xnum, torch.tensor(beta, dtype=torch.float64), L, CPU), (size(L),), "xnum:size")
    m.seen((L, beta), tag="very-high")
    m.expect(bool(torch.isfinite(x).all()), "xnum:finite", f"L={L} beta={beta!r}")
    t = log_table(m, beta, L, torch.float64)
    m.close(t, x, 1e-9, "schemes-agree", f"L={L} beta={beta!r}")
    deg = [int(m.rng.integers(300, 400))] + ([L] if m.thorough else [])
    idx, want = ref_table(L, beta, deg)
    m.close(x[idx], want, 1e-9, "xnum:very-high-degree", f"L={L} beta={beta!r}")


@PROP.scenario("extended-numbers", rounds=2, thorough_rounds=10)
def extended(m):
    """sums, normalisation and conversion of the extended exponent numbers, in exact arithmetic"""
    B = Fraction(2) ** 460
    n = 400
    mant = lambda: torch.from_numpy(m.rng.choice([-1.0, 1.0], n) * 2.0 ** m.rng.uniform(-229.9, 229.9, n))
    expo = lambda lo, hi: torch.from_numpy(m.rng.integers(lo, hi, n)).to(torch.int32)
    val = lambda p: [Fraction(a) * B ** int(b) for a, b in zip(p[0].double().tolist(), p[1].tolist())]
    a = (mant(), expo(-4, 5))
    b = (mant(), a[1] + expo(-2, 3))
    fa, fb = [float(v) for v in m.rng.uniform(0.3, 3, 2) * m.rng.choice([-1, 1], 2)]
    c = m.call(xn.xnum_sum, a, b, fa, fb)
    for i, (x, y, z) in enumerate(zip(val(a), val(b), val(c))):
        x, y = x * Fraction(fa), y * Fraction(fb)
        m.expect(abs(z - (x + y)) <= Fraction(1, 10**15) * max(abs(x), abs(y)), "sum-of-extended-numbers", f"{a[0][i]} {a[1][i]} {b[0][i]} {b[1][i]} {fa} {fb}")
    m.seen(torch.stack([a[0], b[0]], -1), tag="sum")
    w = (torch.from_numpy(m.rng.choice([-1.0, 1.0], n) * 2.0 ** m.rng.uniform(-600, 600, n)), expo(-3, 4))
    v = m.call(xn.xnum_norm, w)
    m.expect(val(v) == val(w), "normalisation-keeps-the-value")
    m.expect(bool(((v[0].abs() >= 2.0**-230) & (v[0].abs() < 2.0**230)).all()), "normalised-range")
    k = (a[0], expo(-1, 2))
    f = m.call(xn.xnum_to_fp, k).tolist()
    for i, (g, want) in enumerate(zip(f, val(k))):
        m.expect(abs(Fraction(g) - want) <= Fraction(1, 10**14) * abs(want), "conversion-of-extended-numbers", f"{k[0][i]} {k[1][i]}")
    m.small(m.call(xn.xnum_to_fp, (a[0], expo(-9, -1))), 1e-60, "conversion-of-vanishing-numbers")


@PROP.scenario("bounded", rounds=1, thorough_rounds=4)
def bounded(m):
    """no element exceeds one and every full row has unit length, far beyond the reach of the plain recursion"""
    L = m.n(260, 700)
    beta = float(m.rng.uniform(0.001, PI / 2 - 0.001))
    t = m.call(lg.wigner_d_lt_half_pi, beta, L, torch.float64, CPU)
    m.seen((L, beta))
    m.expect(bool((t.abs() <= 1 + 1e-9).all()), "magnitude-at-most-one")
    h = m.call(lg.wigner_d_eq_half_pi, L, torch.float64, CPU)
    m.expect(bool((h.abs() <= 1 + 1e-9).all()), "magnitude-at-most-one")
    for l in {L, int(m.rng.integers(1, L)), int(m.rng.integers(L // 2, L))}:
        k = np.arange(-l, l + 1)
        for mm in {0, l, int(m.rng.integers(-l, l + 1))}:
            c = torch.from_numpy(np.stack([np.full(2 * l + 1, l), np.full(2 * l + 1, mm), k], -1))
            row = m.call(lg.read_lmn_wigner_d_half_pi_table, h, c)
            m.small(abs(float((row.double() ** 2).sum()) - 1), 1e-8, "row-has-unit-length", f"l={l} m={mm}")
            m.seen((l, mm), tag="row")


@PROP.scenario("lookup", rounds=4, thorough_rounds=20)
def lookup(m):
    """every (l, m, n) with negative orders too, at beta = pi/2"""
    L = int(m.rng.integers(1, 16))
    dt = torch.float64
    t = m.call(lg.wigner_d_eq_half_pi, L, dt, CPU)
    g = [(l, a, b) for l in range(L + 1) for a in range(-l, l + 1) for b in range(-l, l + 1)]
    c = torch.tensor(g)
    want = np.array([harm.d_full(l, PI / 2)[b + l, a + l] for l, a, b in g])
    wantT = np.array([harm.d_full(l, PI / 2)[a + l, b + l] for l, a, b in g])
    e = 5e-14 * (L + 1) ** 2
    for it in (torch.int64, torch.int32):
        ci = c.to(it)
        m.close(m.call(lg.read_lmn_wigner_d_half_pi_table, t, ci), want, e, "lookup:lmn", rows=c)
        m.close(m.call(lg.read_lmn_wigner_d_half_pi_table, t, ci, True), wantT, e, "lookup:lmn-swapped", rows=c)
        perm = torch.from_numpy(m.rng.permutation(len(g)))
        n2 = len(g) // 2 * 2
        m.close(m.call(lg.read_lmn_wigner_d_half_pi_table, t, ci[perm][:n2].reshape(2, -1, 3)), want[perm.numpy()][:n2].reshape(2, -1), e, "lookup:lmn-shape")
        for l in range(L + 1):
            s = c[:, 0] == l
            m.close(m.call(lg.read_mn_wigner_d_half_pi_table, t, ci[s][:, 1], ci[s][:, 2], l), want[s.numpy()], e, "lookup:mn")
            m.close(m.call(lg.read_mn_wigner_d_half_pi_table, t, ci[s][:, 1], ci[s][:, 2], l, True), wantT[s.numpy()], e, "lookup:mn-swapped")
        xh = m.call(xn.wigner_d_xnum, torch.tensor(PI / 2, dtype=dt), L, CPU)
        m.close(m.call(xn.retrieve_wigner_d, xh, ci), want, e, "lookup:xnum-half-pi", rows=c)
        m.close(m.call(xn.retrieve_wigner_d, xh, ci, True), wantT, e, "lookup:xnum-half-pi-swapped", rows=c)
    m.seen(c)
    # orthogonality of the assembled matrices
    for l in range(L + 1):
        s = c[:, 0] == l
        d = m.call(lg.read_mn_wigner_d_half_pi_table, t, c[s][:, 1], c[s][:, 2], l).reshape(2 * l + 1, 2 * l + 1)
        m.close(d @ d.T, torch.eye(2 * l + 1, dtype=dt), 1e-11 * (L + 1), "lookup:orthogonal")
    # other angles: orders of one sign
    beta = float(m.rng.uniform(0.05, PI - 0.05))
    t = log_table(m, beta, L, dt)
    x = m.call(xn.wigner_d_xnum, torch.tensor(beta, dtype=dt), L, CPU)
    gp = [(l, a, b) for l, a, b in g if a >= 0 and b >= 0]
    want = np.array([harm.d_full(l, beta)[b + l, a + l] for l, a, b in gp])
    wantT = np.array([harm.d_full(l, beta)[a + l, b + l] for l, a, b in gp])
    m.close(m.call(lg.read_lmn_wigner_d_half_pi_table, t, torch.tensor(gp)), want, e, "lookup:any-angle")
    m.close(m.call(xn.retrieve_wigner_d, x, torch.tensor(gp)), want, e, "lookup:xnum")
    m.close(m.call(xn.retrieve_wigner_d, x, torch.tensor(gp), True), wantT, e, "lookup:xnum-swapped")


@PROP.scenario("index", rounds=2, thorough_rounds=8)
def index(m):
    L = m.n(30, 60)
    g = torch.tensor([(l, a, b) for l in range(L) for a in range(l + 1) for b in range(a + 1)])
    for f in (lg.index_from_coords, xn.index_from_coords):
        m.expect(torch.equal(m.call(f, g), torch.arange(len(g))), "index:enumerates")
        m.expect(torch.equal(m.call(f, g.to(torch.int32)).long(), torch.arange(len(g))), "index:enumerates")
    m.expect(torch.equal(m.call(lg.coords_from_index, torch.arange(len(g))).long(), g), "index:inverse")
    m.expect(torch.equal(m.call(lg.coords_from_index, torch.arange(len(g), dtype=torch.int32)).long(), g), "index:inverse")
    m.seen(g)
    # far out: first and last entry of blocks, and random ones
    l = torch.from_numpy(m.rng.integers(1, 1100, 4000))
    a = (torch.from_numpy(m.rng.random(4000)) * (l + 1)).long().clamp(max=1100)
    b = (torch.from_numpy(m.rng.random(4000)) * (a + 1)).long()
    for k in range(3):
        aa = (a, torch.zeros_like(a), l)[k]
        bb = (b, torch.zeros_like(b), aa)[k]
        c = torch.stack([l, aa, torch.minimum(aa, bb)], -1)
        i = m.call(lg.index_from_coords, c)
        m.expect(torch.equal(i, l * (l + 1) * (l + 2) // 6 + aa * (aa + 1) // 2 + c[:, 2]), "index:formula")
        m.expect(torch.equal(m.call(lg.coords_from_index, i).long(), c), "index:inverse-large", "coords_from_index(index_from_coords(c)) != c")
        m.seen(c)
