"""C24 cross-correlation over SO(3)."""
import math

import numpy as np
import torch

from ebsdtorch.harmonics.sht import CSHT, RSHT
from ebsdtorch.harmonics.sht_cc import cs2cc_, rs2cc_, rs2cc_fast_
from ebsdtorch.harmonics.wigner_d_logspace import read_lmn_wigner_d_half_pi_table, wigner_d_eq_half_pi
from vlib import harm
from vlib.core import Prop

PROP = Prop(
    "C24",
    "a case is one pair of coefficient sets whose whole correlation volume is compared with directly computed overlaps of the first function with rotated copies of the second; bandwidths 1..9, single harmonics, random sets, rotated copies",
    ["volume index (x, y, z) of 2B-1 samples stands for the rotation Rz(pi/2 + 2 pi x/(2B-1)) Ry(...) Rz(...) fixed by the documented sum of d(pi/2) products", "the correlation is evaluated in single precision"],
)
CPU = torch.device("cpu")


def tables(m, B, extra=2, dt=torch.float64):
    t = m.call(wigner_d_eq_half_pi, B + extra, dt, CPU)
    d = torch.zeros((B, 2 * B - 1, 2 * B - 1), dtype=dt)
    l, a, b = torch.meshgrid(torch.arange(B), torch.arange(-B + 1, B), torch.arange(-B + 1, B), indexing="ij")
    v = (a.abs() <= l) & (b.abs() <= l)
    d[v] = m.call(read_lmn_wigner_d_half_pi_table, t, torch.stack([l[v], a[v], b[v]], -1))
    return t, d


def euler(B):
    """the ZYZ angles each volume index stands for"""
    x = 2 * np.pi * np.arange(2 * B - 1) / (2 * B - 1)
    return x


def overlaps(F, G, B, idx):
    """sum_lm F_lm conj((R G)_lm) at volume indices idx (n, 3), for one pair."""
    p = 2 * np.pi / (2 * B - 1)
    out = np.zeros(len(idx), complex)
    for i, (x, y, z) in enumerate(idx):
        al, be, ga = p * x + AL, BE0 + BES * p * y, p * z + GA
        for l in range(B):
            s = slice(B - 1 - l, B + l)
            mm = np.arange(-l, l + 1)
            d = harm.d_full(l, float(be))
            out[i] += np.einsum("m,n,mn->", F[s, l] * np.exp(1j * mm * al), G[s, l].conj() * np.exp(1j * mm * ga), d)
    return out


def volume(F, G, B):
    """the documented sum, evaluated directly (no FFT)"""
    d = np.zeros((B, 2 * B - 1, 2 * B - 1))
    for l in range(B):
        s = slice(B - 1 - l, B + l)
        d[l, s, s] = harm.d_full(l, math.pi / 2).T
    C = np.einsum("bml,bnl,lmk,lkn->bmkn", F, G.conj(), d, d, optimize=True)
    E = np.exp(1j * np.arange(-B + 1, B)[:, None] * euler(B)[None])
    return np.einsum("bmkn,mx,ky,nz->bxyz", C, E, E, E, optimize=True)


# the volume samples rotations with these offsets (see the "rotations" scenario, which
# compares against rotated coefficients)
AL, BE0, BES, GA = math.pi / 2, math.pi, 1.0, math.pi / 2


@PROP.scenario("volumes", rounds=10, thorough_rounds=60)
def volumes(m):
    B = int(m.rng.integers(1, m.n(8, 10)))
    b1, b2 = [(1, 1), (3, 3), (1, 4), (3, 1), (2, 2)][int(m.rng.integers(5))]
    b = max(b1, b2)
    t, d = tables(m, B, int(m.rng.choice([0, 1, 2, 5])))
    for real in (True, False):
        F, G = harm.rand_coeffs(m.rng, b1, B, real), harm.rand_coeffs(m.rng, b2, B, real)
        kind = int(m.rng.integers(3))
        if kind == 1:
            l = int(m.rng.integers(B))
            F[..., np.arange(B) != l] = 0
        elif kind == 2 and b1 == b2:
            G = F.copy()
        F, G = F * m.rng.choice([1, 1e-2, 30]), G
        m.seen(np.concatenate([np.broadcast_to(F, (b,) + F.shape[1:]).reshape(b, -1), np.broadcast_to(G, (b,) + G.shape[1:]).reshape(b, -1)], 1).view(float), tag=f"B{B}")
        want = volume(np.broadcast_to(F, (b,) + F.shape[1:]), np.broadcast_to(G, (b,) + G.shape[1:]), B)
        e = 2e-6 * (B + 1) * np.sqrt((abs(F) ** 2).sum((1, 2)).max() * (abs(G) ** 2).sum((1, 2)).max())
        n = (b,) + (2 * B - 1,) * 3
        for double in (True, False):
            f, g = harm.torch_c(F, double), harm.torch_c(G, double)
            got = m.shape(m.call(cs2cc_, B, f, g, t), n, "complex:shape")
            m.close(got, abs(want), e, "complex:volume", f"B={B} batches {b1},{b2}")
            if real:
                f, g = f[:, B - 1 :], g[:, B - 1 :]
                got = m.shape(m.call(rs2cc_, B, f, g, t), n, "real:shape")
                m.close(got, want.real, e, "real:volume", f"B={B} batches {b1},{b2}")
                if b1 == b2:
                    dd = d.to(f.dtype)
                    fast = m.shape(m.call(rs2cc_fast_, B, f, g, dd), n, "fast:shape")
                    m.close(fast, want.real, e, "fast:volume", f"B={B}")
                    m.close(fast, got, 2 * e, "fast:agrees-with-reference")


@PROP.scenario("rotations", rounds=4, thorough_rounds=20)
def rotations(m):
    """every value of the volume is the overlap with a rotated copy"""
    B = int(m.rng.integers(2, 6))
    t, d = tables(m, B)
    F, G = harm.rand_coeffs(m.rng, 1, B, True), harm.rand_coeffs(m.rng, 1, B, True)
    n = 2 * B - 1
    got = m.shape(m.call(rs2cc_, B, harm.torch_c(F[:, B - 1 :], True), harm.torch_c(G[:, B - 1 :], True), t), (1, n, n, n), "real:shape")[0].double().numpy()
    idx = m.rng.integers(0, n, (40, 3))
    want = overlaps(F[0], G[0], B, idx)
    m.seen(idx, tag=f"{B}")
    e = 4e-6 * (B + 1) * np.sqrt((abs(F) ** 2).sum() * (abs(G) ** 2).sum())
    m.small(abs(got[tuple(idx.T)] - want.real), e, "rotations:overlap", f"B={B}")
    m.small(abs(want.imag), e, "oracle:real")


@PROP.scenario("peak", rounds=4, thorough_rounds=20)
def peak(m):
    """f = a copy of g rotated by one of the grid's rotations: the volume peaks there, at the power of f"""
    B = int(m.rng.integers(3, 8))
    t, d = tables(m, B)
    G = harm.rand_coeffs(m.rng, 1, B, True)
    n = 2 * B - 1
    p = 2 * math.pi / n
    i = m.rng.integers(0, n, 3)
    F = harm.rotate(G, AL + p * i[0], BE0 + BES * p * i[1], GA + p * i[2])
    # the overlap with the rotated copy is largest there
    m.seen(i[None], tag=f"{B}")
    power = (abs(G) ** 2).sum()
    f, g = harm.torch_c(F[:, B - 1 :], True), harm.torch_c(G[:, B - 1 :], True)
    for name, out in (("real", m.call(rs2cc_, B, f, g, t)), ("fast", m.call(rs2cc_fast_, B, f, g, d.to(torch.complex128))), ("complex", m.call(cs2cc_, B, harm.torch_c(F, True), harm.torch_c(G, True), t))):
        v = m.shape(out, (1, n, n, n), "peak:shape")[0].double()
        m.small(abs(float(v[tuple(i)]) - power) / power, 1e-5 * B, f"peak:{name}:value", f"B={B} at {i}")
        if name != "complex":
            m.small(float(v.max()) / power - 1, 1e-5 * B, f"peak:{name}:highest", f"B={B}")


@PROP.scenario("transforms", rounds=3, thorough_rounds=12)
def transforms(m):
    """the whole chain: signals on the sphere, transforms, correlation"""
    B = int(m.rng.integers(2, 8))
    t, d = tables(m, B)
    b = int(m.rng.integers(1, 4))
    r, c = m.call(RSHT, B, CPU, "double"), m.call(CSHT, B, CPU, "double")
    x, y = (torch.from_numpy(m.rng.random((b, 2 * B, 2 * B))) for _ in range(2))
    m.seen(x)
    fr, gr = m.call(r.fsht, x), m.call(r.fsht, y)
    fc, gc = m.call(c.fsht, x), m.call(c.fsht, y)
    e = 3e-6 * (B + 1) * float((fc.abs() ** 2).sum((1, 2)).max().sqrt() * (gc.abs() ** 2).sum((1, 2)).max().sqrt())
    v = m.call(rs2cc_, B, fr, gr, t)
    m.close(m.call(cs2cc_, B, fc, gc, t), v.abs(), e, "chain:real-and-complex")
    m.close(m.call(rs2cc_fast_, B, fr, gr, d.to(fr.dtype)), v, e, "chain:fast")
    for i in range(b):
        m.close(m.call(rs2cc_, B, fr[i : i + 1], gr[i : i + 1], t)[0], v[i], e * 0.1, "chain:batch")
    m.rejects(rs2cc_, 2, torch.zeros(2, 2, 2, dtype=torch.complex64), torch.zeros(3, 2, 2, dtype=torch.complex64), m.call(wigner_d_eq_half_pi, 3, torch.float32, CPU), key="batch-mismatch-accepted")
