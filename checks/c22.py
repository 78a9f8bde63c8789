"""C22 spherical harmonic transforms."""
import numpy as np
import torch

from ebsdtorch.harmonics.sht import CSHT, RSHT, grid_DriscollHealy, theta_phi_to_xyz
from vlib import harm
from vlib.core import Prop

PROP = Prop(
    "C22",
    "a case is one band-limited signal (its coefficient set) at one bandwidth; bandwidths 1..12 all, larger ones drawn; single harmonics, random sets and sums",
    ["orthonormal harmonics with the Condon-Shortley phase", "single precision to 2e-6 L^2 of the signal's size"],
)
CPU = torch.device("cpu")


def tol(L, double, size):
    return (2e-14 if double else 4e-6) * (2 + L) ** 1.5 * size


def grid_np(L):
    k = np.arange(2 * L)
    th, ph = np.meshgrid(np.pi * k / L, np.pi * (2 * k + 1) / (4 * L), indexing="ij")
    return th, ph


@PROP.scenario("grid", rounds=1)
def grid(m):
    for L in list(range(1, 20)) + [33, 64]:
        for dt in (torch.float32, torch.float64):
            g = m.shape(m.call(grid_DriscollHealy, L, dt), (2 * L, 2 * L, 2), "grid:shape")
            th, ph = grid_np(L)
            e = 1e-14 if dt == torch.float64 else 2e-6
            m.close(g, np.stack([th, ph], -1), e * 8, "grid:angles")
            m.expect(g.dtype == dt, "grid:dtype")
            x = m.shape(m.call(theta_phi_to_xyz, g), (2 * L, 2 * L, 3), "grid:xyz-shape")
            m.close(x, np.stack([np.cos(th) * np.sin(ph), np.sin(th) * np.sin(ph), np.cos(ph)], -1), e * 8, "grid:xyz")
            m.seen(g.reshape(-1, 2))
        m.expect(m.call(grid_DriscollHealy, L).dtype == torch.float32, "grid:default-dtype")


def one(m, L, double, b, full_check=True):
    prec = "double" if double else "single"
    c = m.call(CSHT, L, CPU, prec)
    r = m.call(RSHT, L, CPU, prec)
    th, ph = grid_np(L)
    Y = harm.ylm(L, th.reshape(-1), ph.reshape(-1))
    rd = torch.float64 if double else torch.float32
    cases = [("random", harm.rand_coeffs(m.rng, b, L), harm.rand_coeffs(m.rng, b, L, True))]
    if full_check:
        one_c = np.zeros((b, 2 * L - 1, L), complex)
        one_r = np.zeros((b, L, L), complex)
        for i in range(b):
            l = int(m.rng.integers(0, L))
            k = int(m.rng.integers(-l, l + 1))
            one_c[i, L - 1 + k, l] = m.rng.normal() + 1j * m.rng.normal()
            one_r[i, abs(k), l] = m.rng.normal() + (1j * m.rng.normal() if k else 0)
        cases.append(("single", one_c, harm.expand(one_r)))
        cases.append(("zero", np.zeros((b, 2 * L - 1, L), complex), np.zeros((b, 2 * L - 1, L), complex)))
    for name, a, ar in cases:
        m.seen(a.reshape(b, -1).view(float), tag=f"{L}{prec}")
        f = np.einsum("bml,mln->bn", a, Y).reshape(b, 2 * L, 2 * L)
        fr = np.einsum("bml,mln->bn", ar, Y).reshape(b, 2 * L, 2 * L).real
        size = 1 + max(abs(a).max(initial=0), abs(f).max(), abs(ar).max(initial=0), abs(fr).max())
        t = tol(L, double, size)
        fo = m.shape(m.call(c.isht, harm.torch_c(a, double)), (b, 2 * L, 2 * L), "complex:inverse-shape")
        m.close(fo, f, t, "complex:inverse", f"L={L} {prec} {name}")
        ao = m.shape(m.call(c.fsht, harm.torch_c(f, double)), (b, 2 * L - 1, L), "complex:forward-shape")
        m.close(ao, a, t, "complex:forward", f"L={L} {prec} {name}")
        m.expect(fo.dtype == ao.dtype == (torch.complex128 if double else torch.complex64), "complex:dtype")
        m.close(m.call(c.isht, ao), f, t, "complex:round-trip")
        # a real signal through the complex transform
        m.close(m.call(c.fsht, torch.from_numpy(fr).to(rd)), ar, t, "complex:forward-of-real")
        fo = m.shape(m.call(r.isht, harm.torch_c(ar[:, L - 1 :], double)), (b, 2 * L, 2 * L), "real:inverse-shape")
        m.close(fo, fr, t, "real:inverse", f"L={L} {prec} {name}")
        ao = m.shape(m.call(r.fsht, torch.from_numpy(fr).to(rd)), (b, L, L), "real:forward-shape")
        m.close(ao, ar[:, L - 1 :], t, "real:forward", f"L={L} {prec} {name}")
        m.expect(fo.dtype == rd and ao.is_complex(), "real:dtype")
        m.close(m.call(r.isht, ao), fr, t, "real:round-trip")
    return c, r


@PROP.scenario("small", rounds=2, thorough_rounds=12)
def small(m):
    for L in range(1, 13):
        one(m, L, True, int(m.rng.integers(1, 5)))
        one(m, L, False, int(m.rng.integers(1, 5)))


@PROP.scenario("larger", rounds=4, thorough_rounds=20)
def larger(m):
    L = int(m.rng.integers(13, m.n(34, 66)))
    one(m, L, bool(m.rng.random() < 0.6), int(m.rng.integers(1, 4)))


@PROP.scenario("all-harmonics", rounds=1, thorough_rounds=3)
def all_harmonics(m):
    """every single harmonic of a bandwidth, as one batch"""
    for L in (m.n(5, 9), m.n(6, 8)):
        double = bool(m.rng.random() < 0.7)
        prec = "double" if double else "single"
        c, r = m.call(CSHT, L, CPU, prec), m.call(RSHT, L, CPU, prec)
        th, ph = grid_np(L)
        Y = harm.ylm(L, th.reshape(-1), ph.reshape(-1)).reshape(2 * L - 1, L, 2 * L, 2 * L)
        idx = np.argwhere(harm.valid(L))
        a = np.zeros((len(idx), 2 * L - 1, L), complex)
        a[np.arange(len(idx)), idx[:, 0], idx[:, 1]] = 1
        m.seen(a.reshape(len(idx), -1).view(float), tag=f"{L}{prec}")
        f = Y[idx[:, 0], idx[:, 1]]
        t = tol(L, double, 4)
        m.close(m.call(c.fsht, harm.torch_c(f, double)), a, t, "single:forward")
        m.close(m.call(c.isht, harm.torch_c(a, double)), f, t, "single:inverse")
        fr = m.call(r.fsht, torch.from_numpy(f.real.copy()).to(torch.float64 if double else torch.float32))
        # Re Y_lm = (Y_lm + (-1)^m Y_l,-m) / 2
        want = np.zeros((len(idx), L, L), complex)
        for i, (k, l) in enumerate(idx):
            k -= L - 1
            want[i, abs(k), l] = 1 if k == 0 else 0.5 * (1 if k > 0 else (-1) ** abs(k))
        m.close(fr, want, t, "single:real-forward")


@PROP.scenario("linear", rounds=4, thorough_rounds=20)
def linear(m):
    """any signal on the grid, band-limited or not: linear, batch-independent, and the
    transform followed by its inverse projects onto the band-limited signals"""
    L = int(m.rng.integers(1, 14))
    c, r = m.call(CSHT, L, CPU, "double"), m.call(RSHT, L, CPU, "double")
    b = int(m.rng.integers(2, 6))
    f = m.rng.normal(size=(b, 2 * L, 2 * L)) + 1j * m.rng.normal(size=(b, 2 * L, 2 * L))
    m.seen(f.reshape(b, -1).view(float))
    t = tol(L, True, 10)
    for tr, x in ((c, torch.from_numpy(f)), (r, torch.from_numpy(f.real.copy()))):
        k = "complex" if tr is c else "real"
        A = m.call(tr.fsht, x)
        w = torch.from_numpy(m.rng.normal(size=(b, 1, 1)))
        m.close(m.call(tr.fsht, (x * w).sum(0, keepdim=True)), (A * w).sum(0, keepdim=True), t * b, f"{k}:linear")
        for i in range(b):
            m.close(m.call(tr.fsht, x[i : i + 1])[0], A[i], t, f"{k}:batch")
        p = m.call(tr.isht, A)
        m.close(m.call(tr.fsht, p), A, t * 4, f"{k}:projection")
        # strided views of the same values
        big = torch.zeros(b, 2 * L, 4 * L, dtype=x.dtype)
        big[:, :, ::2] = x
        m.close(m.call(tr.fsht, big[:, :, ::2]), A, t, f"{k}:strided")
        xt = x.transpose(1, 2).contiguous().transpose(1, 2)
        m.close(m.call(tr.fsht, xt), A, t, f"{k}:strided")
        At = A.transpose(1, 2).contiguous().transpose(1, 2)
        m.close(m.call(tr.isht, At), p, t * 4, f"{k}:strided-inverse")
        # transforms hold no state
        m.close(m.plain(tr.fsht, x), m.plain(tr.fsht, x), 0.0, f"{k}:repeat")
        m.close(m.call(tr.fsht, x), A, t, f"{k}:repeat")
