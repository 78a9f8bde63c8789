"""Reference models for the harmonics: spherical harmonics and Wigner d elements."""
import functools
import math

import numpy as np
import torch


@functools.lru_cache(maxsize=512)
def d_full(l, beta):
    """d^l_{m'm}(beta) = <l m'|exp(-i beta Jy)|l m>, rows m' and columns m from -l to l,
    by diagonalising the angular momentum operator."""
    m = np.arange(-l, l + 1)
    jp = np.zeros((2 * l + 1, 2 * l + 1))
    for i in range(2 * l):
        jp[i + 1, i] = math.sqrt(l * (l + 1) - m[i] * (m[i] + 1))
    w, v = np.linalg.eigh((jp - jp.T) / 2j)
    w = np.round(w)
    return ((v * np.exp(-1j * beta * w)) @ v.conj().T).real


def ylm(L, th, ph):
    """orthonormal spherical harmonics with Condon-Shortley phase at azimuth th and
    polar angle ph, as (2L-1, L, N); entries with |m| > l are zero."""
    x, s = np.cos(ph), np.sin(ph)
    P = np.zeros((L, L, len(x)))
    P[0, 0] = math.sqrt(1 / (4 * math.pi))
    for m in range(1, L):
        P[m, m] = -math.sqrt((2 * m + 1) / (2 * m)) * s * P[m - 1, m - 1]
    for m in range(L):
        if m + 1 < L:
            P[m, m + 1] = math.sqrt(2 * m + 3) * x * P[m, m]
        for l in range(m + 2, L):
            a = math.sqrt((4 * l * l - 1) / (l * l - m * m))
            b = math.sqrt(((l - 1) ** 2 - m * m) / (4 * (l - 1) ** 2 - 1))
            P[m, l] = a * (x * P[m, l - 1] - b * P[m, l - 2])
    Y = np.zeros((2 * L - 1, L, len(x)), dtype=complex)
    for m in range(L):
        e = np.exp(1j * m * th)
        Y[L - 1 + m] = P[m] * e
        if m:
            Y[L - 1 - m] = (-1) ** m * (P[m] * e).conj()
    return Y


def valid(L):
    return np.abs(np.arange(-(L - 1), L))[:, None] <= np.arange(L)[None]


def rand_coeffs(rng, b, L, real=False):
    """random coefficients (b, 2L-1, L); for a real signal a_{-m} = (-1)^m conj(a_m)."""
    a = (rng.normal(size=(b, 2 * L - 1, L)) + 1j * rng.normal(size=(b, 2 * L - 1, L))) * valid(L)
    if real:
        a[:, L - 1] = a[:, L - 1].real
        a = expand(a[:, L - 1 :])
    return a


def expand(h):
    """(b, L, L) coefficients with m >= 0 of a real signal -> (b, 2L-1, L)."""
    L = h.shape[1]
    a = np.zeros((h.shape[0], 2 * L - 1, L), dtype=complex)
    a[:, L - 1 :] = h
    for m in range(1, L):
        a[:, L - 1 - m] = (-1) ** m * h[:, m].conj()
    return a


def D(l, al, be, ga):
    """D^l_{mn} = exp(-i m al) d_mn(be) exp(-i n ga)."""
    m = np.arange(-l, l + 1)
    return np.exp(-1j * m * al)[:, None] * d_full(l, be) * np.exp(-1j * m * ga)[None]


def rotate(a, al, be, ga):
    """coefficients of the rotated function (R a)(w) = a(R^-1 w), R = Rz(al)Ry(be)Rz(ga)."""
    L = a.shape[-1]
    out = np.zeros_like(a)
    for l in range(L):
        s = slice(L - 1 - l, L + l)
        out[..., s, l] = np.einsum("mn,...n->...m", D(l, al, be, ga), a[..., s, l])
    return out


def torch_c(a, double):
    return torch.from_numpy(np.ascontiguousarray(a)).to(torch.complex128 if double else torch.complex64)
