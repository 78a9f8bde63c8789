"""C30 scattering factors and their special functions."""
import json
import os

import mpmath as mp
import numpy as np
import torch

from ebsdtorch.crystallography import diffraction as D
from ebsdtorch.crystallography.scattering_factors import scattering_factors_Hybrid as HY
from ebsdtorch.crystallography.scattering_factors import scattering_factors_LVD_TCB as LV
from ebsdtorch.crystallography.scattering_factors import scattering_factors_WK as WK
from vlib.core import Prop

PROP = Prop(
    "C30",
    "a case is one argument of one special function, or one (voltage, element, angle) scattering factor",
    ["Weickenmeier-Kohl factors take 2 pi / d, the hybrid and the Lobato-Van Dyck factors 1 / d (both in 1/angstrom); all are s = 1 / 2d in the tabulated form",
     "the exponential integral Ei is only asked for arguments whose exponential is representable",
     "beyond several half widths the absorptive factor of a vibrating atom may be negative, which the hybrid factors clip to 0"],
)
with open(os.path.join(os.path.dirname(__file__), "..", "vlib", "scattering_tables.json")) as fh:
    TAB = json.load(fh)
WA, WB, LF = (np.array(TAB[k]) for k in ("wk_A", "wk_B", "lvd"))
H, ME, Q, CL = 6.62607015e-34, 9.1093837015e-31, 1.602176634e-19, 299792458.0
EPS = {torch.float32: 2.0**-23, torch.float64: 2.0**-52}


def wavelength(kv):
    e = Q * np.asarray(kv, dtype=float) * 1e3
    return H * CL / np.sqrt(e * (e + 2 * ME * CL * CL)) * 1e10


def gamma(kv):
    return 1 + Q * np.asarray(kv, dtype=float) * 1e3 / (ME * CL * CL)


def elastic_wk(z, s):
    z, s = np.asarray(z)[:, None, None] - 1, np.asarray(s, dtype=float)[None, :, None]
    x = WB[z, np.arange(4)] * s**2
    r = np.where(x > 1e-12, -np.expm1(-x) / np.where(x > 1e-12, x, 1), 1.0)
    return (WA[z, np.arange(4)] * WB[z, np.arange(4)] * r).sum(-1)


def elastic_lvd(z, s):
    z, g = np.asarray(z)[:, None, None] - 1, 2 * np.asarray(s, dtype=float)[None, :, None]
    a, b = LF[z, np.arange(5)], LF[z, np.arange(5, 10)]
    return (a * (2 + b * g**2) / (1 + b * g**2) ** 2).sum(-1)


def core_loss(z, u, g, kv):
    """inelastic (core) part of the absorptive factor, Weickenmeier & Kohl (1991), before the Debye-Waller factor"""
    z, G = np.asarray(z, dtype=float)[None, :, None], 2 * np.pi * np.asarray(g, dtype=float)[None, None, :]
    kv = np.asarray(kv, dtype=float)[:, None, None]
    k0, a0 = 2 * np.pi / wavelength(kv), 0.5289
    te = 6e-3 * z / (2 * kv) * (2 * kv + 1022.0) / (kv + 1022.0)
    ta = 1 / (k0 * 0.885 * a0 / z ** (1 / 3))
    o, k2 = G / (k0 * ta), (te / ta) ** 2
    k = te / ta
    o2 = o * o
    with np.errstate(all="ignore"):
        x1 = o / ((1 + o2) * np.sqrt(o2 + 4 * k2)) * np.log((o + np.sqrt(o2 + 4 * k2)) / (2 * k))
        sq = np.sqrt((1 + o2) ** 2 + 4 * k2 * o2)
        x2 = np.log((1 + 2 * k2 + o2 + sq) / (2 * k * np.sqrt(1 + k2))) / sq
        x3 = np.where(o > 1e-5, np.arcsinh(o / (2 * np.sqrt(1 + k2))) / (np.where(o > 0, o, 1) * np.sqrt(o2 + 4 * (1 + k2))), 1 / (4 * (1 + k2)))
    return 8 * np.pi / (a0 * k0) ** 2 * 2 * z / ta**2 * (-x1 + x2 - x3)


def phonon(z, u, g):
    """thermal diffuse scattering integral of the Weickenmeier-Kohl factors (their equations 15 to 21), 40 digits"""
    with mp.workdps(40):
        a = [mp.mpf(v) * (4 * mp.pi) ** 2 for v in WA[z - 1].tolist()]
        b = [mp.mpf(v) / (4 * mp.pi) ** 2 for v in WB[z - 1].tolist()]
        m, g2 = mp.mpf(u) ** 2 / 2, (2 * mp.pi * mp.mpf(g)) ** 2
        tot = mp.mpf(0)
        for i in range(4):
            for j in range(i, 4):
                p, q = b[i], b[j]
                pm, qm, pq = p + m, q + m, p + q + 2 * m
                if g == 0:
                    i1 = p * mp.log((p + q) / p) + q * mp.log((p + q) / q)
                    i2 = (p + 2 * m) * mp.log(pq / (p + 2 * m)) + q * mp.log(pq / (q + 2 * m)) + 2 * m * mp.log(2 * m / (q + 2 * m))
                else:
                    i1 = (2 * mp.euler + mp.log(p * g2) + mp.log(q * g2) - 2 * mp.ei(-p * q * g2 / (p + q))
                          + mp.exp(-p * g2) * (mp.ei(p * p * g2 / (p + q)) - mp.ei(p * g2))
                          + mp.exp(-q * g2) * (mp.ei(q * q * g2 / (p + q)) - mp.ei(q * g2))) / g2
                    i2 = (2 * (mp.ei(-m * pm * g2 / (p + 2 * m)) + mp.ei(-m * qm * g2 / (q + 2 * m)) - mp.ei(-pm * qm * g2 / pq) - mp.ei(-m * g2 / 2))
                          + mp.exp(-m * g2) * (2 * mp.ei(m * g2 / 2) - mp.ei(m * m * g2 / (p + 2 * m)) - mp.ei(m * m * g2 / (q + 2 * m)))
                          + mp.exp(-pm * g2) * (mp.ei(pm * pm * g2 / pq) - mp.ei(pm * pm * g2 / (p + 2 * m)))
                          + mp.exp(-qm * g2) * (mp.ei(qm * qm * g2 / pq) - mp.ei(qm * qm * g2 / (q + 2 * m)))) / g2
                tot += (1 if i == j else 2) * a[i] * a[j] * mp.pi * (mp.exp(-m * g2) * i1 - i2)
        return float(tot)


def phonon_quadrature(z, u, g):
    """the same from its definition: the integral of f(q) f(g - q) (exp(-M g^2) - exp(-M q^2 - M (g - q)^2)) over the plane,
    for the Lobato-Van Dyck elastic factors (in units of the factors of this library)"""
    m = u * u / 2
    x, w = np.polynomial.legendre.leggauss(200)
    # log-like radial map around the midpoint of the two factors, angles over a quarter
    r = np.exp((x + 1) / 2 * np.log(1e8)) * 1e-4
    wr = w / 2 * np.log(1e8) * r * r
    th, wt = (x + 1) * np.pi / 4, w * np.pi / 4
    sx, sy = r[:, None] * np.cos(th), r[:, None] * np.sin(th)
    f = lambda gg: elastic_lvd([z], gg.reshape(-1) / 2)[0].reshape(gg.shape)
    q1, q2 = np.hypot(g / 2 + sx, sy), np.hypot(g / 2 - sx, sy)
    G = 2 * np.pi
    val = f(q1) * f(q2) * (np.exp(-m * (G * g) ** 2) - np.exp(-m * G**2 * (q1**2 + q2**2)))
    return 4 * (val * wr[:, None] * wt).sum() * G**2


def arguments(rng, n, dtype, top):
    edges = np.array([1.0, 6.0, 10.0, 20.0, 40.0, 20.0 / 3, 0.37250741078136663])
    e = torch.tensor(edges, dtype=dtype)
    near = torch.cat([e, torch.nextafter(e, e * 2), torch.nextafter(e, e * 0), e * (1 + 1e-3), e * (1 - 1e-3)])
    x = torch.tensor(np.concatenate([10 ** rng.uniform(-12, np.log10(top), n), rng.uniform(0, min(top, 50), n)]), dtype=dtype)
    return torch.cat([x, near])


def shaped(rng, x):
    k = int(rng.integers(0, 4))
    if k == 0:
        return x
    n = x.numel() // 6 * 6
    if k == 1:
        return x[:n].reshape(3, -1)
    if k == 2:
        return x[:n].reshape(2, 3, -1).transpose(0, 2)
    return torch.stack([x, x + 1], 1)[:, 0]


@PROP.scenario("exponential-integrals", rounds=2, thorough_rounds=25)
def exponential_integrals(m):
    """E1 and Ei of arguments of every magnitude, on the joints of the approximations, of any shape, and outside the domain"""
    for dtype in (torch.float64, torch.float32):
        eps = EPS[dtype]
        for mod, name in ((WK, "WK"), (HY, "Hybrid")):
            x = shaped(m.rng, arguments(m.rng, m.n(150), dtype, 700 if dtype == torch.float64 else 87))
            x = x[torch.randperm(x.shape[0], generator=m.gen)] if x.is_contiguous() else x
            keep = x.clone()
            e1, ei, em = m.call(mod.exp1, x), m.call(mod.expi, x), m.call(mod.expi, -x)
            m.expect(torch.equal(x, keep), "special:argument-unchanged", name)
            for o, k in ((e1, "E1"), (ei, "Ei"), (em, "Ei of negative")):
                m.shape(o, tuple(x.shape), f"special:shape")
                m.expect(o.dtype == dtype, "special:dtype", f"{name} {k} {o.dtype}")
            xs = x.reshape(-1).double().numpy()
            r1 = np.array([float(mp.e1(mp.mpf(v))) for v in xs.tolist()])
            ri = np.array([float(mp.ei(mp.mpf(v))) for v in xs.tolist()])
            g1, gi, gm = (v.reshape(-1).double().numpy() for v in (e1, ei, em))
            m.seen(np.stack([xs, g1, gi], 1), tag=name)
            tiny = 1e-36 if dtype == torch.float32 else 1e-300
            tol = 60 * eps * (1 + xs / 8)
            ok = r1 > tiny
            m.small((np.abs(g1 - r1) / r1)[ok] / tol[ok], 1.0, "special:E1", f"{name} {dtype}", rows=xs[ok][:, None])
            m.small((np.abs(gm + r1) / r1)[ok] / tol[ok], 1.0, "special:Ei-negative", f"{name} {dtype}", rows=xs[ok][:, None])
            m.small(np.abs(gi - ri) / (np.abs(ri) + 1) / tol, 1.0, "special:Ei", f"{name} {dtype}", rows=xs[:, None])
            m.expect((g1 >= 0).all(), "special:E1-positive", name)
            o = np.argsort(xs)
            m.expect((np.diff(gi[o]) >= -tol[o][1:] * (1 + np.abs(gi[o][1:]))).all(), "special:Ei-increases", name)
            inf, nan = float("inf"), float("nan")
            sp = torch.tensor([0.0, inf, nan, -1.0, -inf, 2.0], dtype=dtype)
            a, b = m.call(mod.exp1, sp), m.call(mod.expi, sp)
            m.expect(a[0] == inf and a[1] == 0 and a[2:5].isnan().all(), "special:E1-outside", f"{name} {a.tolist()}")
            m.expect(b[0] == -inf and b[1] == inf and b[2].isnan() and b[4] == 0, "special:Ei-outside", f"{name} {b.tolist()}")
            m.expect(abs(a[5] - 0.04890051) < 1e-6 and abs(b[5] - 4.954234) < 1e-5 and abs(b[3] + 0.21938393) < 1e-6, "special:mixed-with-outside", f"{name} {a.tolist()} {b.tolist()}")
            for f in (mod.exp1, mod.expi):
                m.shape(m.call(f, sp[:0]), (0,), "special:empty")


@PROP.scenario("kinematics", rounds=1, thorough_rounds=5)
def kinematics(m):
    """wavelength and relativistic corrections of electrons from 0.1 kV to 1 MV, every implementation"""
    kv = np.concatenate([10 ** m.rng.uniform(-1, 3, m.n(200)), [10, 15, 20, 30, 200, 300]])
    lam = wavelength(kv)
    for dtype, tol in ((torch.float64, 2e-6), (torch.float32, 4e-6)):
        v = torch.tensor(kv, dtype=dtype)
        for mod in (WK, HY, LV):
            got = m.call(mod.e_wavelength_eV_to_A, v * 1e3)
            m.shape(got, tuple(v.shape), "kinematics:shape")
            m.small(np.abs(got.double().numpy() / lam - 1), tol, "kinematics:wavelength", f"{mod.__name__} {dtype}", rows=kv[:, None])
        w, rel, psi = m.call(D.calc_lambda, v)
        e = Q * kv * 1e3
        m.small(np.abs(w.double().numpy() * 10 / lam - 1), tol, "kinematics:calc-lambda", f"{dtype}", rows=kv[:, None])
        m.small(np.abs(rel.double().numpy() / gamma(kv) - 1), tol, "kinematics:relativistic-correction", f"{dtype}", rows=kv[:, None])
        m.small(np.abs(psi.double().numpy() / (kv * 1e3 * (1 + e / (2 * ME * CL**2))) - 1), tol, "kinematics:acceleration-potential", f"{dtype}", rows=kv[:, None])
        m.seen(np.stack([kv, w.double().numpy()], 1))


def draw(rng, n_z, n_g, n_v):
    z = rng.integers(1, 99, n_z)
    u = rng.choice([0.02, 0.05, 0.08, 0.12, 0.2, 0.3], n_z)
    g = np.concatenate([[0.0] if rng.random() < 0.7 else [], 10 ** rng.uniform(-3, 0, n_g), rng.uniform(0, 4, n_g), rng.uniform(3, 15, 2)])
    rng.shuffle(g)
    kv = rng.choice([5.0, 10.0, 15.0, 20.0, 30.0, 100.0, 200.0, 300.0], n_v, replace=False)
    return z, u, g, kv


def inputs(z, u, g, kv, dtype, two_pi):
    return (torch.tensor(g * (2 * np.pi if two_pi else 1), dtype=dtype), torch.tensor(z), torch.tensor(u, dtype=dtype), torch.tensor(kv, dtype=dtype))


MODELS = (("WK", WK.scatter_factor_WK, True, elastic_wk), ("Hybrid", HY.scatter_factor_hybrid, False, elastic_lvd), ("LVD", LV.scatter_factor_LVD, False, elastic_lvd))


@PROP.scenario("elastic", rounds=1, thorough_rounds=10)
def elastic(m):
    """elastic factors of all 98 elements: the published parameterisation, laws every atom obeys, and the conventions of the three models"""
    z = np.arange(1, 99)
    s = np.unique(np.concatenate([[0.0], 10 ** m.rng.uniform(-3, 0.9, m.n(60)), m.rng.uniform(0, 3, m.n(60)), np.linspace(0, 6, 121)]))
    vals = {}
    for name, fn, two_pi, ref in MODELS:
        for dtype, tol in ((torch.float64, 2e-6), (torch.float32, 1e-5)):
            got = m.call(fn, torch.tensor(2 * s, dtype=dtype), torch.tensor(z), 0.06, 20.0, return_type="ITC")
            m.shape(got, (1, 98, len(s)), "elastic:shape")
            m.expect(got.dtype == dtype, "elastic:dtype", f"{name} {got.dtype}")
            got = got[0].double().numpy()
            want = ref(z, s)
            m.seen(got.reshape(-1, 1), tag=name)
            m.small(np.abs(got / want - 1).max(1), tol if name == "WK" or dtype == torch.float64 else 2e-4, "elastic:published-parameterisation", f"{name} {dtype}", rows=z[:, None])
            if dtype == torch.float64:
                vals[name] = got
                m.expect((got > 0).all(), "elastic:positive", name)
                m.expect((np.diff(got, axis=1) < 0).all(), "elastic:decreases-with-angle", name)
    m.small(np.abs(vals["Hybrid"] / vals["LVD"] - 1).max(1), 1e-9, "elastic:hybrid-is-lobato-van-dyck", rows=z[:, None])
    far = s > 5
    for name, v in vals.items():
        # Mott-Bethe: at large angles only the bare nucleus is left
        m.small(np.abs(v[:, far] * s[far] ** 2 / (0.0239337 * z[:, None]) - 1).max(1), 0.12, "elastic:nuclear-limit", name, rows=z[:, None])
    m.small(np.abs(vals["WK"] - vals["LVD"]).max(1) / vals["LVD"][:, 0], 0.12, "elastic:models-agree", rows=z[:, None])


@PROP.scenario("complex", rounds=1, thorough_rounds=12)
def complex_factors(m):
    """real and absorptive parts of single factors: thermal damping, relativistic correction, core and phonon absorption, every combination"""
    for rep in range(m.n(14)):
        z, u, g, kv = draw(m.rng, int(m.rng.integers(1, 4)), 3, int(m.rng.integers(1, 4)))
        dtype = [torch.float64, torch.float32][rep % 2]
        gm = gamma(kv)[:, None, None]
        k0 = 2 * np.pi / wavelength(kv)[:, None, None]
        dwf = np.exp(-0.5 * (u[:, None] * 2 * np.pi * g) ** 2)[None]
        core = core_loss(z, u, g, kv) * dwf * gm**2 / (4 * np.pi * k0)
        ph = np.array([[phonon(int(a), float(b), float(c)) for c in g] for a, b in zip(z, u)])[None] * gm**2 / (4 * np.pi * k0)
        top = np.array([phonon(int(a), float(b), 0.0) for a, b in zip(z, u)])[None, :, None] * gm**2 / (4 * np.pi * k0)
        ctop = core_loss(z, u, [0.0], kv) * gm**2 / (4 * np.pi * k0)
        tag = f"Z={z.tolist()} u={u.tolist()} g={g.tolist()} kV={kv.tolist()} {dtype}"
        for name, fn, two_pi, ref in MODELS[:2]:
            for c in (True, False):
                for p in (True, False):
                    f = m.call(fn, *inputs(z, u, g, kv, dtype, two_pi), include_core=c, include_phonon=p)
                    m.shape(f, (len(kv), len(z), len(g)), "complex:shape")
                    m.expect(f.is_complex() and f.dtype == torch.complex(torch.zeros((), dtype=dtype), torch.zeros((), dtype=dtype)).dtype, "complex:dtype", f"{name} {f.dtype}")
                    f = f.numpy().astype(complex)
                    m.seen(np.stack([f.real.ravel(), f.imag.ravel()], 1), tag=name)
                    re = ref(z, g / 2)[None] * dwf * gm
                    scale = ref(z, [0.0])[None] * gm
                    m.small((np.abs(f.real - re) / (re + 1e-6 * scale)).max(), 1e-4 if dtype == torch.float64 else 1e-3, "complex:real-part", f"{name} {tag}")
                    im = core * c + ph * p
                    want = np.maximum(im, 0) if name == "Hybrid" else im
                    m.small((np.abs(f.imag - want) / (1e-3 * c * (core + 2e-3 * ctop) + p * (1e-3 * np.abs(ph) + 2e-5 * top) + 1e-12)).max(), 1.0, "complex:absorptive-part", f"{name} core={c} phonon={p} {tag}")
                    if name == "Hybrid":
                        m.expect((f.imag >= 0).all(), "complex:absorbs", tag)


@PROP.scenario("integral", rounds=1, thorough_rounds=8)
def integral(m):
    """phonon absorption from the definition as an integral over the plane: the closed forms against quadrature"""
    for rep in range(m.n(5, 12)):
        z, u, g, kv = draw(m.rng, 1, 1, 2)
        g = np.unique(np.concatenate([[0.0], np.round(m.rng.uniform(0.05, 3, 4), 3)]))
        u = m.rng.choice([0.05, 0.08, 0.12], 1)
        gm, k0 = gamma(kv)[:, None], 2 * np.pi / wavelength(kv)[:, None]
        want = np.array([phonon_quadrature(int(z[0]), float(u[0]), float(v)) for v in g])[None] * gm**2 / (4 * np.pi * k0)
        tag = f"Z={z.tolist()} u={u.tolist()} g={g.tolist()} kV={kv.tolist()}"
        lv = m.call(LV.scatter_factor_LVD, *inputs(z, u, g, kv, torch.float64, False))
        m.shape(lv, (2, 1, len(g)), "integral:shape")
        lv = lv[:, 0].numpy()
        m.seen(np.stack([lv.real.ravel(), lv.imag.ravel()], 1))
        m.small(np.abs(lv.imag - want).max() / want[:, :1].min(), 3e-3, "integral:lobato-van-dyck", tag)
        re = elastic_lvd(z, g / 2) * np.exp(-0.5 * (u[0] * 2 * np.pi * g) ** 2) * gm
        m.small(np.abs(lv.real / re - 1).max(), 1e-5, "integral:real-part", tag)
        for name, fn, two_pi, _ in MODELS[:2]:
            f = m.call(fn, *inputs(z, u, g, kv, torch.float64, two_pi), include_core=False)[:, 0].numpy()
            m.small(np.abs(f.imag - want).max() / want[:, :1].min(), 0.08, "integral:closed-form", f"{name} {tag}")


@PROP.scenario("quadrature", rounds=1, thorough_rounds=6)
def quadrature(m):
    """the composite Simpson rule is exact for parabolas on any grid, and converges whatever the grid of the phonon integral"""
    for rep in range(m.n(20, 100)):
        n = int(m.rng.integers(3, 30))
        x = np.cumsum(m.rng.uniform(0.05, 1.0, n)) if rep % 2 else np.linspace(-1, 2, n)
        shape = [(), (3,), (2, 4)][rep % 3]
        c = m.rng.normal(size=(4,) + shape + (1,))
        deg = 3 if rep % 2 == 0 and n % 2 else 2  # evenly spaced, even number of intervals: cubics too
        y = sum(c[k] * x**k for k in range(deg + 1))
        want = sum(c[k, ..., 0] * (x[-1] ** (k + 1) - x[0] ** (k + 1)) / (k + 1) for k in range(deg + 1))
        got = m.shape(m.call(LV.simpson_composite, torch.tensor(y), torch.tensor(x)), shape, "quadrature:shape")
        m.small(np.abs(got.numpy() - want).max() / (1 + np.abs(want).max() + np.abs(y).max()), 1e-11 * n, "quadrature:exact", f"{n} points degree {deg} shape {shape}")
        m.seen(x, tag=n)
    z, u, g, kv = draw(m.rng, 1, 1, 2)
    g, u = np.array([0.0, 0.31, 1.1]), m.rng.choice([0.08, 0.12], 1)
    a = inputs(z, u, g, kv, torch.float64, False)
    want = m.call(LV.scatter_factor_LVD, *a)
    for kw in (dict(sampling_type="linspace", interval_range=(0.0, 8.0), intervals=800), dict(sampling_type="linspace", interval_range=(0.0, 8.0), intervals=801),
               dict(sampling_type="logspace", intervals=301), dict(sampling_type="logspace", intervals=300, logspace_base=10.0)):
        f = m.shape(m.call(LV.scatter_factor_LVD, *a, **kw), tuple(want.shape), "quadrature:shape")
        m.small((f.imag - want.imag).abs().max() / want.imag.abs().max(), 2e-2, "quadrature:grids-agree", f"{kw} Z={z} u={u} kV={kv}")
        m.small((f.real - want.real).abs().max() / want.real.abs().max(), 1e-12, "quadrature:real-part", f"{kw}")
    m.rejects(LV.scatter_factor_LVD, *a, sampling_type="other", key="quadrature:rejects-sampling")


@PROP.scenario("batching", rounds=1, thorough_rounds=8)
def batching(m):
    """elements, angles and voltages together, in any order, one by one, as scalars, in strided memory"""
    for rep in range(m.n(6)):
        z, u, g, kv = draw(m.rng, int(m.rng.integers(2, 6)), 3, int(m.rng.integers(2, 4)))
        dtype = [torch.float64, torch.float32][rep % 2]
        for name, fn, two_pi, _ in MODELS:
            if name == "LVD":
                z, u, g = z[:2], u[:2], g[:4]
            kw = dict(intervals=60) if name == "LVD" else dict(include_core=bool(m.rng.integers(2)), include_phonon=bool(m.rng.integers(2)))
            G, Z, U, V = inputs(z, u, g, kv, dtype, two_pi)
            keep = [t.clone() for t in (G, Z, U, V)]
            full = m.call(fn, G, Z, U, V, **kw)
            m.expect(all(torch.equal(a, b) for a, b in zip(keep, (G, Z, U, V))), "batching:arguments-unchanged", name)
            m.shape(full, (len(kv), len(z), len(g)), "batching:shape")
            tag = f"{name} Z={z.tolist()} u={u.tolist()} g={g.tolist()} kV={kv.tolist()} {kw} {dtype}"
            scale = full.abs().amax(-1, keepdim=True)
            im = full.imag.abs().amax(-1, keepdim=True) + 1e-30
            tol = 1e-9 if dtype == torch.float64 else 2e-5

            def same(other, sel, key):
                a, b = full[sel], other
                m.shape(b, tuple(a.shape), "batching:shape")
                d = max(float(((a - b).real.abs() / scale.expand_as(full)[sel]).max()), float(((a - b).imag.abs() / im.expand_as(full)[sel]).max()))
                m.small(d, tol, key, tag)

            pv, pz, pg = (torch.randperm(n, generator=m.gen) for n in full.shape)
            r = m.call(fn, G[pg], Z[pz], U[pz], V[pv], **kw)
            same(r, (pv[:, None, None], pz[None, :, None], pg[None, None, :]), "batching:order")
            i, j, k = int(m.rng.integers(len(kv))), int(m.rng.integers(len(z))), int(m.rng.integers(len(g)))
            one = (slice(i, i + 1), slice(j, j + 1), slice(k, k + 1))
            same(m.call(fn, G[k : k + 1], int(z[j]), float(u[j]), float(kv[i]), **kw), one, "batching:numbers")
            same(m.call(fn, G[k], Z[j], U[j], V[i], **kw), one, "batching:zero-dimensional")
            wide = lambda t: torch.stack([t, t + 1], 1)[:, 0]
            same(m.call(fn, wide(G), wide(Z), wide(U), wide(V), **kw), (slice(None),) * 3, "batching:strided")
            c = int(m.rng.integers(1, len(g)))
            same(torch.cat([m.call(fn, G[:c], Z, U, V, **kw), m.call(fn, G[c:], Z, U, V, **kw)], 2), (slice(None),) * 3, "batching:split")
            m.shape(m.call(fn, G[:0], Z, U, V, **kw), (len(kv), len(z), 0), "batching:no-angles")
            shared = m.call(fn, G, Z, float(u[0]), V, **kw)
            each = m.call(fn, G, Z, torch.full_like(U, float(u[0])), V, **kw)
            m.shape(shared, tuple(each.shape), "batching:shape")
            m.small(float((shared - each).abs().max()), 1e-12, "batching:one-displacement-for-all", tag)
            m.seen(np.stack([full.real.double().numpy().ravel(), full.imag.double().numpy().ravel()], 1), tag=name)


@PROP.scenario("limits", rounds=1, thorough_rounds=4)
def limits(m):
    """forward scattering as the limit of small angles, atoms that do not vibrate, and heavier vibration absorbing more"""
    for rep in range(m.n(8)):
        z, u, _, kv = draw(m.rng, 3, 1, 2)
        g = np.array([0.0, 2e-3, 1e-2])
        for dtype in (torch.float64, torch.float32):
            for name, fn, two_pi, _ in MODELS[:2]:
                f = m.call(fn, *inputs(z, u, g, kv, dtype, two_pi), include_core=False)
                tag = f"{name} Z={z.tolist()} u={u.tolist()} kV={kv.tolist()} {dtype}"
                m.small(float(((f.imag[..., 1:] - f.imag[..., :1]).abs() / f.imag[..., :1]).max()), 1e-2, "limits:forward-absorption-continuous", tag)
                m.expect(bool((f.imag[..., 0] > 0).all()), "limits:forward-absorption-positive", tag)
                still = m.call(fn, *inputs(z, 0 * u, g, kv, dtype, two_pi), include_core=False)
                m.expect(bool((still.imag == 0).all()), "limits:no-diffuse-scattering-without-vibration", f"{tag} {still.imag.flatten()[:3].tolist()}")
                more = m.call(fn, *inputs(z, 1.5 * u, g, kv, dtype, two_pi), include_core=False)
                m.expect(bool((more.imag[..., 0] > f.imag[..., 0]).all()), "limits:absorption-grows-with-vibration", tag)
                m.seen(f.imag.double().numpy().reshape(-1, 1), tag=name)
                m.rejects(fn, *inputs(z, u, g[None], kv, dtype, two_pi), key="limits:angles-with-two-dimensions")
