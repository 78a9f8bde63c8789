"""C25 electron Monte Carlo."""
import math

import numpy as np
import torch

from vlib import opencl_host

opencl_host.install()
from ebsdtorch.crystallography import ebsd_mc  # noqa: E402
from ebsdtorch.crystallography.unit_cell import Cell  # noqa: E402
from ebsdtorch.simulation.monte_carlo import bse_sim_mc  # noqa: E402
from vlib import geom  # noqa: E402
from vlib.core import Prop  # noqa: E402
from vlib.sim import quiet  # noqa: E402

PROP = Prop(
    "C25",
    "a case is one run of a simulation (counts of electrons recorded) or one re-binned histogram; both implementations (torch, and the OpenCL kernel compiled for the host with clang)",
    ["the reference is an independent simulation of the published single-scattering model; distributions are compared with statistical tolerances",
     "an electron is recorded if its exit energy and depth fall into the histogram's range"],
)
CPU = torch.device("cpu")
MATS = [("C", 6.0, 2.2, 12.011), ("Al", 13.0, 2.7, 26.98), ("Ni", 28.0, 8.9, 58.69), ("Ag", 47.0, 10.5, 107.87), ("Au", 79.0, 19.3, 196.97)]
BIG = 1e9


def torch_mc(m, seed, E, Z, rho, A, sig, om, ne=1, nd=4, nz=1, be=1000.0, bz=BIG, n=400, nb=10**9, ns=20000, steps=80, dt=torch.float32):
    torch.manual_seed(seed)
    with quiet():
        out = m.call(bse_sim_mc, E, ne, nd, nz, be, bz, Z, rho, A, n, nb, ns, steps, sig, om, dt, CPU)
    m.shape(out, (ne, nz, nd, nd), "torch:shape")
    return out.double().numpy()


def cl_mc(m, seed, E, Z, rho, A, sig, om, ne=1, nd=4, nz=1, be=1000.0, bz=BIG, n=1000, trials=10, steps=80, mode="linear", n_extra=None):
    np.random.seed(seed)
    sp = dict(n_electrons=n, n_trials_per_electron=trials, starting_E_keV=E, n_exit_energy_bins=ne, n_exit_depth_bins=nz, n_exit_direction_bins=nd, depth_mode=mode,
              sigma=sig, omega=om, binsize_exit_energy=be, binsize_exit_depth=bz, n_max_steps=steps)
    h = m.call(ebsd_mc.run_monte_carlo_simulation, dict(atom_num=Z, unit_cell_density_rho=rho, atomic_weight_A=A), sp)
    h = np.asarray(h)
    m.need(h.shape == (ne, nz, nd, nd), "opencl:shape")
    return h.astype(float)


def reference(rng, E0, Z, rho, A, sig, om, n, steps):
    """independent single-scattering simulation; returns exit energies, depths, directions and the number started"""
    s, o = math.radians(sig), math.radians(om)
    d = np.tile([math.sin(s) * math.cos(o), math.sin(s) * math.sin(o), math.cos(s)], (n, 1))
    E, z = np.full(n, E0), np.zeros(n)
    J = (9.76 * Z + 58.5 * Z**-0.19) * 1e-3
    out = []
    for _ in range(steps):
        a = 3.4e-3 * Z**0.66667 / E
        sigma = 5.21e-21 * (Z / E) ** 2 * 4 * np.pi / (a * (1 + a)) * ((E + 511) / (E + 1024)) ** 2  # cm^2
        mfp = A / (6.022e23 * rho * sigma) * 1e7  # nm
        step = -mfp * np.log(1 - rng.random(len(E)))
        R = rng.random(len(E))
        c = 1 - 2 * a * R / (1 + a - R)
        st = np.sqrt(np.clip(1 - c * c, 0, None))
        psi = rng.uniform(0, 2 * np.pi, len(E))
        # any two vectors normal to the direction of flight
        h = np.where(abs(d[:, 2:3]) < 0.9, [[0.0, 0, 1]], [[1.0, 0, 0]])
        u = np.cross(d, h)
        u /= np.linalg.norm(u, axis=1, keepdims=True)
        v = np.cross(d, u)
        d = c[:, None] * d + st[:, None] * (np.cos(psi)[:, None] * u + np.sin(psi)[:, None] * v)
        d /= np.linalg.norm(d, axis=1, keepdims=True)
        esc = abs(z / d[:, 2])
        dE = -78500 * 1e-7 * (Z / (A * E)) * np.log(1.166 * E / J + 0.9911) * rho  # keV per nm
        z = z + step * d[:, 2]
        E = E + step * dE
        gone = (z < 0) & (E > 0)
        out.append((E[gone], esc[gone], d[gone]))
        k = (z >= 0) & (E > 0)
        E, z, d = E[k], z[k], d[k]
        if not len(E):
            break
    return [np.concatenate(x) for x in zip(*out)]


def ref_hist(ref, E0, ne, be, nz, bz, nd, log=False):
    E, dep, d = ref
    ie = np.floor((E0 - E) / be).astype(int)
    iz = np.floor((np.log(dep + 1) if log else dep) / bz).astype(np.int64)
    q = geom.rosca(d)
    ix = np.floor((q * 0.5 + 0.5) * nd).astype(int).clip(0, nd - 1)
    ok = (ie < ne) & (iz < nz) & (ie >= 0)
    h = np.zeros((ne, nz, nd, nd))
    np.add.at(h, (ie[ok], iz[ok], ix[ok, 0], ix[ok, 1]), 1)
    return h


def counts_ok(m, h, key):
    m.expect(bool((h >= 0).all() and (h == np.round(h)).all() and np.isfinite(h).all()), f"{key}:non-negative-integers")


def draw(rng):
    _, Z, rho, A = MATS[int(rng.integers(len(MATS)))]
    return dict(E=float(rng.choice([5.0, 10.0, 15.0, 20.0, 30.0])), Z=Z, rho=rho, A=A, sig=float(rng.choice([0.0, 30.0, 60.0, 70.0, 75.0])), om=float(rng.choice([0.0, 0.0, 30.0, 90.0, 200.0])))


@PROP.scenario("torch-conservation", rounds=4, thorough_rounds=40)
def torch_conservation(m):
    p = draw(m.rng)
    seed = int(m.rng.integers(1 << 30))
    n = int(m.rng.choice([1, 50, 400, 2000]))
    nb = int(m.rng.choice([1, max(n // 3, 2), 3 * n])) if n > 1 else 5
    dt = torch.float64 if m.rng.random() < 0.3 else torch.float32
    # a run ends with the step in which the requested number has left the sample
    h = torch_mc(m, seed, **p, n=n, nb=nb, ns=10**9, nd=1, dt=dt)
    counts_ok(m, h, "torch")
    m.seen((seed, n, nb, tuple(p.values())))
    m.expect(nb <= h.sum() < nb + n, "torch:every-exit-recorded", f"{h.sum():.0f} recorded when the run stopped at {nb} exits of {n} electrons at a time, {p}")
    ns = int(m.rng.integers(10, 2000))
    h = torch_mc(m, seed, **p, n=n, nb=10**9, ns=min(ns, 20 * n), nd=1, dt=dt, steps=30)
    m.expect(h.sum() < min(ns, 20 * n) + n, "torch:more-recorded-than-launched")


@PROP.scenario("torch-binning", rounds=4, thorough_rounds=40)
def torch_binning(m):
    """the same run recorded in different histograms"""
    p = draw(m.rng)
    seed = int(m.rng.integers(1 << 30))
    kw = dict(n=int(m.rng.choice([200, 500, 3000])), nb=int(m.rng.choice([200, 1000])), ns=10**9, dt=torch.float64 if m.rng.random() < 0.3 else torch.float32)
    ne, nz, nd = 64, 32, 16
    be, bz = p["E"] / 64, float(m.rng.choice([2.0, 8.0]))
    fine = torch_mc(m, seed, **p, ne=ne, nz=nz, nd=nd, be=be, bz=bz, **kw)
    counts_ok(m, fine, "torch")
    m.seen(fine.reshape(1, -1))
    m.expect(np.array_equal(fine, torch_mc(m, seed, **p, ne=ne, nz=nz, nd=nd, be=be, bz=bz, **kw)), "torch:reproducible")
    one = torch_mc(m, seed, **p, nd=nd, **kw)
    m.expect(fine.sum() <= one.sum(), "torch:total-without-limits")
    m.expect(bool((fine.sum((0, 1)) <= one.sum((0, 1))).all()), "torch:directions-without-limits")
    c = torch_mc(m, seed, **p, ne=ne // 4, nz=nz // 2, nd=nd // 4, be=be * 4, bz=bz * 2, **kw)
    agg = fine.reshape(ne // 4, 4, nz // 2, 2, nd // 4, 4, nd // 4, 4).sum((1, 3, 5, 7))
    # (a float32 product at the edge of a bin may be rounded across it)
    m.small(abs(agg - c).sum(), 4 + 1e-4 * fine.sum(), "torch:coarser-bins", f"{p}")
    c = torch_mc(m, seed, **p, ne=ne // 2, nz=nz, nd=nd, be=be, bz=bz, **kw)
    m.expect(np.array_equal(c, fine[: ne // 2]), "torch:fewer-energy-bins")
    c = torch_mc(m, seed, **p, ne=ne, nz=nz // 2, nd=nd, be=be, bz=bz, **kw)
    m.small(abs(c - fine[:, : nz // 2]).sum(), 4 + 1e-4 * fine.sum(), "torch:fewer-depth-bins")


def compare(m, h, r, key, msg):
    """marginal distributions within statistical error of the reference"""
    n1, n2 = h.sum(), r.sum()
    m.need(n1 > 200 and n2 > 200, "oracle:enough-events", f"{n1} {n2}") if n2 > 1000 else None
    if n2 <= 1000:
        return
    lim = 2.6 * math.sqrt(1 / n1 + 1 / n2) + 0.025
    for ax, name in (((1, 2, 3), "energy"), ((0, 2, 3), "depth"), ((0, 1, 3), "direction-x"), ((0, 1, 2), "direction-y")):
        d = abs(np.cumsum(h.sum(ax)) / n1 - np.cumsum(r.sum(ax)) / n2).max()
        m.small(d, lim, f"{key}:{name}-distribution", msg)
    a, b = h.sum((0, 1)) / n1, r.sum((0, 1)) / n2
    m.small(abs(a - b).max(), lim, f"{key}:joint-direction", msg)


@PROP.scenario("torch-model", rounds=3, thorough_rounds=30)
def torch_model(m):
    p = draw(m.rng)
    seed = int(m.rng.integers(1 << 30))
    ne, nz, nd, be = 20, 24, 4, p["E"] / 20
    steps = int(m.rng.choice([20, 60]))
    ref = reference(m.rng, p["E"], p["Z"], p["rho"], p["A"], p["sig"], p["om"], 20000, steps + 1)
    bz = max(float(np.quantile(ref[1], 0.9)) / 20, 1e-3)
    n, ns = 300, m.n(12000, 60000)
    h = torch_mc(m, seed, **p, ne=ne, nz=nz, nd=nd, be=be, bz=bz, n=n, ns=ns, steps=steps)
    m.seen(h.reshape(1, -1))
    compare(m, h, ref_hist(ref, p["E"], ne, be, nz, bz, nd), "torch", f"{p}")
    one = torch_mc(m, seed, **p, n=n, ns=ns, steps=steps, nd=1)
    y, want = one.sum() / ns, len(ref[0]) / 20000
    m.small(abs(y - want), 0.02 + 5 * math.sqrt(want * (1 - want) / ns), "torch:yield", f"{y:.4f} against {want:.4f} {p}")
    m.sample(**p, yield_=y, reference=want)


@PROP.scenario("torch-trends", rounds=1, thorough_rounds=3)
def torch_trends(m):
    seed = int(m.rng.integers(1 << 30))
    base = dict(E=20.0, om=0.0, n=300, ns=6000, steps=60, nd=1)
    y = [torch_mc(m, seed, Z=Z, rho=r, A=A, sig=0.0, **base).sum() for _, Z, r, A in (MATS[0], MATS[2], MATS[4])]
    m.expect(y[0] < y[1] < y[2], "torch:grows-with-atomic-number", f"{y}")
    _, Z, r, A = MATS[2]
    y = [torch_mc(m, seed, Z=Z, rho=r, A=A, sig=s, **base).sum() for s in (0.0, 50.0, 75.0)]
    m.expect(y[0] < y[1] < y[2], "torch:grows-with-tilt", f"{y}")
    m.seen((seed, tuple(y)))


@PROP.scenario("opencl-conservation", rounds=4, thorough_rounds=20)
def opencl_conservation(m):
    p = draw(m.rng)
    seed = int(m.rng.integers(1 << 30))
    kw = dict(n=int(m.rng.choice([1, 37, 400])), trials=int(m.rng.choice([1, 7, 20])), steps=int(m.rng.choice([1, 40, 400])))
    ne, nz, nd = 64, 32, 16
    be, bz = p["E"] / 64, float(m.rng.choice([2.0, 8.0]))
    fine = cl_mc(m, seed, **p, ne=ne, nz=nz, nd=nd, be=be, bz=bz, **kw)
    counts_ok(m, fine, "opencl")
    m.seen((seed, tuple(p.values()), tuple(kw.values())))
    m.expect(np.array_equal(fine, cl_mc(m, seed, **p, ne=ne, nz=nz, nd=nd, be=be, bz=bz, **kw)), "opencl:reproducible")
    all_ = cl_mc(m, seed, **p, nd=nd, **kw)
    m.expect(all_.sum() <= kw["n"] * kw["trials"], "opencl:more-recorded-than-launched")
    m.expect(bool((fine.sum((0, 1)) <= all_.sum((0, 1))).all()), "opencl:directions-without-limits")
    e = cl_mc(m, seed, **p, ne=ne, nd=nd, be=be, **kw)
    m.small(abs(e.sum((0, 1)) - all_.sum((0, 1))).sum(), 0.0, "opencl:energy-bins-lose-nothing")
    slack = 4 + 1e-4 * fine.sum()
    c = cl_mc(m, seed, **p, ne=ne // 4, nz=nz // 2, nd=nd // 4, be=be * 4, bz=bz * 2, **kw)
    agg = fine.reshape(ne // 4, 4, nz // 2, 2, nd // 4, 4, nd // 4, 4).sum((1, 3, 5, 7))
    m.small(abs(agg - c).sum(), slack, "opencl:coarser-bins", f"{p}")
    c = cl_mc(m, seed, **p, ne=ne // 2, nz=nz // 2, nd=nd, be=be, bz=bz, **kw)
    m.small(abs(c - fine[: ne // 2, : nz // 2]).sum(), slack, "opencl:fewer-bins")
    # odd direction bins, one bin, and logarithmic depths
    for nd2, mode in ((5, "log"), (1, "linear"), (101, "log")):
        c = cl_mc(m, seed, **p, nd=nd2, mode=mode, **kw)
        m.expect(c.sum() == all_.sum(), "opencl:direction-bins-lose-nothing")


@PROP.scenario("opencl-concurrent", rounds=2, thorough_rounds=12)
def opencl_concurrent(m):
    """work items run on eight threads and meet in few bins: no count is lost, and the result is that of one after the other"""
    p = dict(draw(m.rng), sig=float(m.rng.choice([60, 75, 85])))
    seed = int(m.rng.integers(1 << 30))
    kw = dict(n=4000, trials=20, steps=int(m.rng.choice([60, 120])), nd=int(m.rng.choice([1, 2])))
    want = cl_mc(m, seed, **p, **kw)
    try:
        opencl_host.threads = 8
        for _ in range(m.n(3, 8)):
            got = cl_mc(m, seed, **p, **kw)
            m.expect(np.array_equal(got, want), "opencl:concurrent-counts", f"{got.sum() - want.sum():+.0f} of {want.sum():.0f}")
            m.seen((seed, _))
    finally:
        opencl_host.threads = 1


@PROP.scenario("opencl-model", rounds=4, thorough_rounds=24)
def opencl_model(m):
    p = draw(m.rng)
    seed = int(m.rng.integers(1 << 30))
    ne, nz, nd, be = 20, 24, 4, p["E"] / 20
    steps = int(m.rng.choice([20, 100, 400]))
    N = m.n(20000, 60000)
    ref = reference(m.rng, p["E"], p["Z"], p["rho"], p["A"], p["sig"], p["om"], N, steps)
    log = bool(m.rng.integers(2))
    q = np.log(ref[1] + 1) if log else ref[1]
    bz = max(float(np.quantile(q, 0.9)) / 20, 1e-3)
    h = cl_mc(m, seed, **p, ne=ne, nz=nz, nd=nd, be=be, bz=bz, n=N // 10, trials=10, steps=steps, mode="log" if log else "linear")
    m.seen(h.reshape(1, -1))
    compare(m, h, ref_hist(ref, p["E"], ne, be, nz, bz, nd, log), "opencl", f"{p} log={log}")
    y, want = cl_mc(m, seed, **p, n=N // 10, trials=10, steps=steps).sum() / N, len(ref[0]) / N
    m.small(abs(y - want), 0.01 + 6 * math.sqrt(want * (1 - want) / N), "opencl:yield", f"{y:.4f} against {want:.4f} {p}")
    m.sample(**p, yield_=y, reference=want)


def cell():
    return Cell(sg_num=225, atom_data=[(28, 0.0, 0.0, 0.0, 1.0, 0.0035)], abc=(0.35236,) * 3, abc_units="nm", angles=(90.0, 90.0, 90.0), angles_units="deg")


@PROP.scenario("simulator", rounds=3, thorough_rounds=12)
def simulator(m):
    """the simulator class: repeats runs until enough electrons are recorded"""
    om = float(m.rng.choice([0.0, 0.0, 40.0]))
    kV = float(m.rng.choice([15.0, 20.0, 30.0]))
    be = float(m.rng.choice([0.5, 1.0, 2.0]))
    extra = int(m.rng.choice([0, 2, 4]))
    nz, nd = int(m.rng.choice([20, 80])), int(m.rng.choice([5, 8, 21]))
    mass = int(m.rng.choice([1, 3000, 12000]))
    with quiet():
        s = m.call(ebsd_mc.MonteCarloSimulator, cell=cell(), kV=kV, incidence_angle=70.0, binsize_exit_energy=be, n_energy_bins_extra=extra, n_depth_bins=nz,
                   n_direction_bins=nd, min_histogram_mass=mass, omega=om, n_max_steps_override=200)
        np.random.seed(int(m.rng.integers(1 << 30)))
        before = len(opencl_host.launches)
        h, total = m.call(s.run_simulation, n_electrons=300, n_trials_per_electron=10)
    runs = len(opencl_host.launches) - before
    h = h.cpu().double().numpy()
    m.need(h.shape == (int(kV / be), nz, nd, nd), "simulator:shape", f"{h.shape}")
    m.seen(h.reshape(1, -1))
    m.expect(bool((h >= 0).all() and np.isfinite(h).all()), "simulator:non-negative")
    m.expect(total == runs * 3000, "simulator:electrons-counted", f"{total} after {runs} runs of 3000")
    m.expect(mass <= h.sum() <= total, "simulator:mass", f"{h.sum()} of {total}, wanted {mass}")
    if om == 0:
        m.expect(np.array_equal(h, h[..., ::-1]), "simulator:mirror-symmetric")
    m.expect(bool((2 * h == np.round(2 * h)).all()), "simulator:whole-counts")
    # the beam is tilted along x: the electrons leave forward
    x = h.sum((0, 1, 3 if om == 0 else 3))
    if om == 0 and h.sum() > 2000:
        m.expect(x[(nd + 1) // 2 :].sum() > 1.2 * x[: nd // 2].sum(), "simulator:forward", f"{x}")


@PROP.scenario("simulator-setup", rounds=3, thorough_rounds=16)
def simulator_setup(m):
    """the simulator class at any incidence, with either kind of depth bins: its histogram is that of the beam, the material and the bins it was given"""
    sig, om = float(m.rng.choice([0.0, 20.0, 45.0, 60.0, 70.0, 80.0])), float(m.rng.choice([0.0, 0.0, 40.0, 130.0]))
    kV, be = float(m.rng.choice([10.0, 20.0, 30.0])), float(m.rng.choice([0.5, 1.0, 2.0]))
    extra = int(m.rng.choice([0, 1, 4]))
    log = bool(m.rng.integers(2))
    nz, bz, nd = 40, float(m.rng.choice([0.1, 0.2])) if log else float(m.rng.choice([5.0, 20.0])), int(m.rng.choice([4, 9]))
    n = m.n(2000, 6000)
    with quiet():
        s = m.call(ebsd_mc.MonteCarloSimulator, cell=cell(), kV=kV, incidence_angle=sig, binsize_exit_energy=be, binsize_exit_depth=bz, n_depth_bins=nz, depth_mode="log" if log else "linear",
                   n_direction_bins=nd, n_energy_bins_extra=extra, min_histogram_mass=1, omega=om, n_max_steps_override=300)
        np.random.seed(int(m.rng.integers(1 << 30)))
        h, total = m.call(s.run_simulation, n_electrons=n, n_trials_per_electron=10)
    h = h.cpu().double().numpy()
    ne = int(kV // be)
    m.need(h.shape == (ne, nz, nd, nd), "setup:shape", f"{h.shape}")
    m.seen(h.reshape(1, -1))
    # nickel: four atoms in the cubic cell
    ref = reference(m.rng, kV + extra * be, 28.0, 4 * 58.6934 / 6.02214e23 / (0.35236e-7) ** 3, 58.6934, sig, om, 20000, 300)
    r = ref_hist(ref, kV + extra * be, ne + extra, be, nz, bz, nd, log)[extra:]
    if om == 0:
        r = (r + r[..., ::-1]) / 2
    compare(m, h, r, "setup", f"{sig} {om} {kV} {be} {extra} log={log} {bz} {nd}")
    y, want = h.sum() / total, r.sum() / 20000
    m.small(abs(y - want), 0.01 + 6 * math.sqrt(want * (1 - want) / 20000), "setup:yield", f"{y:.4f} against {want:.4f}: {sig} {om} {kV} {be} {extra} log={log}")
    m.sample(sigma=sig, omega=om, kV=kV, extra=extra, yield_=y, reference=want)


@PROP.scenario("automatic-steps", rounds=1, thorough_rounds=6)
def automatic_steps(m):
    """without a given number of steps the simulator takes the first of its step counts that fills every energy bin"""
    kV, be = float(m.rng.choice([10.0, 15.0])), float(m.rng.choice([1.0, 2.0, 5.0]))
    np.random.seed(int(m.rng.integers(1 << 30)))
    before = len(opencl_host.launches)
    with quiet():
        s = m.call(ebsd_mc.MonteCarloSimulator, cell=cell(), kV=kV, incidence_angle=70.0, binsize_exit_energy=be, n_energy_bins_extra=0, n_depth_bins=40, n_direction_bins=5,
                   min_histogram_mass=1000, find_steps_fraction=2e-3)
        runs = len(opencl_host.launches) - before
        h, total = m.call(s.run_simulation, n_electrons=2000, n_trials_per_electron=10)
    h = h.cpu().double().numpy()
    m.seen(h.reshape(1, -1), tag=s.n_max_steps)
    m.expect(isinstance(s.n_max_steps, int) and s.n_max_steps % 250 == 0 and 250 <= s.n_max_steps <= 2000 and 1 <= runs <= 8, "automatic-steps:steps", f"{s.n_max_steps} after {runs} runs")
    m.expect(1000 <= h.sum() <= total, "automatic-steps:mass", f"{h.sum()} of {total}")
    m.sample(kV=kV, steps=s.n_max_steps, runs=runs, marginal=torch.tensor(h.sum((1, 2, 3))))


@PROP.scenario("resampling", rounds=6, thorough_rounds=40)
def resampling(m):
    """logarithmic depth bins onto linear ones: the density (counts per nm) at the bin centres is interpolated"""
    nd = int(m.rng.integers(1, 4))
    nz, bz = int(m.rng.choice([20, 40, 80])), float(m.rng.choice([0.05, 0.1, 0.125]))
    kV, be = 10.0, 2.0
    with quiet():
        s = m.call(ebsd_mc.MonteCarloSimulator, cell=cell(), kV=kV, incidence_angle=70.0, binsize_exit_energy=be, binsize_exit_depth=bz, n_depth_bins=nz, n_direction_bins=nd, n_max_steps_override=10)
    edges = np.exp(bz * np.arange(nz + 1)) - 1
    mid, w = (edges[1:] + edges[:-1]) / 2, np.diff(edges)
    lb = float(m.rng.uniform(1.1, 3) * mid[0] * 2)
    nl = int(min(200, (mid[-1] - 1e-3) / lb))
    m.need(nl >= 2, "oracle:bins")
    x = lb * (np.arange(nl) + 0.5)
    h = m.rng.poisson(50, (5, nz, nd, nd)).astype(float) * np.exp(-mid / mid[-1] * 3)[None, :, None, None] * w[None, :, None, None]
    H = torch.from_numpy(h).float()
    m.seen(h.reshape(1, -1))
    dens = h / w[None, :, None, None]
    scale = abs(dens).max()
    got = m.shape(m.call(s.resample_to_linear, H, nl, lb, "linear"), (5, nl, nd, nd), "resample:shape")
    i = np.searchsorted(mid, x).clip(1, nz - 1)
    t = ((x - mid[i - 1]) / (mid[i] - mid[i - 1]))[None, :, None, None]
    want = dens[:, i - 1] * (1 - t) + dens[:, i] * t
    m.small(abs(got.double().numpy() - want) / scale, 2e-3, "resample:linear", f"{nz} bins of {bz}, {nl} of {lb}")
    # a straight line stays one with either rule, a parabola with the quadratic one
    a, b, c = m.rng.uniform(0.1, 1, 3)
    line = (a + b * mid / mid[-1]) * w
    quad = (a + b * mid / mid[-1] + c * (mid / mid[-1]) ** 2) * w
    for f, rule, g in ((line, "linear", a + b * x / mid[-1]), (line, "quadratic", a + b * x / mid[-1]), (quad, "quadratic", a + b * x / mid[-1] + c * (x / mid[-1]) ** 2)):
        T = torch.from_numpy(np.broadcast_to(f[None, :, None, None], h.shape).copy()).float()
        got = m.call(s.resample_to_linear, T, nl, lb, rule).double().numpy()
        m.small(abs(got - g[None, :, None, None]).max(), 5e-3, f"resample:{rule}-exact", f"{nz} bins of {bz}")
    got = m.plain(s.resample_to_linear, H, nl, lb)
    m.expect(bool((got >= 0).all()), "resample:non-negative")
    m.close(m.plain(s.resample_to_linear, H, nl, lb, "quadratic"), got, 0.0, "resample:default-rule")
    m.small(abs(float(m.call(s.resample_to_linear, H, nl, lb, normalize=True).double().sum()) - 1), 1e-4, "resample:normalised")
