"""C34 results depend on the inputs only: not on the batch, the memory layout, earlier calls or memory contents."""
import contextlib
import time
import warnings
from unittest import mock

import numpy as np
import torch

from vlib import guard, laue, ref, registry, sim, workloads
from vlib.core import Prop

PROP = Prop(
    "C34",
    "a case is one row of one operation in one batch composition, layout or memory state, compared with the same row in a plain batch",
    ["row-wise operations have at least one batch dimension; operations on channels, images and observations have exactly one",
     "agreement is to rounding: vectorised and scalar arithmetic differ in the last bits, so a multiple of the machine precision is allowed per operation",
     "uninitialised memory is what torch.empty, numpy.empty and their relatives return: it is filled with NaN or extreme integers"],
)


def dev(a, b, eps):
    """largest difference in units of eps * size of the row, or None when the results cannot be compared"""
    if a.shape != b.shape or a.dtype != b.dtype:
        return None
    if a.numel() == 0:
        return 0.0
    if not (a.dtype.is_floating_point or a.dtype.is_complex):
        return 0.0 if torch.equal(a, b) else None
    a, b = a.detach().reshape(len(a), -1), b.detach().reshape(len(b), -1)
    fin = torch.isfinite(a)
    if not torch.equal(fin, torch.isfinite(b)):
        return None
    if not fin.all():
        bad = ~fin
        if not bool(((a[bad] == b[bad]) | (torch.isnan(a[bad]) & torch.isnan(b[bad]))).all()):
            return None
        a, b = torch.where(fin, a, 0 * a), torch.where(fin, b, 0 * b)
        a, b = torch.nan_to_num(a), torch.nan_to_num(b)
    size = 1 + a.abs().amax(1)
    return float(((a - b).abs().amax(1) / size).max()) / eps


def agree(m, op, want, got, key, tag, dt):
    eps = torch.finfo(dt).eps
    ok = len(want) == len(got)
    m.expect(ok, f"{key}:outputs", f"{op.name} {tag}")
    for k, (a, b) in enumerate(zip(want, got)):
        if getattr(op, "levels", False) and a.shape == b.shape and a.dtype == b.dtype:
            d = (a.int() - b.int()).abs()
            m.expect(bool(((d <= 1) | (d == 255)).all()), key, f"{op.name} {tag} output {k}: {int((d > 1).sum())} values differ")
            continue
        if op.orbit and a.shape == b.shape:
            b = nearest(a, b, op.orbit)
        d = dev(a, b, eps)
        m.expect(d is not None and d <= op.tol, key, f"{op.name} {tag} {dt} output {k}: " + (f"shape, type or special values {tuple(a.shape)} {a.dtype} / {tuple(b.shape)} {b.dtype}" if d is None else f"{d:.3g} machine precisions, allowed {op.tol}"))
    m.seen(np.concatenate([np.full((1, 1), float(m.evaluations)), np.full((1, 1), float(len(tag)))]), tag=(op.name, key, tag))


def operations(m):
    return guard.run(m, "construction", registry.ops)


def nearest(a, b, groups):
    """the equivalents of the misorientations b that are closest to a: which of equally small ones is returned may depend on rounding"""
    if not len(b):
        return b
    x, y = a.detach().double().reshape(-1, 4).numpy(), b.detach().double().reshape(-1, 4).numpy()
    g, h = (np.asarray(laue.GROUPS[k], float) for k in groups)
    best, score = y.copy(), np.full(len(y), -2.0)
    for s, t in ((g, h), (h, g)):
        e = ref.qmul(ref.qmul(s[None, :, None], y[:, None, None]), t[None, None, :]).reshape(len(y), -1, 4)
        c = (e * x[:, None]).sum(-1)
        k = np.abs(c).argmax(1)
        i = np.arange(len(y))
        better = np.abs(c[i, k]) > score
        cand = e[i, k] * np.sign(c[i, k])[:, None]
        best[better], score[better] = cand[better], np.abs(c[i, k])[better]
    return torch.tensor(best).to(b.dtype).reshape(b.shape)


def call(m, op, rows):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return guard.run(m, op.name, op, *rows)


@contextlib.contextmanager
def poisoned():
    """freshly allocated memory holds NaN"""
    old = torch.are_deterministic_algorithms_enabled(), torch.is_deterministic_algorithms_warn_only_enabled()
    real, like = np.empty, np.empty_like

    def fill(a):
        if a.dtype.kind in "fc":
            a.fill(np.nan)
        elif a.dtype.kind in "iu":
            a.fill(np.iinfo(a.dtype).max)
        return a

    torch.use_deterministic_algorithms(True, warn_only=True)
    torch.utils.deterministic.fill_uninitialized_memory = True
    try:
        with mock.patch.object(np, "empty", lambda *a, **k: fill(real(*a, **k))), mock.patch.object(np, "empty_like", lambda *a, **k: fill(like(*a, **k))):
            yield
    finally:
        torch.use_deterministic_algorithms(old[0], warn_only=old[1])


def plain(m, op, rng, n, dt):
    rows = op.rows(rng, n, dt)
    out = [o.detach().clone() for o in call(m, op, rows)]
    for o in out:
        m.need(o.shape[:1] == (n,), "rows:one-result-per-row", f"{op.name}: {tuple(o.shape)} for {n} rows")
    return rows, out


def each(m):
    for op in operations(m):
        for dt in op.dtypes:
            yield op, dt


@PROP.scenario("batches", rounds=1, thorough_rounds=8)
def batches(m):
    for op, dt in each(m):
        n = int(m.rng.choice([6, 12, 24, 24, 30]))
        rows, want = plain(m, op, m.rng, n, dt)
        # alone
        for i in m.rng.permutation(n)[: m.n(4, 12)]:
            agree(m, op, [o[i : i + 1] for o in want], call(m, op, [r[i : i + 1] for r in rows]), "batches:alone", "row", dt)
        # another order, a part, with repetitions
        for kind, idx in (("permuted", m.rng.permutation(n)), ("part", np.sort(m.rng.permutation(n)[: n // 2])), ("repeated", m.rng.integers(0, n, int(m.rng.integers(2, 3 * n))))):
            i = torch.tensor(idx)
            agree(m, op, [o[i] for o in want], call(m, op, [r[i] for r in rows]), "batches:composition", kind, dt)
        # among other rows
        other = op.rows(m.rng, 17, dt)
        p = torch.tensor(m.rng.permutation(n + 17))
        out = call(m, op, [torch.cat((r, o))[p] for r, o in zip(rows, other)])
        inv = torch.argsort(p)[:n]
        agree(m, op, want, [o[inv] for o in out], "batches:composition", "among others", dt)
        if not op.empty:
            continue
        # no rows at all
        out = call(m, op, [r[:0] for r in rows])
        m.expect(all(o.shape == (0,) + w.shape[1:] and o.dtype == w.dtype for o, w in zip(out, want)), "batches:empty", f"{op.name} {dt}: {[tuple(o.shape) for o in out]}")


@PROP.scenario("shapes", rounds=1, thorough_rounds=8)
def shapes(m):
    for op, dt in each(m):
        if op.dims == 1:
            continue
        n = 24
        rows, want = plain(m, op, m.rng, n, dt)
        for sh in [(2, 3, 4), (1, 24), (24, 1), (4, 6), (2, 1, 3, 4)]:
            out = call(m, op, [r.reshape(sh + r.shape[1:]) for r in rows])
            good = all(tuple(o.shape) == sh + tuple(w.shape[1:]) for o, w in zip(out, want))
            m.expect(good, "shapes:shape", f"{op.name} {sh}: {[tuple(o.shape) for o in out]}")
            if good:
                agree(m, op, want, [o.reshape(w.shape) for o, w in zip(out, want)], "shapes:values", f"{sh}", dt)
        # batch dimensions exchanged in memory
        out = call(m, op, [r.reshape((4, 6) + r.shape[1:]).transpose(0, 1).contiguous().transpose(0, 1) for r in rows])
        if all(tuple(o.shape) == (4, 6) + tuple(w.shape[1:]) for o, w in zip(out, want)):
            agree(m, op, want, [o.reshape(w.shape) for o, w in zip(out, want)], "shapes:values", "exchanged", dt)
        if not op.empty:
            continue
        out = call(m, op, [r[:0].reshape((0, 3) + r.shape[1:]) for r in rows])
        m.expect(all(tuple(o.shape) == (0, 3) + tuple(w.shape[1:]) for o, w in zip(out, want)), "shapes:shape", f"{op.name} (0, 3): {[tuple(o.shape) for o in out]}")


@PROP.scenario("layouts", rounds=1, thorough_rounds=8)
def layouts(m):
    for op, dt in each(m):
        n = int(m.rng.choice([5, 16, 23]))
        rows, want = plain(m, op, m.rng, n, dt)
        for name, f in guard.LAYOUTS.items():
            agree(m, op, want, call(m, op, [f(r) for r in rows]), "layouts:values", name, dt)
        agree(m, op, [o[:1].expand(o.shape) for o in want], call(m, op, [r[:1].expand(r.shape) for r in rows]), "layouts:values", "expanded", dt)
        with torch.no_grad():
            agree(m, op, want, call(m, op, rows), "layouts:values", "no grad", dt)


@PROP.scenario("repeats", rounds=1, thorough_rounds=8)
def repeats(m):
    """the same call again after others, and with other memory contents"""
    for op, dt in each(m):
        n = int(m.rng.choice([5, 16, 23]))
        rows, want = plain(m, op, m.rng, n, dt)
        call(m, op, op.rows(m.rng, int(m.rng.integers(7, 40)), dt))
        agree(m, op, want, call(m, op, rows), "repeats:values", "again", dt)
        with poisoned():
            got = call(m, op, rows)
        agree(m, op, want, got, "repeats:memory", "poisoned", dt)
        one = call(m, op, [r[:1] for r in rows])
        with poisoned():
            got = call(m, op, [r[:1] for r in rows])
        agree(m, op, one, got, "repeats:memory", "poisoned single row", dt)
    with poisoned():
        m.need(bool(torch.isnan(torch.empty(5)).all()) and np.isnan(np.empty(3)).all(), "repeats:observed", "the memory was not filled")


@contextlib.contextmanager
def ambient(kind):
    """another thread count, default precision or gradient mode than usual"""
    old = torch.get_num_threads(), torch.get_default_dtype()
    try:
        with torch.no_grad() if kind == "no gradients" else torch.inference_mode() if kind == "inference" else contextlib.nullcontext():
            if kind == "threads":
                torch.set_num_threads(1 if old[0] > 1 else 4)
            if kind == "default precision":
                torch.set_default_dtype(torch.float64 if old[1] == torch.float32 else torch.float32)
            yield
    finally:
        torch.set_num_threads(old[0])
        torch.set_default_dtype(old[1])


@PROP.scenario("settings", rounds=1, thorough_rounds=6)
def settings(m):
    """process-wide settings are not inputs: the results are the same under any of them"""
    for op, dt in each(m):
        rows, want = plain(m, op, m.rng, int(m.rng.choice([5, 12, 24])), dt)
        for kind in ("threads", "no gradients", "inference", "default precision"):
            # torch's sparse products (harmonic transforms) do not run in inference mode
            if kind == "inference" and op.name.split(".")[-1] in ("fsht", "isht", "fdlt", "idlt"):
                continue
            # these count in the default precision by design
            if kind == "default precision" and (op.name == "mutual_information" or op.name.startswith("batch_binned_nmi")):
                continue
            with ambient(kind):
                got = [o.detach().clone() for o in call(m, op, rows)]
            agree(m, op, want, got, "settings:" + kind.replace(" ", "-"), kind, dt)


@PROP.scenario("precision", rounds=1, thorough_rounds=8)
def precision(m):
    for op, dt in each(m):
        n = 24
        rows, want = plain(m, op, m.rng, n, dt)
        if op.keeps:
            m.expect(all(o.dtype == dt for o in want if o.dtype.is_floating_point), "precision:type", f"{op.name}: {dt} gave {[o.dtype for o in want]}")
        if dt == torch.float32 and torch.float64 in op.dtypes and op.cont:
            double = call(m, op, [r.double() for r in rows])
            for k, (a, b) in enumerate(zip(want, double)):
                if not a.dtype.is_floating_point:
                    continue
                d = dev(a.double(), b.double(), torch.finfo(torch.float32).eps)
                m.expect(d is not None and d <= op.prec, "precision:agreement", f"{op.name} output {k}: single and double precision differ by {d} machine precisions, allowed {op.prec}")
        if dt == torch.float64 and op.keeps and not op.orbit:
            smooth(m, op, rows)
        m.seen(np.full((1, 1), float(m.evaluations)), tag=op.name)


def smooth(m, op, rows):
    """results in double precision vary smoothly on the scale of single precision: the second difference over a step of 1e-6 is
    of the order of 1e-12, a detour through single precision leaves 1e-8 to 1e-7"""
    if not all(bool((r != r.round()).any()) for r in rows):
        return
    step = [1e-6 * torch.tensor(m.rng.normal(size=tuple(r.shape))) for r in rows]
    a, b, c = (call(m, op, [r + k * s for r, s in zip(rows, step)]) for k in (-1, 0, 1))
    for k, (x, y, z) in enumerate(zip(a, b, c)):
        if not x.dtype.is_floating_point or x.dtype != torch.float64:
            continue
        d = (x + z - 2 * y).abs().reshape(len(x), -1) / (1e-3 + y.abs().reshape(len(y), -1))
        d = d[torch.isfinite(d)]
        if d.numel():
            m.expect(float(d.median()) < 2e-9, "precision:double", f"{op.name} output {k}: second differences of {float(d.median()):.3g} at a step of 1e-6")


@PROP.scenario("large", rounds=1, thorough_rounds=3)
def large(m):
    """batches beyond common chunk sizes"""
    for op in operations(m):
        dt = op.dtypes[int(m.rng.integers(len(op.dtypes)))]
        cost = sum(r[0].numel() for r in op.rows(m.rng, 1, dt))
        n = m.n(1100, 9000) if cost <= 32 else m.n(60, 300)
        rows, want = plain(m, op, m.rng, n, dt)
        i = torch.tensor(np.r_[0, n - 1, m.rng.integers(0, n, 30)])
        agree(m, op, [o[i] for o in want], call(m, op, [r[i] for r in rows]), "large:values", f"{n} rows", dt)
        if cost > 16:
            continue
        # far beyond, where a few rows are quick enough: the rows repeat, so every block of the result has to be the same
        t = time.perf_counter()
        call(m, op, rows)
        k = 66_000 // n + 1
        if (time.perf_counter() - t) * k > m.n(0.5, 5):
            continue
        out = call(m, op, [r.repeat(k, *[1] * (r.dim() - 1)) for r in rows])
        m.expect(all(len(o) == k * n for o in out), "large:rows", f"{op.name} {k * n} rows")
        for j in (0, 1, k // 2, k - 1):
            agree(m, op, want, [o[j * n : (j + 1) * n] for o in out], "large:values", f"{k * n} rows, block {j}", dt)
        m.seen([k * n], tag=(op.name, "large"))


@PROP.scenario("computations", rounds=1, thorough_rounds=10)
def computations(m):
    """objects and pipelines: again, and with other memory contents"""
    slow = {"diffraction", "dynamical-master-pattern", "gradient-refinement", "pattern-centre-fit"}
    for name, (f, random) in workloads.ALL.items():
        for rep in range(m.n(1 if name in slow else 2, 3)):
            x, fn = f(np.random.default_rng(int(m.rng.integers(1 << 40))))

            def go():
                torch.manual_seed(11)
                with warnings.catch_warnings(), sim.quiet():
                    warnings.simplefilter("ignore")
                    return [o.detach().clone() for o in guard.run(m, name, fn, *[t.clone() for t in x])]

            first = go()
            again = go()
            with poisoned():
                filled = go()
            for key, got in (("again", again), ("memory", filled)):
                m.expect(len(first) == len(got), f"computations:{key}", name)
                for k, (a, b) in enumerate(zip(first, got)):
                    if name in LOOSE:
                        bad = a.shape != b.shape or not torch.equal(torch.isfinite(a.double()), torch.isfinite(b.double()))
                        m.expect(not bad, f"computations:{key}", f"{name} output {k}")
                        continue
                    d = dev(a.reshape(1, -1), b.reshape(1, -1), 1.2e-7)
                    m.expect(a.shape == b.shape and d is not None and d < 2e3, f"computations:{key}", f"{name} output {k}: {d}")
            m.seen(np.full((1, 1), float(m.evaluations)), tag=(name, rep))


LOOSE = {"gradient-refinement", "grid-refinement"}
