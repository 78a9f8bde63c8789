"""C33 calls leave their inputs and global state alone."""
import contextlib
import io
import warnings

import numpy as np
import torch

from vlib import guard, registry, sim, workloads
from vlib.core import Prop

PROP = Prop(
    "C33",
    "a case is one call: all bytes of the memory behind its arguments, the earlier results and the global state are compared before and after",
    ["computations that draw random numbers by design advance torch's generator; nothing advances those of numpy or Python (the OpenCL simulation, which seeds its kernels from numpy, is exempt)",
     "a result may share memory with an input (a reshaped view); writing to a result that shares no memory with the caller's tensors must not change later calls"],
)


def operations(m):
    return guard.run(m, "construction", registry.ops)


FIRST_USE = {"environ", "filters", "path", "threads_alive", "signals", "recursion"}


def watch(m, name, fn, rows, random=False, others=()):
    """one watched call"""
    m.watched = getattr(m, "watched", 0) + 1
    m.seen(np.array([[m.watched]]), tag=name)
    held = [guard.Held(r) for r in rows]
    with warnings.catch_warnings(), sim.quiet():
        warnings.simplefilter("ignore")
        before = guard.state(random)
        out = guard.run(m, name, fn, *rows)
        diff = guard.difference(before, guard.state(random))
        if diff and set(diff) <= FIRST_USE:
            # importing parts of torch on first use changes these: only what a call does every time counts
            before = guard.state(random)
            out = guard.run(m, name, fn, *rows)
            diff = guard.difference(before, guard.state(random))
    m.expect(not diff, "global-state", f"{name}: {diff}")
    for i, h in enumerate(held):
        c = h.changed()
        m.expect(c is None, "input-changed", f"{name} argument {i}: {c}")
    for who, h in others:
        c = h.changed()
        m.expect(c is None, "earlier-result-changed", f"{name} changed a result of {who}: {c}")
    return out


def same(a, b, tol, eps=0.0):
    for x, y in zip(a, b):
        if x.shape != y.shape or x.dtype != y.dtype:
            return False
        if not x.dtype.is_floating_point and not x.dtype.is_complex:
            if not torch.equal(x, y):
                return False
            continue
        e = max(torch.finfo(x.dtype).eps, eps)
        f = torch.isfinite(x)
        if not torch.equal(f, torch.isfinite(y)):
            return False
        x, y = x[f], y[f]
        if x.numel() and float((x - y).abs().max()) > tol * e * (1 + float(x.abs().max())):
            return False
    return True


def poison(outs, keep):
    """overwrite results that do not share memory with the caller's tensors"""
    n = 0
    for o in outs:
        if any(guard.overlap(o, k) for k in keep) or any(s == 0 and d > 1 for s, d in zip(o.stride(), o.shape)):
            continue
        with torch.no_grad():
            o.detach().fill_(float("nan") if o.dtype.is_floating_point or o.dtype.is_complex else 77 if o.dtype != torch.bool else True)
        n += 1
    return n


def layouts(m, rows):
    yield "plain", [r.clone() for r in rows]
    k = str(m.rng.choice(list(guard.LAYOUTS)))
    yield k, [guard.LAYOUTS[k](r) for r in rows]
    yield "expanded", [r[:1].expand(r.shape) for r in rows]


@PROP.scenario("row-operations", rounds=1, thorough_rounds=6)
def row_operations(m):
    for op in operations(m):
        for dt in op.dtypes:
            n = int(m.rng.integers(9, 30))
            rows = op.rows(m.rng, n, dt)
            first = None
            for name, x in layouts(m, rows):
                out = watch(m, op.name, op, x)
                if name == "plain":
                    first = [o.detach().clone() for o in out]
            # a second call, its results kept, then the first results overwritten
            x = [r.clone() for r in rows]
            kept = watch(m, op.name, op, x)
            held = [(op.name, guard.Held(o)) for o in kept]
            y = op.rows(m.rng, int(m.rng.integers(9, 30)), dt)
            other = watch(m, op.name, op, y, others=held)
            want = [o.detach().clone() for o in other]
            n_over = poison(kept, x + y + other)
            again = watch(m, op.name, op, y)
            m.expect(same(want, again, op.tol), "result-aliases-library-state", f"{op.name}: overwriting a returned tensor changes later results")
            m.expect(same(first, watch(m, op.name, op, [r.clone() for r in rows]), op.tol), "history-changes-result", op.name)
            m.need(n_over >= 0, "observed")


@PROP.scenario("gradients", rounds=1, thorough_rounds=3)
def gradients(m):
    """arguments that take part in a differentiation cannot be written in place at all"""
    for op in operations(m):
        dt = op.dtypes[-1]
        rows = op.rows(m.rng, 9, dt)
        plain = guard.run(m, op.name, op, *[r.clone() for r in rows])
        x = [r.clone().requires_grad_(r.dtype.is_floating_point) for r in rows]
        out = watch(m, op.name, op, x)
        m.expect(same(plain, [o.detach() for o in out], op.tol), "gradient-mode-changes-result", op.name)
        with torch.no_grad():
            m.expect(same(plain, watch(m, op.name, op, [r.clone() for r in rows]), op.tol), "no-grad-changes-result", op.name)


def build(m, name):
    f, random = workloads.ALL[name]
    r = np.random.default_rng(int(m.rng.integers(1 << 40)))
    x, run = f(r)
    return x, run, random


def seeded(run, seed):
    def f(*x):
        torch.manual_seed(seed)
        return run(*x)

    return f


@PROP.scenario("computations", rounds=1, thorough_rounds=12)
def computations(m):
    slow = {"diffraction", "dynamical-master-pattern", "gradient-refinement", "pattern-centre-fit"}
    for name in workloads.ALL:
        for rep in range(1 if name in slow else 3):
            x, run, random = build(m, name)
            plain = [t.clone() for t in x]
            if random:
                with sim.quiet():
                    torch.manual_seed(7)
                    guard.run(m, name, run, *[t.clone() for t in x])
                    a = torch.get_rng_state()
                    torch.manual_seed(7)
                    b = torch.get_rng_state()
                # only the generator of torch may move, and the seed decides the result
                del a, b
            call = seeded(run, 7) if random else run
            out = watch(m, name, call, plain, random)
            first = [o.detach().clone() for o in out]
            k = str(m.rng.choice(list(guard.LAYOUTS)))
            y = [guard.LAYOUTS[k](t) if t.ndim else t.clone() for t in x]
            held = [(name, guard.Held(o)) for o in out]
            res = watch(m, name, call, y, random, others=held)
            m.expect(same(first, res, 5e3, 1.2e-7) or name in LOOSE, "layout-changes-result", f"{name} {k}")
            if rep == 0:
                poison(out, plain + y)
                m.expect(same(first, watch(m, name, call, [t.clone() for t in x], random), 5e3, 1.2e-7) or name in LOOSE, "result-aliases-library-state", f"{name}: overwriting a returned tensor changes later results")


# iterative computations whose branches may depend on the last bit
LOOSE = {"gradient-refinement", "grid-refinement", "online-components"}


@PROP.scenario("history", rounds=2, thorough_rounds=20)
def history(m):
    """results kept over a sequence of unrelated calls"""
    names = [n for n in workloads.ALL if n not in ("diffraction", "dynamical-master-pattern", "pattern-centre-fit")]
    tables = {k: guard.Held(v) for k, v in guard.module_tensors().items()}
    kept, firsts = [], []
    ops = operations(m)
    for i in range(m.n(30, 60)):
        if m.rng.random() < 0.3:
            name = str(m.rng.choice(names))
            x, run, random = build(m, name)
            call, tol = (seeded(run, 7) if random else run), 2e4
        else:
            op = ops[int(m.rng.integers(len(ops)))]
            name, call, random, tol = op.name, op, False, op.tol
            x = op.rows(m.rng, int(m.rng.integers(9, 40)), op.dtypes[int(m.rng.integers(len(op.dtypes)))])
        with torch.set_grad_enabled(bool(m.rng.integers(2)) or name == "gradient-refinement"):
            out = watch(m, name, call, x, random)
        kept += [(name, guard.Held(o)) for o in list(out) + list(x)]
        if i < 8:
            firsts.append((name, call, x, [o.detach().clone() for o in out], random, tol))
    for name, h in kept:
        m.expect(h.changed() is None, "earlier-result-changed", f"{name}: {h.changed()}")
    for name, call, x, want, random, tol in firsts:
        got = watch(m, name, call, x, random)
        m.expect(same(want, [o.detach() for o in got], tol) or name in LOOSE, "history-changes-result", name)
    for k, h in tables.items():
        m.expect(h.changed() is None, "library-constant-changed", f"{k}: {h.changed()}")
    m.need(len(tables) > 0, "tables-observed")
