"""Runtime-monitoring core.

A *property check* (checks/cNN.py) is a set of scenarios.  A scenario drives the
real code of /repo through ``Mon.call`` (the client boundary: the call event is
recorded before the call, the return event after it, arguments are private copies)
and puts what came back before deterministic oracles with ``Mon.expect``.

Verdicts are three-valued:
  exit 0  held on everything observed
  exit 1  violated: line "VIOLATION property=<id> replay=<file>"
  exit 3  inconclusive (a scenario observed nothing, or the harness itself failed)
"""
import hashlib
import importlib
import json
import os
import random
import re
import sys
import time
import traceback
import zlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")

import numpy as np  # noqa: E402
import torch  # noqa: E402

from vlib.fuzz import Fuzz  # noqa: E402


class TargetRaised(Exception):
    """The code under test raised on an input the property covers."""

    def __init__(self, name, exc, how=()):
        super().__init__(f"{name} raised {type(exc).__name__}{' (' + ', '.join(how) + ')' if how else ''}: {str(exc)[:600]}")
        self.name = name
        self.exc = exc


def _names(fn):
    n = getattr(fn, "__qualname__", None) or getattr(fn, "name", None) or getattr(
        fn, "__name__", None
    )
    return n or type(fn).__name__


def clone_arg(a):
    if isinstance(a, torch.Tensor):
        if a.requires_grad and a.is_leaf:
            return a
        return a.clone()
    if isinstance(a, (list, tuple)):
        return type(a)(clone_arg(x) for x in a)
    return a


def describe(a, limit=24):
    if isinstance(a, torch.Tensor):
        flat = a.detach().reshape(-1)[:limit].tolist() if a.numel() else []
        return {
            "tensor": list(a.shape),
            "dtype": str(a.dtype).replace("torch.", ""),
            "head": [float(x) if not isinstance(x, (bool, complex)) else str(x) for x in flat],
        }
    if isinstance(a, np.ndarray):
        return {"array": list(a.shape), "head": [str(x) for x in a.reshape(-1)[:limit]]}
    if isinstance(a, (list, tuple)):
        return [describe(x, 6) for x in a[:limit]]
    if isinstance(a, dict):
        return {str(k): describe(v, 6) for k, v in list(a.items())[:limit]}
    if isinstance(a, (int, float, str, bool)) or a is None:
        return a
    return str(a)[:200]


class Stop(Exception):
    """A scenario ends early because an oracle has already refuted its premise."""


# the cheap checks repeat their scenarios on more generated inputs in the quick tier
QUICK_SCALE = {
    "C01": 2, "C02": 6, "C05": 4, "C06": 2, "C09": 5, "C10": 4, "C11": 2, "C12": 3, "C13": 6, "C18": 2, "C19": 2,
    "C20": 3, "C24": 4, "C27": 2, "C32": 2,
}


class Scenario:
    def __init__(self, name, fn, rounds, thorough_rounds):
        self.name = name
        self.fn = fn
        self.rounds = rounds
        self.thorough_rounds = thorough_rounds


class Prop:
    """Registry of the scenarios deciding one property."""

    def __init__(self, pid, rule, assumptions=()):
        self.pid = pid
        self.rule = rule
        self.assumptions = list(assumptions)
        self.scenarios = []

    def scenario(self, name, rounds=1, thorough_rounds=None):
        def deco(fn):
            quick = rounds * QUICK_SCALE.get(self.pid, 1)
            thorough = max(thorough_rounds or max(8, 8 * rounds), 2 * quick)
            self.scenarios.append(Scenario(name, fn, quick, thorough))
            return fn

        return deco


class Mon:
    def __init__(self, pid, tier, seed):
        self.pid = pid
        self.tier = tier
        self.seed = seed
        self.evaluations = 0
        self.distinct = set()
        self.samples = []
        self.calls = {}
        self.oracles = {}
        self.per_scenario = {}
        self.violations = {}
        self.current = None
        self.round = 0
        self.rng = None
        self.fuzz = None
        self.variants = {}
        self.gen = None
        self.max_seen = {}
        self.notes = []

    # -- workload helpers -------------------------------------------------
    @property
    def thorough(self):
        return self.tier == "thorough"

    def n(self, quick, thorough=None):
        return (thorough if thorough is not None else quick) if self.thorough else quick

    def start(self, scenario, rnd):
        self.current = scenario.name
        self.round = rnd
        s = zlib.crc32(f"{self.pid}/{scenario.name}/{self.seed}/{rnd}".encode())
        self.fuzz = Fuzz(f"{self.pid}/{scenario.name}", self.seed, rnd)
        self.fuzz.used = self.variants
        self.rng = np.random.default_rng([self.seed & 0xFFFFFFFF, s, rnd])
        self.gen = torch.Generator().manual_seed(s)
        torch.manual_seed(s)
        np.random.seed(s & 0x7FFFFFFF)
        random.seed(s)

    # -- events -----------------------------------------------------------
    def call(self, fn, *args, **kw):
        """Call code under test with private copies of the tensor arguments, in the layouts and batches that vlib.fuzz picks."""
        name = _names(fn)
        rec = self.calls.setdefault(name, [0, 0])
        rec[0] += 1
        try:
            out = self.fuzz.call(fn, args, kw) if self.fuzz else fn(*[clone_arg(a) for a in args], **{k: clone_arg(v) for k, v in kw.items()})
        except Exception as e:  # noqa: BLE001
            raise TargetRaised(name, e, self.fuzz.last if self.fuzz else ()) from e
        rec[1] += 1
        return out

    def plain(self, fn, *args, **kw):
        """call() with contiguous copies and the batch as it is: for comparisons to the last bit."""
        fuzz, self.fuzz = self.fuzz, None
        try:
            return self.call(fn, *args, **kw)
        finally:
            self.fuzz = fuzz

    def rejects(self, fn, *args, key, **kw):
        """The call must raise rather than return a value."""
        name = _names(fn)
        rec = self.calls.setdefault(name, [0, 0])
        rec[0] += 1
        try:
            out = fn(*[clone_arg(a) for a in args], **{k: clone_arg(v) for k, v in kw.items()})
        except Exception:  # noqa: BLE001
            return self.expect(True, key)
        rec[1] += 1
        return self.expect(False, key, f"{name}{args} returned {describe(out)} instead of raising")

    def seen(self, *arrays, tag=""):
        """Count observed cases: rows of a 2-D array, or one case for a scalar/obj."""
        for a in arrays:
            if isinstance(a, torch.Tensor):
                a = a.detach().cpu().to(torch.float64).numpy() if a.dtype.is_floating_point else a.cpu().numpy()
            if isinstance(a, np.ndarray) and a.size == 0:
                continue
            if isinstance(a, np.ndarray) and a.ndim >= 1:
                rows = np.ascontiguousarray(a.reshape(a.shape[0], -1))
                self.evaluations += rows.shape[0]
                self.per_scenario[self.current] = self.per_scenario.get(self.current, 0) + rows.shape[0]
                pre = hash((tag, self.current))
                if len(self.distinct) < 2_000_000:
                    for r in rows[:20000]:
                        self.distinct.add(hash((pre, r.tobytes())))
            else:
                self.evaluations += 1
                self.per_scenario[self.current] = self.per_scenario.get(self.current, 0) + 1
                self.distinct.add(hash((self.current, tag, repr(a))))

    def sample(self, **kw):
        if sum(1 for s in self.samples if s.get("scenario") == self.current) < 2:
            self.samples.append({"scenario": self.current, **{k: describe(v) for k, v in kw.items()}})

    # -- oracles ----------------------------------------------------------
    def expect(self, ok, key, msg="", **witness):
        """Oracle verdict on one observation; `key` names the mechanism."""
        if isinstance(ok, torch.Tensor):
            ok = bool(ok.all())
        self.oracles[key] = self.oracles.get(key, 0) + 1
        if not ok:
            v = self.violations.setdefault(
                key,
                {
                    "key": key,
                    "scenario": self.current,
                    "round": self.round,
                    "message": msg,
                    "witness": {k: describe(x) for k, x in witness.items()},
                    "count": 0,
                },
            )
            v["count"] += 1
        return bool(ok)

    def need(self, ok, key, msg="", **witness):
        """expect(), and abandon the scenario when it fails."""
        if not self.expect(ok, key, msg, **witness):
            raise Stop(key)

    def shape(self, out, shape, key):
        """The output must be a tensor of this shape (None = any size)."""
        ok = isinstance(out, torch.Tensor) and len(out.shape) == len(shape) and all(
            w is None or g == w for g, w in zip(out.shape, shape)
        )
        self.need(ok, key, f"expected tensor of shape {shape}, got "
                  f"{tuple(out.shape) if isinstance(out, torch.Tensor) else type(out).__name__}")
        return out

    def close(self, got, want, tol, key, msg="", rows=None, **witness):
        """|got - want| <= tol everywhere, NaN counts as a difference."""
        got = torch.as_tensor(got).detach()
        want = torch.as_tensor(want).detach()
        if tuple(got.shape) != tuple(want.shape):
            return self.expect(
                False, key, f"shape {tuple(got.shape)} != {tuple(want.shape)} {msg}", **witness
            )
        dt = torch.complex128 if (got.is_complex() or want.is_complex()) else torch.float64
        d = (got.to(dt) - want.to(dt)).abs()
        same = (got.to(dt) == want.to(dt))
        d = torch.where(same, torch.zeros_like(d), d)
        d = torch.where(torch.isnan(d), torch.full_like(d, float("inf")), d)
        return self.small(d, tol, key, msg, rows=rows, got=got, want=want, **witness)

    def small(self, d, tol, key, msg="", rows=None, **witness):
        d = torch.as_tensor(d).detach().to(torch.float64)
        if d.numel() == 0:
            return True
        d = torch.where(torch.isnan(d), torch.full_like(d, float("inf")), d)
        t = torch.as_tensor(tol, dtype=torch.float64)
        bad = d > t
        worst = float(d.max())
        self.max_seen[key] = max(self.max_seen.get(key, 0.0), worst)
        if not bool(bad.any()):
            return self.expect(True, key)
        i = int((d - t).reshape(-1).argmax())
        w = dict(witness)
        if rows is not None:
            r = i // max(1, d.numel() // max(1, d.shape[0])) if d.ndim else 0
            for name, arr in (rows.items() if isinstance(rows, dict) else {"input": rows}.items()):
                try:
                    w["row_" + name] = arr[r]
                except Exception:  # noqa: BLE001
                    pass
        tt = float(t.expand(d.shape).reshape(-1)[i]) if t.ndim else float(t)
        return self.expect(
            False,
            key,
            f"{msg} deviation {float(d.reshape(-1)[i]):.3e} > {tt:.1e} at flat index {i} "
            f"({int(bad.sum())}/{d.numel()} bad)",
            **w,
        )

    def raised(self, e, key=None):
        self.expect(False, key or f"raises:{self.current}:{e.name}", str(e))


# ------------------------------------------------------------------------
def load_known(pid):
    """finding lines: 'finding: property=C01 key=<regex> <what fails>'"""
    out = []
    path = os.path.join(VERIF, "known_findings.txt")
    if not os.path.exists(path):
        return out
    for line in open(path):
        m = re.match(r"finding: property=(\S+) key=(\S+) (.*)$", line.strip())
        if m and m.group(1) == pid:
            out.append((m.group(2), m.group(3)))
    return out


def run_scenario(mon, sc, rnd):
    mon.start(sc, rnd)
    before = mon.evaluations
    try:
        sc.fn(mon)
    except TargetRaised as e:
        mon.raised(e)
    except Stop:
        pass
    return mon.evaluations - before


def unusable(mon, sc, rnd, err):
    """The scenario broke down on what the calls handed back (a tensor that cannot be differentiated or indexed as promised, ...):
    data errors only, after at least one call returned, and again when the identical scenario is run a second time."""
    kinds = (RuntimeError, IndexError, KeyError, ValueError, TypeError, AttributeError, ArithmeticError)
    if not isinstance(err, kinds) or "memory" in str(err).lower() or not any(v[1] for v in mon.calls.values()):
        return False
    try:
        run_scenario(mon, sc, rnd)
    except Exception as e:  # noqa: BLE001
        return type(e) is type(err)
    return False


def main(argv=None):
    import argparse

    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--only", default=None, help="run only this scenario")
    ap.add_argument("--round", type=int, default=None)
    ap.add_argument("--replay", default=None, help="re-run the scenario of a replay file")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args(argv)
    sys.path.insert(0, VERIF)
    if a.replay:
        r = json.load(open(a.replay))
        a.pid, a.tier, a.seed, a.only, a.round = (
            r["property"], r["tier"], r["seed"], r["scenario"], r["round"],
        )
    t0 = time.time()
    try:
        mod = importlib.import_module(f"checks.{a.pid.lower()}")
    except Exception:  # noqa: BLE001
        traceback.print_exc()
        print(f"INCONCLUSIVE property={a.pid}: check could not be loaded")
        return 3
    prop = mod.PROP
    mon = Mon(a.pid, a.tier, a.seed)
    budget = float(os.environ.get("VERIF_BUDGET", "100000" if a.tier == "quick" else "600"))
    harness_errors = []
    timings = {}
    empty = []
    known = load_known(a.pid)

    def record(sc, rnd):
        t = time.time()
        try:
            k = run_scenario(mon, sc, rnd)
            if k == 0 and not any(v["scenario"] == sc.name for v in mon.violations.values()):
                empty.append(sc.name)
        except Exception as e:  # noqa: BLE001
            text = f"{sc.name}[{rnd}]: {traceback.format_exc()}"
            if unusable(mon, sc, rnd, e):
                print("UNUSABLE-OUTPUT", text)
                mon.expect(False, f"unusable:{sc.name}:{type(e).__name__}", f"what the calls returned could not be evaluated: {e}")
            else:
                harness_errors.append(text)
        timings[sc.name] = timings.get(sc.name, 0.0) + time.time() - t

    scs = [s for s in prop.scenarios if a.only is None or s.name == a.only]
    if a.round is not None:
        for sc in scs:
            record(sc, a.round)
    else:
        maxr = max((s.rounds if a.tier == "quick" else s.thorough_rounds) for s in scs)
        for rnd in range(maxr):
            for sc in scs:
                lim = sc.rounds if a.tier == "quick" else sc.thorough_rounds
                if rnd < lim and (rnd == 0 or time.time() - t0 < budget):
                    record(sc, rnd)
    unlisted = []
    matched = {}
    for v in mon.violations.values():
        for pat, what in known:
            if re.fullmatch(pat, v["key"]):
                matched.setdefault((pat, what), []).append(v)
                break
        else:
            unlisted.append(v)
    for pat, what in known:
        # a listed finding is announced whenever its mechanism was observed
        if (pat, what) in matched:
            print(f"KNOWN-FINDING: property={a.pid} {what}")
    ev = {
        "property": a.pid,
        "tier": a.tier if a.tier in ("quick", "thorough") else "quick",
        "seed": a.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": mon.evaluations,
            "distinct_nontrivial": len(mon.distinct),
            "rule": prop.rule,
            "samples": mon.samples[:12] or [{"none": True}],
            "cases_per_scenario": mon.per_scenario,
            "calls_observed": {k: v[0] for k, v in sorted(mon.calls.items())},
            "returns_observed": {k: v[1] for k, v in sorted(mon.calls.items())},
            "call_variants": dict(sorted(mon.variants.items())),
            "oracle_verdicts": mon.oracles,
            "largest_deviation": {k: (v if np.isfinite(v) else str(v)) for k, v in mon.max_seen.items()},
            "scenario_seconds": {k: round(v, 2) for k, v in timings.items()},
            "notes": mon.notes[:40],
        },
        "assumptions": prop.assumptions,
        "wall_s": round(time.time() - t0, 2),
        "violations": len(unlisted),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    if not a.replay and a.only is None:
        with open(os.path.join(VERIF, "evidence", f"{a.pid}.json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
    if a.v:
        print(json.dumps({k: ev["coverage"][k] for k in
                          ("evaluations", "distinct_nontrivial", "scenario_seconds", "largest_deviation")},
                         indent=1, default=str))
    for h in harness_errors:
        print("HARNESS-ERROR", h)
    if unlisted:
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        for v in unlisted:
            h = hashlib.sha1(v["key"].encode()).hexdigest()[:8]
            path = os.path.join(VERIF, "replays", f"{a.pid}-{h}.json")
            with open(path, "w") as f:
                json.dump({"property": a.pid, "tier": a.tier, "seed": a.seed, **v,
                           "rerun": f"./check {a.pid} --replay {path}"}, f, indent=1, default=str)
            print(f"  [{v['key']}] scenario={v['scenario']} round={v['round']} x{v['count']}: {v['message'][:400]}")
            print(f"VIOLATION property={a.pid} replay={path}")
        return 1
    if harness_errors:
        print(f"INCONCLUSIVE property={a.pid}: harness error")
        return 3
    if empty:
        print(f"INCONCLUSIVE property={a.pid}: scenarios observed nothing: {sorted(set(empty))}")
        return 3
    print(f"HELD property={a.pid} tier={a.tier} seed={a.seed} cases={mon.evaluations} "
          f"distinct={len(mon.distinct)} wall={ev['wall_s']}s")
    return 0
