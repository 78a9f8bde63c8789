"""C35 utilities: factorisation, progress reporting, file reading, imports."""
import concurrent.futures
import contextlib
import hashlib
import io
import json
import math
import os
import pathlib
import random
import subprocess
import sys
import tempfile
import time
from unittest import mock

import h5py
import numpy as np
import torch

import ebsdtorch
from ebsdtorch.io.read_master_pattern import read_master_pattern
from ebsdtorch.utils.factorize import FactorECM, nearly_square_factors
from ebsdtorch.utils.progressbar import progressbar
from vlib import laue
from vlib.core import Prop

PROP = Prop(
    "C35",
    "a case is one factorised number, one reported iteration, one pixel of one file, or one imported module",
    ["nearly equal factors: neither exceeds the other by more than the largest prime factor of the number",
     "a progress report wraps anything that has a length and can be iterated",
     "master pattern files store (site, energy, row, column) patterns and (row, column, energy) histograms, as EMsoft writes them",
     "scripts (scattering_compare.py, scattering_verify.py) are not modules of the library"],
)


def is_prime(n):
    return n > 1 and all(n % d for d in range(2, min(n, 1000)) if d * d <= n) and (n < 10**6 or _mr(n))


def _mr(n):
    d, s = n - 1, 0
    while d % 2 == 0:
        d, s = d // 2, s + 1
    for a in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37):
        x = pow(a, d, n)
        if n % a == 0 or x in (1, n - 1):
            continue
        for _ in range(s - 1):
            x = x * x % n
            if x == n - 1:
                break
        else:
            return False
    return True


def next_prime(n):
    while not is_prime(n):
        n += 1
    return n


def factor_known(m, n, primes, tag):
    state = random.getstate()
    f = m.call(FactorECM, n)
    m.expect(sorted(f) == sorted(primes), "factor:prime-factorisation", f"{n} -> {f}, expected {sorted(primes)} {tag}")
    m.expect(list(f) == sorted(f), "factor:sorted", f"{n} -> {f}")
    a, b = m.call(nearly_square_factors, n)
    m.expect(isinstance(a, int) and isinstance(b, int) and a >= 1 and b >= 1 and a * b == n, "factor:product", f"{n} -> {a} x {b}")
    m.expect(max(a, b) <= min(a, b) * max(primes, default=1), "factor:nearly-equal", f"{n} -> {a} x {b}")
    m.expect(m.call(nearly_square_factors, n) == (a, b), "factor:repeatable", f"{n}")
    m.expect(random.getstate() == state, "factor:random-state-untouched", f"{n}")
    m.seen(np.array([[float(n), a, b]]))


def trial(n):
    out, d = [], 2
    while d * d <= n:
        while n % d == 0:
            out.append(d)
            n //= d
        d += 1
    return out + ([n] if n > 1 else [])


CARMICHAEL = [(7, 13, 19), (7, 19, 67), (13, 37, 61), (37, 73, 109), (211, 421, 631), (271, 541, 811), (307, 613, 919), (331, 661, 991), (601, 1201, 1801), (727, 1453, 2179), (1171, 2341, 3511), (2281, 4561, 6841), (7, 11, 13, 41), (5, 17, 29, 113, 337, 673, 2689)]


@PROP.scenario("factorisation", rounds=1, thorough_rounds=6)
def factorisation(m):
    """numbers of every size and shape: small, smooth, prime, prime powers, pseudoprimes, products of large primes"""
    for n in range(1, m.n(1200, 20000)):
        factor_known(m, n, trial(n), "small")
    for n in m.rng.integers(1 << 16, 10**8, m.n(60)).tolist():
        factor_known(m, n, trial(n), "random")
    for n in range((1 << 16) - 40, (1 << 16) + 40):
        factor_known(m, n, trial(n), "threshold")
    for c in CARMICHAEL:
        factor_known(m, math.prod(c), list(c), "Carmichael")
    for k in range(m.n(10, 60)):
        top = int(10 ** m.rng.uniform(2.2, 6.5))
        p = [next_prime(int(m.rng.integers(2, top))) for _ in range(int(m.rng.integers(1, 4)))]
        p += [p[0]] * int(m.rng.integers(0, 2))
        factor_known(m, math.prod(p), p, "constructed")
    for k in range(m.n(10)):
        e = m.rng.integers(0, 12, 5)
        p = [q for q, c in zip((2, 3, 5, 7, 11), e) for _ in range(int(c))]
        factor_known(m, math.prod(p), p, "smooth")
    # image sizes, as the resampling of master patterns uses them
    for h, w in m.rng.integers(1, 3000, (m.n(40), 2)).tolist():
        factor_known(m, h * w, sorted(trial(h) + trial(w)), "pixels")
    factor_known(m, 2**61 - 1, [2**61 - 1], "Mersenne")


class Sized:
    def __init__(self, n, log):
        self.n, self.log = n, log

    def __len__(self):
        return self.n

    def __iter__(self):
        for i in range(self.n):
            self.log.append(i)
            yield (i, self)


@PROP.scenario("progress", rounds=2, thorough_rounds=20)
def progress(m):
    """what is iterated and what is written, for any sink, length, prefix, bar width, clock, and for abandoned loops"""
    for rep in range(m.n(60)):
        n = int(m.rng.choice([0, 1, 2, 3, 7, 61, int(m.rng.integers(1, 300))]))
        kind = int(m.rng.integers(6))
        base = [list(range(n)), tuple(f"i{k}" for k in range(n)), range(5, 5 + n), "abc" * n, torch.arange(3 * n).reshape(n, 3), {k: None for k in range(n)}][kind]
        want = list(base)
        sink, other, err = io.StringIO(), io.StringIO(), io.StringIO()
        kw = dict(prefix="x" * int(m.rng.integers(0, 30)), prefix_min_length=int(m.rng.integers(0, 25)), size=int(m.rng.integers(1, 90)))
        clock = {0: None, 1: lambda: 1e9, 2: iter(range(0, 10**9, 4000)).__next__}[int(m.rng.integers(3))]
        with contextlib.redirect_stdout(other), contextlib.redirect_stderr(err):
            with mock.patch.object(time, "time", clock) if clock else contextlib.nullcontext():
                got = m.call(lambda: list(progressbar(base, out=sink, **kw)))
        m.expect(len(got) == len(want) and all(a is b or (torch.is_tensor(a) and torch.equal(a, b)) or a == b for a, b in zip(got, want)), "progress:items", f"kind {kind} n {n}")
        m.expect(other.getvalue() == "" and err.getvalue() == "", "progress:writes-to-its-sink-only", f"{other.getvalue()!r} {err.getvalue()!r}")
        text = sink.getvalue()
        m.expect(n == 0 or f"{n}/{n}" in text if kind != 3 else True, "progress:reports-the-end", text[-80:])
        lines = [v for v in text.split("\r") if "/" in v]
        k = len(want)
        m.expect(len(lines) == k and all(f" {i + 1}/{k} " in v for i, v in enumerate(lines)), "progress:one-report-per-item", f"{len(lines)} of {k}")
        m.seen(np.array([[rep, k, kind, len(text)]]))
        log = []
        it = progressbar(Sized(n + 2, log), out=sink, **kw)
        first = m.call(next, it)
        m.expect(first[0] == 0 and log == [0], "progress:lazy", f"{log}")
        stop = int(m.rng.integers(0, n + 2))
        seen = [first] + [v for v, _ in zip(it, range(stop))]
        m.expect([v[0] for v in seen] == list(range(len(seen))), "progress:abandoned", "")
        it.close()

        def bad():
            for v in progressbar([1, 2, 3], out=sink):
                if v == 2:
                    raise KeyError("mine")

        try:
            bad()
            m.expect(False, "progress:errors-propagate")
        except KeyError:
            m.expect(True, "progress:errors-propagate")
    default = io.StringIO()
    code = "import sys; sys.path.insert(0, sys.argv[1]); from ebsdtorch.utils.progressbar import progressbar; print([v for v in progressbar(range(4))])"
    r = subprocess.run([sys.executable, "-W", "ignore", "-c", code, str(pathlib.Path(ebsdtorch.__file__).parents[1])], capture_output=True, text=True, encoding="utf-8", env={**os.environ, "PYTHONIOENCODING": "utf-8"})
    m.expect(r.returncode == 0 and "[0, 1, 2, 3]" in r.stdout and "4/4" in r.stdout, "progress:default-sink", r.stderr[-200:])


@PROP.scenario("master-pattern-files", rounds=1, thorough_rounds=10)
def files(m):
    """EMsoft files of every shape: sites, energies, sizes, storage types, all space groups"""
    sgs = m.rng.permutation(np.arange(1, 231))
    with tempfile.TemporaryDirectory() as tmp:
        for rep in range(m.n(60)):
            sites, ne, h = int(m.rng.choice([1, 1, 2, 3])), int(m.rng.choice([1, 2, 5, 11])), int(m.rng.choice([1, 3, 5, 21]))
            nb = int(m.rng.choice([1, 3, 5, 9]))
            sg = int(sgs[rep % 230])
            north, south = (m.rng.random((sites, ne, h, h)).astype(m.rng.choice(["f4", "f8"])) * 1000 for _ in range(2))
            acc = m.rng.integers(0, 10000, (nb, nb, ne)).astype(m.rng.choice(["i4", "u4", "f4"]))
            acc[0, 0, 0] += 1
            path = os.path.join(tmp, f"f{rep}.h5")
            with h5py.File(path, "w") as f:
                f["EMData/MCOpenCL/accum_e"] = acc
                opts = dict(compression="gzip", chunks=True) if rep % 3 == 0 else {}
                f.create_dataset("EMData/EBSDmaster/mLPNH", data=north, **opts)
                f.create_dataset("EMData/EBSDmaster/mLPSH", data=south, **opts)
                f["CrystalData/SpaceGroupNumber"] = np.array([sg], dtype="i4")
            raw = pathlib.Path(path).read_bytes()
            mp = m.call(read_master_pattern, path if rep % 2 else pathlib.Path(path))
            m.expect(hashlib.md5(pathlib.Path(path).read_bytes()).digest() == hashlib.md5(raw).digest(), "file:unchanged", path)
            with h5py.File(path, "a") as f:
                m.expect(len(f) == 2, "file:released")
            w = acc.astype(float).sum((0, 1))
            w /= w.sum()
            want = np.concatenate([np.einsum("e,sehw->hw", w, v.astype(float)) for v in (north, south)], -1)
            got = mp.master_pattern
            m.shape(got, (h, 2 * h), "file:shape")
            m.seen(got.double().reshape(-1, 1), tag=f"{sites} {ne} {h}")
            m.small(np.abs(got.double().numpy() - want).max() / np.abs(want).max(), 5e-6, "file:energy-weighted-sum", f"sites {sites} energies {ne} size {h}")
            m.expect(int(mp.laue_group) == laue.sg_laue(sg), "file:laue-group", f"sg {sg}: {mp.laue_group}")
            if h >= 3:
                poles = m.call(mp.interpolate, torch.tensor([[0.0, 0, 1], [0, 0, -1]]))
                m.small(np.abs(poles.double().numpy().ravel() - [want[h // 2, h // 2], want[h // 2, h + h // 2]]).max() / np.abs(want).max(), 2e-5, "file:hemispheres", f"size {h}")
        m.rejects(read_master_pattern, os.path.join(tmp, "missing.h5"), key="file:missing")


PROBE = r"""
import sys, os, io, contextlib, warnings, json, importlib, random, threading, signal, logging, gc
warnings.simplefilter("ignore")
sys.path.insert(0, sys.argv[1]); sys.path.insert(1, sys.argv[2])
import numpy as np, torch
if sys.argv[3] == "opencl":
    from vlib import opencl_host
    opencl_host.install()
def state():
    return dict(environ=dict(os.environ), dtype=str(torch.get_default_dtype()), torch_rng=hash(bytes(torch.get_rng_state().tolist())), python_rng=hash(random.getstate()),
        numpy_rng=hash(np.random.get_state()[1].tobytes()), threads=torch.get_num_threads(), interop=torch.get_num_interop_threads(), grad=torch.is_grad_enabled(),
        deterministic=torch.are_deterministic_algorithms_enabled(), files=sorted(os.listdir(".")), path=list(sys.path), errors=str(np.geterr()), printing=str(torch._tensor_str.PRINT_OPTS),
        matmul=torch.get_float32_matmul_precision(), python_threads=threading.active_count(), signals=str([signal.getsignal(s) for s in (2, 15)]), cwd=os.getcwd(),
        handlers=len(logging.getLogger().handlers), recursion=sys.getrecursionlimit(), anomaly=torch.is_anomaly_enabled(), device=str(torch.get_default_device()), cudnn=(torch.backends.cudnn.benchmark, torch.backends.cudnn.deterministic), hook=sys.excepthook is sys.__excepthook__)
out = []
for name in sys.argv[4:]:
    a, o = state(), io.StringIO()
    err = None
    with contextlib.redirect_stdout(o), contextlib.redirect_stderr(o):
        try:
            importlib.import_module(name)
        except BaseException as e:
            err = f"{type(e).__name__}: {e}"
    b = state()
    out.append((name, err, o.getvalue()[:200], [f"{k}: {str(a[k])[:80] if k != 'environ' else ''} -> {str(b[k])[:80] if k != 'environ' else {q: v for q, v in b[k].items() if a[k].get(q) != v}}" for k in a if a[k] != b[k]]))
print("RESULT" + json.dumps(out))
"""


@PROP.scenario("imports", rounds=1, thorough_rounds=1)
def imports(m):
    """every module, in one process in random order and alone in a fresh process"""
    root = pathlib.Path(ebsdtorch.__file__).parent
    verif = str(pathlib.Path(__file__).parents[1])
    names = []
    for p in sorted(root.rglob("*.py")):
        parts = p.relative_to(root.parent).with_suffix("").parts
        if p.stem in ("scattering_compare", "scattering_verify") or any(not q.isidentifier() for q in parts):
            continue
        names.append(".".join(parts[:-1] if p.stem == "__init__" else parts))
    m.expect(len(names) > 30, "imports:modules-found", f"{len(names)}")
    shuffled = [names[i] for i in m.rng.permutation(len(names))]
    jobs = [shuffled, list(reversed(shuffled))]
    jobs += [[v] for v in (shuffled if m.thorough else shuffled[:6])]
    if "ebsdtorch.crystallography.ebsd_mc" in names:
        jobs.append(["ebsdtorch.crystallography.ebsd_mc"])

    def run(job):
        with tempfile.TemporaryDirectory() as tmp, tempfile.TemporaryDirectory() as cache:
            env = {**os.environ, "OMP_NUM_THREADS": "3", "PYOPENCL_CTX": "7", "HOME": cache, "MPLCONFIGDIR": cache}
            return subprocess.run([sys.executable, "-W", "ignore", "-c", PROBE, str(root.parent), verif, "opencl", *job], capture_output=True, text=True, cwd=tmp, env=env)

    with concurrent.futures.ThreadPoolExecutor(4) as ex:
        for job, r in zip(jobs, ex.map(run, jobs)):
            line = [v for v in r.stdout.splitlines() if v.startswith("RESULT")]
            m.expect(bool(line), "imports:process-survives", f"{job[:3]} {r.stderr[-300:]}")
            if not line:
                continue
            for name, err, text, changed in json.loads(line[0][6:]):
                m.expect(err is None, "imports:importable", f"{name}: {err}")
                m.expect(text == "", "imports:silent", f"{name}: {text!r}")
                m.expect(not changed, "imports:no-global-effect", f"{name}: {changed}")
                m.seen(np.array([[hash(name) % 2**31, len(job)]]), tag=name)
