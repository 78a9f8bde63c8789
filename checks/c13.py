"""C13 experimental pattern sets."""
import numpy as np
import torch

from ebsdtorch.ebsd.experiment_pats import ExperimentPatterns
from ebsdtorch.preprocessing.clahe import clahe_grayscale
from ebsdtorch.preprocessing.nlpar import nlpar
from vlib import ref
from vlib.core import Prop

PROP = Prop(
    "C13",
    "a case is one operation of a random history (set, partial set, read, clean, index, combine) on a pattern set, mirrored on a "
    "sequential per-pattern dictionary model; the whole state is compared after every operation",
    ["partial writes with repeated indices carry the same value for a repeated pattern",
     "min-max normalisation keeps the documented 1e-4 guard in its denominator",
     "patterns are floating point; ties between phases are not generated"],
)


def make(m):
    H, W = (int(x) for x in m.rng.integers(4, 20, 2))
    form = m.rng.integers(0, 4)
    sp = {0: (), 1: (int(m.rng.integers(1, 30)),)}.get(int(form), tuple(int(x) for x in m.rng.integers(1, 8, 2)))
    x = m.rng.random(sp + (H, W)) * 10 ** m.rng.uniform(0, 2)
    t = torch.tensor(x, dtype=torch.float32 if m.rng.random() < 0.5 else torch.float64)
    x = ref.npf(t)
    if form == 3:  # a crop of a larger scan
        big = torch.zeros((sp[0] + 2, sp[1] + 3, H, W), dtype=t.dtype)
        big[1:-1, 2:-1] = t
        t = big[1:-1, 2:-1]
        e = m.call(lambda: ExperimentPatterns(t))
    else:
        e = m.call(ExperimentPatterns, t)
    return e, x.reshape(-1, H, W).copy(), sp


def index(m, n):
    kind = m.rng.integers(0, 5)
    if kind == 0:
        i = m.rng.permutation(n)
    elif kind == 1:
        i = m.rng.permutation(n)[: int(m.rng.integers(0, n + 1))]
    elif kind == 2:
        i = m.rng.integers(0, n, int(m.rng.integers(1, 2 * n + 1)))
    elif kind == 3:
        a = int(m.rng.integers(0, n))
        i = np.arange(a, int(m.rng.integers(a, n)) + 1)
    else:
        i = np.array([m.rng.integers(0, n)])
    return i


@PROP.scenario("history", rounds=20)
def history(m):
    e, P, sp = make(m)
    n, (H, W) = len(P), P.shape[1:]
    tol = 1e-5
    kept = []
    state = {"coords": None, "ori": None, "F": None}
    m.expect(e.n_patterns == n and e.n_pixels == H * W and tuple(e.pattern_shape) == (H, W), "history:counts")
    for key, get in (("coords", "get_spatial_coords"), ("F", "get_inv_f_matrix")):
        m.rejects(getattr(e, get), key=f"history:unset-{key}-raises")
    trace = []
    for step in range(m.n(30, 90)):
        op = m.rng.integers(0, 13)
        trace.append(int(op))
        if op <= 1:
            d = int(m.rng.integers(2, 4))
            if state["coords"] is not None and m.rng.random() < 0.7:
                d = state["coords"].shape[1]
                i = index(m, n)
                v = m.rng.normal(size=(n, d))[i]
                m.call(e.set_spatial_coords, torch.tensor(v), torch.tensor(i))
                state["coords"][i] = v
            else:
                v = m.rng.normal(size=(n, d))
                mine = torch.tensor(v)
                m.call(lambda: e.set_spatial_coords(mine))
                state["coords"] = v.copy()
                kept.append((mine, v.copy()))
        elif op <= 4:
            if state["ori"] is not None and m.rng.random() < 0.7:
                i = index(m, n)
                v = ref.rand_q(m.rng, n)[i]
                m.call(e.set_orientations, torch.tensor(v), torch.tensor(i))
                state["ori"][i] = v
            else:
                v = ref.rand_q(m.rng, n)
                mine = torch.tensor(v)
                m.call(lambda: e.set_orientations(mine))
                state["ori"] = v.copy()
                kept.append((mine, v.copy()))
        elif op == 5:
            form = m.rng.integers(0, 5)
            if form == 0:
                m.call(e.set_inv_f_matrix)
                state["F"] = np.tile(np.eye(3), (n, 1, 1))
            else:
                one = form in (3, 4)
                v = m.rng.normal(size=(1 if one else n, 3, 3))
                t = torch.tensor(v)
                m.call(e.set_inv_f_matrix, t if form in (1, 3) else t.reshape(-1, 9))
                state["F"] = np.tile(v, (n, 1, 1)) if one else v.copy()
        elif op == 6:
            m.call(e.subtract_overall_background)
            P = P - P.mean(0)
        elif op == 7:
            norm = str(m.rng.choice(["minmax", "zeromean", "standard"]))
            f = P.reshape(n, -1)
            if norm == "standard" and f.std(1).min() < 1e-3:
                continue
            m.call(e.normalize_per_pattern, norm)
            if norm == "minmax":
                f = (f - f.min(1, keepdims=True)) / (1e-4 + np.ptp(f, axis=1)[:, None])
            else:
                f = f - f.mean(1, keepdims=True)
                if norm == "standard":
                    f = f / f.std(1, ddof=1, keepdims=True)
            P = f.reshape(P.shape)
        elif op == 8:
            g = int(m.rng.integers(1, min(H, W, 5)))
            m.call(e.normalize_per_pattern, "minmax")
            cur = e.patterns.clone()
            m.call(e.contrast_enhance_clahe, clip_limit=10.0, tile_grid_size=g, n_bins=16)
            P = ref.npf(m.call(clahe_grayscale, cur[:, None], clip_limit=10.0, n_bins=16, grid_shape=(g, g))).reshape(P.shape)
        elif op == 12:
            # neighbours are those of the scan; a list of patterns has no neighbourhood
            if len(sp) < 2:
                if sp:
                    m.rejects(e.do_nlpar, k_rad=1, key="history:neighbours-of-a-list-raise")
                continue
            k, c = int(m.rng.integers(1, 4)), float(m.rng.uniform(0.2, 0.6))
            cur = e.patterns.clone().reshape(sp + (H, W))
            m.call(e.do_nlpar, k_rad=k, coeff=c)
            P = ref.npf(m.call(nlpar, cur, k_rad=k, coeff=c)).reshape(P.shape)
        elif op == 9:
            i = index(m, n)
            b = int(m.rng.integers(1, min(H, W) + 1)) if len(i) else 1
            got = m.call(e.get_patterns, torch.tensor(i), b)
            want = P[i][:, : H // b * b, : W // b * b].reshape(len(i), H // b, b, W // b, b).mean((2, 4)) if b > 1 else P[i]
            m.close(got, torch.tensor(want), tol * max(1, abs(P).max()), "history:binned-patterns", f"binning {b} of {(H, W)}")
        elif op == 10:
            nph = int(m.rng.integers(1, 5))
            k = int(m.rng.integers(1, 4))
            hi = bool(m.rng.random() < 0.5)
            mt = m.rng.permutation(n * nph * k).reshape(nph, n, k) / 7.0 - m.rng.choice([0.0, 50.0])
            mt = np.sort(mt, -1)[..., :: -1 if hi else 1].copy()
            q = ref.rand_q(m.rng, nph * n * k).reshape(nph, n, k, 4)
            ids = [int(x) for x in m.rng.permutation(6)[:nph]]
            if hasattr(e, "raw_indexing_results"):
                del e.raw_indexing_results
            for j in m.rng.permutation(nph):
                m.call(e.set_raw_indexing_results, torch.tensor(q[j]), torch.tensor(mt[j]), ids[j])
            m.call(e.combine_indexing_results, hi)
            win = (mt[:, :, 0].argmax(0) if hi else mt[:, :, 0].argmin(0))
            state["ori"] = q[win, np.arange(n), 0].copy()
            ph = np.array(ids)[win]
            m.expect(bool((e.phases.numpy() == ph).all()), "history:phases", f"{nph} phases {ids} higher={hi}")
            m.close(e.best_metrics, torch.tensor(mt[win, np.arange(n), 0]), 1e-12, "history:best-metric")
            groups = m.call(e.get_indices_per_phase)
            m.need(len(groups) == ph.max() + 1, "history:phase-groups")
            for p, g in enumerate(groups):
                m.need(g.ndim == 1 and np.array_equal(np.sort(g.numpy()), np.nonzero(ph == p)[0]), "history:phase-groups",
                       f"phase {p}: {g.shape}")
                if len(g) and m.rng.random() < 0.5:  # the groups are valid index sets
                    v = ref.rand_q(m.rng, len(g))
                    m.call(e.set_orientations, torch.tensor(v), g)
                    state["ori"][g.numpy()] = v
            # results of an earlier run do not survive a later one with the same id
            q2 = ref.rand_q(m.rng, n * k).reshape(n, k, 4)
            best = 1e6 if hi else -1e6
            m.call(e.set_raw_indexing_results, torch.tensor(q2), torch.full((n, k), best, dtype=torch.float64), ids[0])
            m.call(e.combine_indexing_results, hi)
            m.expect(bool((e.phases == ids[0]).all()), "history:reindexed-phase")
            state["ori"] = q2[:, 0].copy()
        else:
            bad = m.rng.integers(0, 4)
            if bad == 0:
                m.rejects(e.set_orientations, torch.zeros(n + 1, 4), key="history:wrong-count-raises")
            elif bad == 1:
                m.rejects(e.set_orientations, torch.zeros(n, 3), key="history:not-quaternions-raises")
            elif bad == 2:
                m.rejects(e.set_spatial_coords, torch.zeros(n + 1, 2), key="history:wrong-count-raises")
            else:
                m.rejects(e.set_inv_f_matrix, torch.zeros(n + 1, 3, 3), key="history:wrong-count-raises")
        m.seen([step, trace[-5:], m.round, m.seed])
        # the whole state against the model
        m.shape(e.patterns, (n, H, W), "history:pattern-shape")
        m.small(abs(ref.npf(e.patterns) - P).max(), tol * max(1, abs(P).max()), "history:patterns", f"after {trace[-6:]}")
        P = ref.npf(e.patterns).copy()
        for key, get in (("coords", "get_spatial_coords"), ("ori", "get_orientations"), ("F", "get_inv_f_matrix")):
            if state[key] is None:
                continue
            v = m.call(getattr(e, get))
            m.shape(v, state[key].shape, f"history:{key}-shape")
            m.small(abs(ref.npf(v) - state[key]).max(), 1e-12, f"history:{key}", f"after {trace[-6:]}")
            i = index(m, n)
            m.close(m.call(getattr(e, get), torch.tensor(i)), torch.tensor(state[key][i]), 1e-12, f"history:{key}-indexed")
    for mine, want in kept:
        m.expect(np.array_equal(mine.numpy(), want), "history:callers-tensor-written")


@PROP.scenario("clean", rounds=8)
def clean(m):
    """standard_clean = background, min-max, CLAHE, min-max, in scan order; patterns are independent after the background."""
    for _ in range(4):
        h, w = (int(x) for x in m.rng.integers(1, 6, 2))
        H, W = (int(x) for x in m.rng.integers(8, 24, 2))
        X = torch.tensor(m.rng.random((h, w, H, W)), dtype=torch.float32)
        e = m.call(ExperimentPatterns, X)
        m.call(e.standard_clean)
        m.seen(e.patterns.reshape(e.n_patterns, -1))
        Y = X.reshape(-1, H, W)
        Y = Y - Y.mean(0)

        def mm(y):
            lo, hi = y.amin((1, 2), keepdim=True), y.amax((1, 2), keepdim=True)
            return (y - lo) / (1e-4 + hi - lo)

        Z = mm(m.call(clahe_grayscale, mm(Y)[:, None], clip_limit=40.0, n_bins=64, grid_shape=(4, 4)).reshape(Y.shape))
        if len(Y) > 1:
            m.expect((e.patterns - Z).abs().quantile(0.9) < 0.02, "clean:steps")
        m.expect(bool((e.patterns >= -1e-6).all() and (e.patterns <= 1 + 1e-6).all()), "clean:range")
        # a permuted scan is cleaned to the permuted result
        p = torch.tensor(m.rng.permutation(h * w))
        e2 = m.call(ExperimentPatterns, X.reshape(-1, H, W)[p])
        m.call(e2.standard_clean)
        if len(Y) > 1:
            m.expect((e2.patterns - e.patterns[p]).abs().quantile(0.9) < 0.02, "clean:order")
    for bad in (torch.zeros(3), torch.zeros(2, 2, 2, 2, 2)):
        m.rejects(ExperimentPatterns, bad, key="clean:bad-rank-raises")
    m.rejects(e.normalize_per_pattern, "nope", key="clean:bad-norm-raises")
