"""C15 dictionary indexing."""
import numpy as np
import torch

from ebsdtorch.ebsd.experiment_pats import ExperimentPatterns
from ebsdtorch.ebsd.geometry import EBSDGeometry
from ebsdtorch.ebsd.indexing import dictionary_index_orientations, pca_dictionary_index_orientations
from ebsdtorch.ebsd.master_pattern import MasterPattern
from ebsdtorch.s2_and_so3.laue_fz_ori import sample_ori_fz_laue_angle
from vlib import laue, ref, sim
from vlib.core import Prop

PROP = Prop(
    "C15",
    "a case is one indexed pattern: noise-free dictionary members, off-grid orientations, brightness and contrast changes and pure noise, "
    "for random phases of every Laue class, detector geometries, masks, binnings, chunk sizes, metrics and arithmetic",
    ["the best match is judged by its correlation (ties and near-ties within rounding may resolve either way)",
     "8-bit and 16-bit matching is judged within the precision of that arithmetic",
     "the reference simulation is independent (vlib/geom); for binned patterns the code's own blurred master pattern lookup, judged in C12, is used"],
)
RES = {1: 22, 2: 18, 3: 16, 4: 14, 5: 12, 6: 16, 7: 13, 8: 13, 9: 11, 10: 11, 11: 9}


class Setup:
    def __init__(self, m, shape=None, lg=None, b=1):
        self.lg = lg or int(m.rng.integers(1, 12))
        k = b if b > 1 else 1
        self.shape = shape or tuple(int(x) * k for x in m.rng.integers(7, 14, 2))
        self.b = b
        n = int(m.rng.integers(24, 48))
        self.img = sim.images(sim.intensity(m.rng, self.lg), n) * 10 ** m.rng.choice([m.rng.uniform(-1, 2), m.rng.uniform(-4, 5)])
        img32 = torch.tensor(self.img, dtype=torch.float32)
        self.img = ref.npf(img32)
        self.mp = m.call(MasterPattern, (img32[0], img32[1]), laue_group=self.lg)
        self.pc, self.tilts = sim.detector(m.rng, self.shape)
        self.geom = m.call(EBSDGeometry, self.shape, tilts_degrees=self.tilts, proj_center=self.pc)
        self.res = RES[self.lg] * m.rng.uniform(0.9, 1.3)
        with sim.quiet():
            d = m.call(sample_ori_fz_laue_angle, self.lg, self.res, torch.device("cpu"))
        self.dic = ref.npf(d)
        self.dirs = sim.directions(self.shape, self.pc, self.tilts, b)
        if b == 1:
            self.sims = sim.simulate(self.img, self.dirs, self.dic)
        else:
            v = np.einsum("nij,pj->npi", ref.q_to_R(self.dic), self.dirs)
            self.sims = ref.npf(m.call(self.mp.interpolate, torch.tensor(v, dtype=torch.float32), virtual_binning=b))

    def patterns(self, m, n):
        """n patterns at full resolution and the dictionary index of the noise-free members (-1: other)."""
        full = sim.directions(self.shape, self.pc, self.tilts)
        src = m.rng.integers(0, len(self.dic), n)
        off = m.rng.random(n) < 0.4
        q = np.where(off[:, None], ref.rand_q(m.rng, n), self.dic[src])
        P = sim.simulate(self.img, full, q)
        sd = P.std(1, keepdims=True) + 1e-9 * abs(P).max()
        noise = m.rng.random(n) < 0.3
        P = P + noise[:, None] * sd * m.rng.normal(size=P.shape) * m.rng.uniform(0.1, 3, (n, 1))
        P = P / sd * 10 ** m.rng.uniform(-1, 1.5, (n, 1)) + m.rng.uniform(-20, 50, (n, 1))
        P = P * 10 ** (m.rng.random((n, 1)) * m.rng.choice([0, 0, -4, 4]))  # detectors count in any unit
        return P.reshape(n, *self.shape), np.where(off | noise, -1, src)


def score(E, S, metric):
    if metric == "angular":
        return E @ S.T
    if metric == "euclidean":
        return 2 - 2 * E @ S.T + (np.linalg.norm(E, axis=1)[:, None] ** 2 - 1)
    return np.stack([abs(e - S).sum(1) for e in E])


def ids(dic, q):
    """index of each orientation in the dictionary (up to sign); distance."""
    d = abs(q @ dic.T)
    i = d.argmax(1)
    return i, 1 - d[np.arange(len(q)), i]


def masked(X, mask):
    X = X.reshape(len(X), -1)
    return X if mask is None else X[:, mask.reshape(-1)]


def bin_(P, b):
    n, H, W = P.shape
    return P.reshape(n, H // b, b, W // b, b).mean((2, 4))


def options(m, n, nd):
    arith = m.rng.integers(0, 4)
    return dict(
        experiment_chunk_size=int(m.rng.choice([1, 3, n, n + 1, 256])) if n < 30 else int(m.rng.choice([7, n, 256])),
        dictionary_chunk_size=int(m.rng.choice([max(1, nd // 5), nd, nd + 3, 101])),
        match_dtype=[torch.float32, torch.float32, torch.float16, torch.float16][arith],
        subtract_exp_pat_mean=True,
    ), [False, True, False, True][arith], [5e-4, 0.03, 8e-3, 0.03][arith]


def judge(m, s, e, P, src, mask, metric, tol, tag, top=1, sub=True, ph=0):
    q, v = e.raw_indexing_results[ph]
    n = len(P)
    m.shape(q, (n, top, 4), f"{tag}:orientations-shape")
    m.shape(v, (n, top), f"{tag}:scores-shape")
    E = masked(bin_(P, s.b), mask)
    E = sim.unit(E) if sub else E / np.linalg.norm(E, axis=1, keepdims=True)
    S = sim.unit(masked(s.sims, mask))
    M = score(E, S, metric)
    sg = -1 if metric == "angular" else 1
    tol = tol * (np.sqrt(E.shape[1]) if metric == "manhattan" else 1)
    Q, V = ref.npf(q), ref.npf(v)
    i, far = ids(s.dic, Q.reshape(-1, 4))
    m.small(far, 1e-5, f"{tag}:dictionary-member")
    i = i.reshape(n, top)
    m.small(abs(V - np.take_along_axis(M, i, 1)), tol, f"{tag}:true-score", f"{metric} laue {s.lg}")
    best = sg * np.sort(sg * M, 1)[:, :top]
    m.small(abs(np.take_along_axis(M, i, 1) - best), 2 * tol, f"{tag}:k-best", f"{metric} laue {s.lg}")
    m.expect(bool((np.diff(sg * V, axis=1) >= 0).all()), f"{tag}:best-first")
    m.expect(all(len(set(r)) == top for r in i), f"{tag}:distinct")
    k = np.nonzero(src >= 0)[0]
    if len(k):
        nc = (E[k] * S[i[k, 0]]).sum(1)
        m.expect(bool((nc > 1 - 2 * max(tol, 1e-3)).all()), f"{tag}:self-indexing", f"correlations {nc.min()}")
    if ph == 0 and len(e.raw_indexing_results) == 1:
        m.close(m.call(e.get_orientations), q[:, 0], 1e-6, f"{tag}:stored-best")
    return i[:, 0], V[:, 0]


@PROP.scenario("best-match", rounds=10, thorough_rounds=60)
def best_match(m):
    s = Setup(m)
    n = int(m.rng.integers(1, 40))
    P, src = s.patterns(m, n)
    P = ref.npf(torch.tensor(P, dtype=torch.float32))
    prev = None
    for rep in range(3):
        opt, quant, tol = options(m, n, len(s.dic))
        metric = str(m.rng.choice(["angular", "angular", "euclidean", "manhattan"]))
        if metric == "manhattan":
            opt["dictionary_chunk_size"] = 101
        if metric != "angular":
            tol = max(tol, 2e-3) if opt["match_dtype"] == torch.float32 else 0.03
        mask = None
        if m.rng.random() < 0.5:
            mask = m.rng.random(s.shape) < 0.7
            mask[0, 0] = mask[-1, -1] = mask[0, -1] = True
        top = int(m.rng.choice([1, 1, 3]))
        e = m.call(ExperimentPatterns, torch.tensor(P, dtype=torch.float32))
        before = e.patterns.clone()
        with sim.quiet():
            m.call(dictionary_index_orientations, s.mp, s.geom, e, signal_mask=None if mask is None else torch.tensor(mask),
                   dictionary_resolution_degrees=s.res, top_k_matches=top, distance_metric=metric, quantized_if_x86=quant, **opt)
        m.seen(P.reshape(n, -1))
        judge(m, s, e, P, src, mask, metric, tol, "best", top)
        m.expect(bool((before == e.patterns).all()), "best:patterns-untouched")


@PROP.scenario("dead-patterns", rounds=3, thorough_rounds=12)
def dead_patterns(m):
    """patterns without any contrast match nothing, and leave the others alone"""
    s = Setup(m)
    n = int(m.rng.integers(3, 14))
    P, src = s.patterns(m, n)
    P = ref.npf(torch.tensor(P, dtype=torch.float32))
    dead = m.rng.random(n) < 0.3
    dead[m.rng.integers(0, n)] = True
    X = P.copy()
    X[dead] = m.rng.choice([0.0, 1.0, 255.0, 0.1], (int(dead.sum()), 1, 1))
    npix = int(np.prod(s.shape))
    for rep in range(3):
        opt, quant, tol = options(m, n, len(s.dic))
        got = []
        for Y in (P, X):
            e = m.call(ExperimentPatterns, torch.tensor(Y, dtype=torch.float32))
            with sim.quiet():
                if rep == 2:
                    m.call(pca_dictionary_index_orientations, s.mp, s.geom, e, npix, dictionary_resolution_learn_deg=s.res, dictionary_resolution_index_deg=s.res,
                           match_dtype=torch.float32, quantized_via_ao=False, experiment_chunk_size=opt["experiment_chunk_size"])
                else:
                    m.call(dictionary_index_orientations, s.mp, s.geom, e, dictionary_resolution_degrees=s.res, distance_metric="angular", quantized_if_x86=quant, **opt)
            got.append(ref.npf(m.shape(m.call(e.get_orientations), (n, 4), "dead:shape")))
        m.need(bool(np.isfinite(got[1]).all()), "dead:finite")
        m.small(ids(s.dic, got[1])[1], 1e-5, "dead:dictionary-member")
        # the others are matched as well as without the dead ones
        E, S = sim.unit(P.reshape(n, -1)), sim.unit(s.sims)
        a, b = ((E * S[ids(s.dic, g)[0]]).sum(1)[~dead] for g in got)
        m.small(a - b, 2 * max(tol, 3e-3), "dead:others-unharmed", f"laue {s.lg} {opt}")
        m.seen(X.reshape(n, -1), tag=rep)


@PROP.scenario("mean-handling", rounds=4)
def mean_handling(m):
    s = Setup(m)
    n = int(m.rng.integers(2, 20))
    P, src = s.patterns(m, n)
    P = P - P.mean((1, 2), keepdims=True) + P.std((1, 2), keepdims=True) * m.rng.choice([0, 1.0, -2.0], (n, 1, 1))
    for chunk in (1, 5, 1000):
        e = m.call(ExperimentPatterns, torch.tensor(P, dtype=torch.float32))
        metric = str(m.rng.choice(["angular", "euclidean"]))
        with sim.quiet():
            m.call(dictionary_index_orientations, s.mp, s.geom, e, dictionary_resolution_degrees=s.res, match_dtype=torch.float32,
                   quantized_if_x86=False, subtract_exp_pat_mean=False, experiment_chunk_size=chunk, distance_metric=metric)
        m.seen(P.reshape(n, -1))
        judge(m, s, e, P, np.full(n, -1), None, metric, 2e-3, "mean-kept", 1, sub=False)


@PROP.scenario("binning", rounds=4)
def binning(m):
    b = int(m.rng.choice([2, 3]))
    s = Setup(m, b=b)
    n = int(m.rng.integers(2, 20))
    P, _ = s.patterns(m, n)
    P = ref.npf(torch.tensor(P, dtype=torch.float32))
    src = np.full(n, -1)
    hb = (s.shape[0] // b, s.shape[1] // b)
    mask = None if m.rng.random() < 0.5 else (m.rng.random(hb) < 0.8)
    if mask is not None:
        mask[0, :3] = True
    tm = None if mask is None else torch.tensor(mask)
    for chunk in (3, 1000):
        e = m.call(ExperimentPatterns, torch.tensor(P, dtype=torch.float32))
        with sim.quiet():
            m.call(dictionary_index_orientations, s.mp, s.geom, e, signal_mask=tm, dictionary_resolution_degrees=s.res, virtual_binning=b,
                   match_dtype=torch.float32, quantized_if_x86=False, experiment_chunk_size=chunk)
        m.seen(P.reshape(n, -1))
        judge(m, s, e, P, src, mask, "angular", 2e-3, "binned")
        e = m.call(ExperimentPatterns, torch.tensor(P, dtype=torch.float32))
        npix = hb[0] * hb[1] if mask is None else int(mask.sum())
        with sim.quiet():
            m.call(pca_dictionary_index_orientations, s.mp, s.geom, e, npix, signal_mask=tm, dictionary_resolution_learn_deg=s.res,
                   dictionary_resolution_index_deg=s.res, virtual_binning=b, match_dtype=torch.float32, quantized_via_ao=False,
                   experiment_chunk_size=chunk)
        judge(m, s, e, P, src, mask, "angular", 3e-3, "binned-pca")


@PROP.scenario("principal-components", rounds=5, thorough_rounds=30)
def principal(m):
    s = Setup(m)
    n = int(m.rng.integers(2, 30))
    P, src = s.patterns(m, n)
    P = ref.npf(torch.tensor(P, dtype=torch.float32))
    mask = None
    if m.rng.random() < 0.5:
        mask = m.rng.random(s.shape) < 0.8
        mask[:2] = True
    tm = None if mask is None else torch.tensor(mask)
    npix = s.sims.shape[1] if mask is None else int(mask.sum())
    # all components: the same winner as without
    opt, quant, tol = options(m, n, len(s.dic))
    opt["dictionary_chunk_size"] = max(2, opt["dictionary_chunk_size"])
    e = m.call(ExperimentPatterns, torch.tensor(P, dtype=torch.float32))
    metric, top = str(m.rng.choice(["angular", "angular", "euclidean"])), int(m.rng.choice([1, 1, 3]))
    if metric != "angular":
        tol = max(tol, 2e-3) if opt["match_dtype"] == torch.float32 else 0.03
    with sim.quiet():
        m.call(pca_dictionary_index_orientations, s.mp, s.geom, e, npix, signal_mask=tm, dictionary_resolution_learn_deg=s.res,
               dictionary_resolution_index_deg=s.res, quantized_via_ao=quant, distance_metric=metric, top_k_matches=top, **opt)
    m.seen(P.reshape(n, -1))
    judge(m, s, e, P, src, mask, metric, tol + 5e-4, "pca-all", top)
    # the mean kept on the experimental side
    X = P - P.mean((1, 2), keepdims=True) + P.std((1, 2), keepdims=True) * m.rng.choice([0, 1.0, -2.0], (n, 1, 1))
    e = m.call(ExperimentPatterns, torch.tensor(X, dtype=torch.float32))
    with sim.quiet():
        m.call(pca_dictionary_index_orientations, s.mp, s.geom, e, npix, signal_mask=tm, dictionary_resolution_learn_deg=s.res,
               dictionary_resolution_index_deg=s.res, quantized_via_ao=False, match_dtype=torch.float32, subtract_exp_pat_mean=False,
               experiment_chunk_size=opt["experiment_chunk_size"])
    judge(m, s, e, X, np.full(n, -1), mask, "angular", 2e-3, "pca-mean-kept", 1, sub=False)
    # fewer components: the winner is best up to what the dropped components carry
    raw = masked(s.sims, mask)
    S = sim.unit(raw)
    E = sim.unit(masked(P, mask))
    C = np.cov((raw - raw.mean(1, keepdims=True)).T)
    w, V = np.linalg.eigh(C)
    res_d = None
    for k in sorted({int(x) for x in (npix // 2, npix // 4, min(npix - 1, 20))}):
        U = V[:, -k:]
        rd, re = np.linalg.norm(S - S @ U @ U.T, axis=1).max(), np.linalg.norm(E - E @ U @ U.T, axis=1)
        e = m.call(ExperimentPatterns, torch.tensor(P, dtype=torch.float32))
        learn = s.res * float(m.rng.choice([1.0, 1.0, 1.25, 0.8]))
        with sim.quiet():
            m.call(pca_dictionary_index_orientations, s.mp, s.geom, e, k, signal_mask=tm, dictionary_resolution_learn_deg=learn,
                   dictionary_resolution_index_deg=s.res, quantized_via_ao=False, match_dtype=torch.float32,
                   experiment_chunk_size=int(m.rng.choice([4, 500])))
        i, far = ids(s.dic, ref.npf(e.orientations))
        m.small(far, 1e-5, "pca-some:dictionary-member")
        M = E @ S.T
        loss = M.max(1) - M[np.arange(n), i]
        slack = 2e-3 + 2 * rd * re + (0.2 * np.sqrt(rd) if learn != s.res else 0)
        m.small(np.maximum(0, loss - slack), 1e-12, "pca-some:near-best", f"{k} of {npix} components, residuals {rd:.2g} {re.max():.2g}")
        if learn == s.res and w[-k] - w[-k - 1] > 1e-3 * w[-k]:
            sc = ref.npf(e.best_metrics)
            want = ((E @ U) * (S @ U)[i]).sum(1)
            m.small(abs(sc - want), 5e-3, "pca-some:score-in-subspace", f"{k} of {npix} components")


@PROP.scenario("phases", rounds=4)
def phases(m):
    s1 = Setup(m)
    others = []
    for _ in range(int(m.rng.integers(1, 3))):
        o = Setup(m, shape=s1.shape)
        o.pc, o.tilts, o.geom = s1.pc, s1.tilts, s1.geom
        o.res = s1.res
        o.dirs = s1.dirs
        o.lg = int(m.rng.choice([5, 7, 9, 10, 11]))
        o.img = sim.images(sim.intensity(m.rng, o.lg), 30)
        o.mp = m.call(MasterPattern, tuple(torch.tensor(o.img, dtype=torch.float32)), laue_group=o.lg)
        with sim.quiet():
            o.dic = ref.npf(m.call(sample_ori_fz_laue_angle, o.lg, o.res, torch.device("cpu")))
        o.sims = sim.simulate(o.img, o.dirs, o.dic)
        others.append(o)
    S = [s1] + others
    P, src, lab = [], [], []
    for j, s in enumerate(S):
        p, k = s.patterns(m, 8)
        P.append(p), src.append(k), lab.append(np.full(8, j))
    perm = m.rng.permutation(8 * len(S))
    P, src, lab = np.concatenate(P)[perm], np.concatenate(src)[perm], np.concatenate(lab)[perm]
    P = ref.npf(torch.tensor(P, dtype=torch.float32))
    e = m.call(ExperimentPatterns, torch.tensor(P, dtype=torch.float32))
    fn, arg = (dictionary_index_orientations, {"dictionary_resolution_degrees": s1.res, "quantized_if_x86": False})
    if m.rng.random() < 0.3:
        fn, arg = pca_dictionary_index_orientations, {"n_pca_components": s1.sims.shape[1], "dictionary_resolution_learn_deg": s1.res,
                                                      "dictionary_resolution_index_deg": s1.res, "quantized_via_ao": False}
    with sim.quiet():
        m.call(fn, [s.mp for s in S], s1.geom, e, match_dtype=torch.float32, experiment_chunk_size=int(m.rng.choice([5, 400])), **arg)
    m.seen(P.reshape(len(P), -1))
    E = sim.unit(P.reshape(len(P), -1))
    best = np.stack([(E @ sim.unit(s.sims).T).max(1) for s in S])
    for j, s in enumerate(S):
        judge(m, s, e, P, np.where(lab == j, src, -1), None, "angular", 1e-3, "phases", 1, ph=j)
    ph = e.phases.numpy().astype(int)
    m.need(bool(((ph >= 0) & (ph < len(S))).all()), "phases:valid")
    m.small(best.max(0) - best[ph, np.arange(len(P))], 2e-3, "phases:best-phase")
    own = (src >= 0) & (best.max(0) - np.sort(best, 0)[-2] > 5e-3)
    m.expect(bool((ph[own] == lab[own]).all()), "phases:noise-free-phase")
    q = ref.npf(e.orientations)
    for j, s in enumerate(S):
        m.close(torch.tensor(q[ph == j]), e.raw_indexing_results[j][0][ph == j][:, 0], 1e-6, "phases:orientation-of-phase")
    # indexing the same set again with one phase replaces everything
    with sim.quiet():
        m.call(fn, s1.mp, s1.geom, e, match_dtype=torch.float32, **arg)
    m.expect(bool((e.phases == 0).all()), "phases:reindexed-with-one")
    judge(m, s1, e, P, np.where(lab == 0, src, -1), None, "angular", 1e-3, "phases-again", 1)


@PROP.scenario("scan-position", rounds=1)
def scan_position(m):
    """average_pattern_center=False is documented to give every scan point its own pattern centre."""
    s = Setup(m)
    P, src = s.patterns(m, 4)
    e = m.call(ExperimentPatterns, torch.tensor(P, dtype=torch.float32))
    m.call(e.set_spatial_coords, torch.zeros(4, 3))
    m.seen(P.reshape(4, -1))
    with sim.quiet():
        m.call(dictionary_index_orientations, s.mp, s.geom, e, dictionary_resolution_degrees=s.res, match_dtype=torch.float32,
               quantized_if_x86=False, average_pattern_center=False)
    judge(m, s, e, ref.npf(e.patterns), src, None, "angular", 1e-3, "position", 1)
