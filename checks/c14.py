"""C14 chunked nearest-neighbour search."""
import contextlib
import io

import numpy as np
import torch

from ebsdtorch.utils.knn import ChunkedKNN
from vlib import ref
from vlib.core import Prop

PROP = Prop(
    "C14",
    "a case is one query of a search history: random data and query sets cut into random chunks (single rows, ragged last chunks, "
    "whole-query and partial-query calls in any order), judged against an exhaustive search over all rows",
    ["scores are the dot product (angular), squared distance (euclidean) and city-block distance (manhattan), as in the code's own brute-force kernel",
     "8-bit searches are judged within the quantisation step of data and query, 16-bit ones within half precision",
     "k does not exceed the number of rows supplied"],
)


def scores(X, Q, metric):
    if metric == "angular":
        return Q @ X.T
    if metric == "euclidean":
        return ((Q[:, None] - X[None]) ** 2).sum(-1)
    return abs(Q[:, None] - X[None]).sum(-1)


def splits(m, n):
    kind = m.rng.integers(0, 4)
    if kind == 0:
        return [n]
    if kind == 1:
        c = int(m.rng.integers(1, n + 1))
        return [c] * (n // c) + ([n % c] if n % c else [])
    out = []
    while sum(out) < n:
        out.append(int(min(n - sum(out), m.rng.integers(1, 1 + (3 if kind == 2 else n)))))
    return out


def search(m, X, Q, metric, k, dt, quant, plan=None):
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        s = m.call(ChunkedKNN, len(X), len(Q), k, torch.device("cpu"), distance_metric=metric, match_dtype=dt, quantized_via_ao=quant)
    m.rejects(s.query_all, torch.tensor(Q[:1]), key="no-data-raises")
    a = 0
    for c in plan or splits(m, len(X)):
        m.call(s.set_data_chunk, X[a:a + c])
        a += c
        if m.rng.random() < 0.4:
            m.call(s.query_all, Q)
        else:
            b = 0
            parts = []
            for d in splits(m, len(Q)):
                parts.append((b, d))
                b += d
            for j in m.rng.permutation(len(parts)):
                b, d = parts[j]
                m.call(s.query_chunk, Q[b:b + d], b if m.rng.random() < 0.5 else torch.tensor(b))
    i, v = m.call(s.retrieve_topk)
    m.shape(i, (len(Q), k), "indices-shape")
    m.shape(v, (len(Q), k), "scores-shape")
    i2, v2 = m.call(s.retrieve_topk)
    m.expect(bool((i == i2).all() and (v == v2).all()), "retrieving-again")
    return i.numpy(), v.to(torch.float64).numpy()


def judge(m, X, Q, metric, k, i, v, err, tag):
    S = scores(X, Q, metric)
    sg = -1 if metric == "angular" else 1
    m.need(bool(((i >= 0) & (i < len(X))).all()), f"{tag}:real-rows")
    m.expect(all(len(set(r)) == k for r in i.tolist()), f"{tag}:no-duplicates")
    got = np.take_along_axis(S, i, 1)
    m.small(abs(v - got) / err, 1, f"{tag}:true-score", f"{metric} k={k} n={len(X)}")
    best = np.sort(sg * S, 1)[:, :k] * sg
    m.small(abs(v - best) / err, 1, f"{tag}:k-best", f"{metric} k={k} n={len(X)}")
    m.expect(bool((np.diff(sg * v, axis=1) >= 0).all()), f"{tag}:best-first")


def case(m):
    n, nq, d = int(m.rng.integers(1, 60)), int(m.rng.integers(1, 20)), int(m.rng.integers(1, 30))
    if m.rng.random() < 0.15:
        n, nq, d = int(m.rng.integers(60, 400)), int(m.rng.integers(20, 150)), int(m.rng.integers(1, 120))
    X, Q = m.rng.normal(size=(n, d)), m.rng.normal(size=(nq, d))
    X += m.rng.choice([0, 0, 2.0])
    kind = m.rng.integers(0, 4)
    if kind == 0:
        X /= np.linalg.norm(X, axis=1, keepdims=True)
        Q /= np.linalg.norm(Q, axis=1, keepdims=True)
    elif kind == 1:
        Q[: min(n, nq)] = X[m.rng.permutation(n)[: min(n, nq)]]
    elif kind == 2:
        X[n // 2:] = X[: n - n // 2]  # equal rows
    k = int(m.rng.choice([1, 1, 2, 5, n]))
    return X, Q, min(k, n)


@PROP.scenario("exact", rounds=12)
def exact(m):
    for _ in range(m.n(12, 40)):
        X, Q, k = case(m)
        metric = str(m.rng.choice(["angular", "euclidean", "manhattan"]))
        dt = torch.float32 if m.rng.random() < 0.6 else torch.float64
        x, q = torch.tensor(X, dtype=dt), torch.tensor(Q, dtype=dt)
        X, Q = ref.npf(x), ref.npf(q)
        i, v = search(m, x, q, metric, k, dt, False)
        m.seen(q)
        err = 1e-5 * (1 + (X**2).sum(1).max() + (Q**2).sum(1).max())
        judge(m, X, Q, metric, k, i, v, err, "exact")


@PROP.scenario("metric-with-default-arithmetic", rounds=6)
def quantized_other(m):
    """The default arithmetic setting must not change which metric is searched."""
    for _ in range(6):
        X, Q, k = case(m)
        metric = str(m.rng.choice(["euclidean", "manhattan"]))
        x, q = torch.tensor(X, dtype=torch.float32), torch.tensor(Q, dtype=torch.float32)
        dt = torch.float16 if m.rng.random() < 0.5 else torch.float32
        i, v = search(m, x, q, metric, k, dt, True)
        m.seen(q)
        X, Q = ref.npf(x), ref.npf(q)
        e = 1e-5 if dt == torch.float32 else 1e-2
        err = e * (1 + (X**2).sum(1).max() + (Q**2).sum(1).max())
        judge(m, X, Q, metric, k, i, v, err, "default-arithmetic")


@PROP.scenario("half", rounds=6)
def half(m):
    for _ in range(6):
        X, Q, k = case(m)
        metric = str(m.rng.choice(["angular", "euclidean", "manhattan"]))
        x, q = torch.tensor(X, dtype=torch.float32), torch.tensor(Q, dtype=torch.float32)
        i, v = search(m, x, q, metric, k, torch.float16, False)
        m.seen(q)
        X, Q = ref.npf(x), ref.npf(q)
        err = 1e-2 * (1 + (X**2).sum(1).max() + (Q**2).sum(1).max())
        judge(m, X, Q, metric, k, i, v, err, "half")


@PROP.scenario("eight-bit", rounds=8)
def eight_bit(m):
    if "fbgemm" not in torch.backends.quantized.supported_engines and "x86" not in torch.backends.quantized.supported_engines:
        m.seen("no 8-bit engine on this machine")
        return
    for _ in range(8):
        X, Q, k = case(m)
        x, q = torch.tensor(X, dtype=torch.float32), torch.tensor(Q, dtype=torch.float32)
        dt = torch.float16 if m.rng.random() < 0.5 else torch.float32
        i, v = search(m, x, q, "angular", k, dt, True)
        m.seen(q)
        X, Q = ref.npf(x), ref.npf(q)
        sx, sq = abs(X).max() / 127, (Q.max(initial=0) - Q.min(initial=0)) / 127
        err = 1.01 * (abs(X).sum(1).max() * sq + abs(Q).sum(1).max() * sx + X.shape[1] * sx * sq) + 1e-6
        judge(m, X, Q, "angular", k, i, v, err, "eight-bit")
        # well-separated rows are found exactly
        D = int(m.rng.integers(32, 64))
        E = np.where(m.rng.random((40, D)) < 0.5, -1.0, 1.0)
        E = E[np.unique(E, axis=0, return_index=True)[1]]
        p = m.rng.permutation(len(E))[:10]
        i, v = search(m, torch.tensor(E, dtype=torch.float32), torch.tensor(E[p], dtype=torch.float32), "angular", 1, dt, True)
        G = E @ E.T - 1e9 * np.eye(len(E))
        if G.max() < D - 6:
            m.expect(bool((i[:, 0] == p).all()), "eight-bit:separated-rows")


@PROP.scenario("chunking", rounds=6)
def chunking(m):
    """Any two histories over the same data give the same scores."""
    for _ in range(5):
        X, Q, k = case(m)
        metric = str(m.rng.choice(["angular", "euclidean", "manhattan"]))
        x, q = torch.tensor(X), torch.tensor(Q)
        err = 1e-9 * (1 + (X**2).sum(1).max() + (Q**2).sum(1).max())
        ref_v = None
        for plan in ([len(X)], [1] * len(X), None, None):
            i, v = search(m, x, q, metric, k, torch.float64, False, plan)
            m.seen(q)
            if ref_v is None:
                ref_v = v
            m.small(abs(v - ref_v) / err, 1e4, "chunking:same-scores", f"{metric} k={k} chunks {plan}")
    s = ChunkedKNN(2**31 + 5, 1, 1, torch.device("cpu"), quantized_via_ao=False, match_dtype=torch.float32)
    m.expect(s.knn_indices.dtype == torch.int64, "chunking:wide-indices")
    m.call(s.set_data_chunk, torch.ones(1, 2))
    m.call(s.query_all, torch.ones(1, 2))
    m.expect(s.retrieve_topk()[0].dtype == torch.int64, "chunking:wide-indices")
    s2 = ChunkedKNN(3, 1, 1, torch.device("cpu"), distance_metric="nope", quantized_via_ao=False, match_dtype=torch.float32)
    m.call(s2.set_data_chunk, torch.ones(3, 2))
    m.rejects(s2.query_all, torch.ones(1, 2), key="chunking:unknown-metric-raises")
