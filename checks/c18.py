"""C18 streaming covariance and principal components."""
import numpy as np
import torch

from ebsdtorch.utils.pca_covmat import OnlineCovMatrix
from ebsdtorch.utils.pca_online import KrasulinaPCA, OjaPCA
from vlib import ref
from vlib.core import Prop

PROP = Prop(
    "C18",
    "a case is one batch of an observation stream (single rows, ragged and empty batches, permuted and re-split streams, offsets up to "
    "1e4 standard deviations); after every batch the streamed state is compared with batch statistics of everything fed so far",
    ["at least two observations are fed before a covariance is read",
     "the online component methods are uncentred, as published; convergence is judged for streams with a spectral gap and many batches",
     "float32 tolerances scale with the size of the data, not with its spread alone"],
)


def cuts(m, n):
    kind = m.rng.integers(0, 4)
    if kind == 0:
        return [n]
    if kind == 1:
        return [1] * n
    out = []
    while sum(out) < n:
        out.append(int(min(n - sum(out), m.rng.integers(0 if kind == 3 else 1, 1 + n // (1 if m.rng.random() < 0.5 else 4) + 1))))
    return out


def data(m):
    n, d = int(m.rng.integers(2, 120)), int(m.rng.integers(1, 24))
    A = m.rng.normal(size=(d, d)) * 10 ** m.rng.uniform(-1, 1, d)
    X = m.rng.normal(size=(n, d)) @ A
    X = X * 10 ** m.rng.uniform(-2, 2) 
    off = float(m.rng.choice([0, 0, 1, 30, 1000, 10000]))
    X = X + off * X.std() * m.rng.normal(size=d)
    return X


@PROP.scenario("covariance", rounds=12)
def covariance(m):
    for _ in range(m.n(10, 40)):
        X = data(m)
        f64 = m.rng.random() < 0.5
        dt = torch.float64 if f64 else torch.float32
        t = torch.tensor(X, dtype=dt)
        X = ref.npf(t)
        n, d = X.shape
        corr = d > 1 and m.rng.random() < 0.25
        o = m.call(OnlineCovMatrix, d, covmat_dtype=dt, delta_dtype=dt, correlation=corr)
        a = 0
        plan = cuts(m, n)
        eps = (1e-14 if f64 else 1e-6)
        for b in plan:
            m.call(o, t[a:a + b])
            a += b
            m.seen([n, d, a, b, m.round, _])
            if a < 2:
                continue
            if a < n and m.rng.random() < 0.7:
                continue
            got = m.call(o.get_covmat)
            m.shape(got, (d, d), "covariance:shape")
            C = np.cov(X[:a].T).reshape(d, d)
            big = np.sqrt(np.outer((X[:a] ** 2).max(0), (X[:a] ** 2).max(0)))
            # mean rounding enters squared, the deltas enter with the spread
            sd = np.sqrt(np.diag(C))
            tol = 200 * eps * np.outer(sd, sd) + 40 * eps * (np.outer(sd, np.sqrt(np.diag(big))) + np.outer(np.sqrt(np.diag(big)), sd)) + (40 * eps) ** 2 * big + 1e-300
            if corr:
                if (sd <= 1e-3 * np.sqrt(np.diag(big))).any() or a < 4:
                    continue
                C = C / np.outer(sd, sd)
                tol = tol / np.outer(sd, sd) + 1e3 * eps * (1 + (np.sqrt(np.diag(big)) / sd).max())
            m.small(abs(ref.npf(got) - C) / tol, 1, "covariance:equals-batch" if not corr else "covariance:correlation",
                    f"n={a} of {n}, d={d}, batches {plan[:12]}")
        m.expect(int(o.obs) == n, "covariance:count")
        m.small(abs(ref.npf(o.mean)[0] - X.mean(0)) / (abs(X).max() * 100 * eps + 1e-300), 1, "covariance:mean")
        G = m.call(o.get_covmat)
        if not torch.isfinite(G).all():
            continue
        V = m.call(o.get_eigenvectors)
        m.shape(V, (d, d), "eigenvectors:shape")
        V, G = ref.npf(V), ref.npf(G)
        m.small(abs(V.T @ V - np.eye(d)), 1e-4 if not f64 else 1e-10, "eigenvectors:orthonormal")
        R = V.T @ ((G + G.T) / 2) @ V
        sc = abs(G).max() + 1e-300
        asym = abs(G - G.T).max() / sc
        m.small(abs(R - np.diag(np.diag(R))) / sc, (1e-4 if not f64 else 1e-10) + 4 * d * asym, "eigenvectors:diagonalise")
        m.expect(bool((np.diff(np.diag(R)) >= -((1e-4 if not f64 else 1e-10) + 4 * d * asym) * sc).all()), "eigenvectors:ascending")


@PROP.scenario("any-order", rounds=8)
def any_order(m):
    for _ in range(6):
        X = torch.tensor(data(m))
        n, d = X.shape
        res = []
        for _i in range(4):
            o = m.call(OnlineCovMatrix, d, covmat_dtype=torch.float64, delta_dtype=torch.float64)
            p = torch.tensor(m.rng.permutation(n))
            a = 0
            for b in cuts(m, n):
                m.call(o, X[p][a:a + b])
                a += b
            m.seen([n, d, m.round, _, _i])
            res.append(ref.npf(m.call(o.get_covmat)))
        sc = X.std(0).max() ** 2 * 1e-9 + X.abs().max() ** 2 * 1e-13
        for r in res[1:]:
            m.small(abs(r - res[0]) / sc, 1, "any-order:same-covariance")
        # two independent accumulators do not share state
        o1, o2 = OnlineCovMatrix(d, torch.float64, torch.float64), OnlineCovMatrix(d, torch.float64, torch.float64)
        m.call(o1, X)
        m.expect(int(o2.obs) == 0 and bool((o2.covmat_aggregate == 0).all()), "any-order:independent-accumulators")


def stream(m, d, k, B, steps, gap):
    U = np.linalg.qr(m.rng.normal(size=(d, d)))[0]
    s = np.concatenate([np.linspace(2, 1, k), np.full(d - k, gap)])
    for _ in range(steps):
        yield U, torch.tensor((m.rng.normal(size=(B, d)) * s) @ U.T, dtype=torch.float32)


def angle(U, k, C):
    return float(np.linalg.svd(U[:, :k].T @ np.linalg.qr(C)[0], compute_uv=False).min())


@PROP.scenario("components", rounds=6)
def components(m):
    for cls, kw in ((OjaPCA, {}), (OjaPCA, {"use_oja_plus": True}), (KrasulinaPCA, {})):
        d, k = int(m.rng.integers(8, 30)), int(m.rng.integers(1, 6))
        p = m.call(cls, d, k, **kw)
        for i, (U, x) in enumerate(stream(m, d, k, 256, 60 if cls is OjaPCA else 250, 0.1)):
            m.call(p, x)
            m.seen([cls.__name__, d, k, i, m.round])
            C = m.call(p.get_components)
            m.shape(C, (d, k), "components:shape")
            m.need(bool(torch.isfinite(C).all()), "components:finite")
            C = ref.npf(C)
            m.small(abs(C.T @ C - np.eye(k)), 1e-4, f"components:orthonormal {cls.__name__}")
            if m.rng.random() < 0.2:
                y = torch.tensor(m.rng.normal(size=(7, d)), dtype=torch.float32)
                z = m.call(p.transform, y)
                back = m.call(p.inverse_transform, z)
                back = ref.npf(back) if cls is OjaPCA else ref.npf(back).T
                m.shape(z, (7, k) if cls is OjaPCA else (k, 7), "components:transform-shape")
                P = C @ C.T
                m.small(abs(back - ref.npf(y) @ P), 2e-3, "components:inverse-transform-projects")
                # what lies in the span survives the round trip
                yy = torch.tensor(back if cls is OjaPCA else back, dtype=torch.float32)
                b2 = m.call(p.inverse_transform, m.call(p.transform, yy))
                b2 = ref.npf(b2) if cls is OjaPCA else ref.npf(b2).T
                m.small(abs(b2 - back), 5e-3, "components:round-trip")
        a = angle(U, k, C)
        m.expect(a > (0.98 if cls is OjaPCA else 0.9), f"components:converge {cls.__name__}", f"cosine of the largest principal angle {a}")
