"""Synthetic phases and patterns: Laue-symmetric intensity on the sphere, detector geometry, reference simulation."""
import contextlib
import io
import os
import sys

import numpy as np
import torch

from vlib import geom, laue, ref


@contextlib.contextmanager
def quiet():
    """Discard what the code under test prints (progress bars keep a reference to the real stdout)."""
    sys.stdout.flush()
    keep = os.dup(1)
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1)
    try:
        with contextlib.redirect_stderr(io.StringIO()):
            yield
    finally:
        sys.stdout.flush()
        os.dup2(keep, 1)
        os.close(keep)
        os.close(null)


def intensity(rng, lg, n_seeds=3, width=0.1):
    """callable directions -> intensity, symmetric under the Laue group (bands are even in the direction)."""
    a = rng.normal(size=(n_seeds, 3))
    a /= np.linalg.norm(a, axis=1, keepdims=True)
    normals = np.concatenate([(ref.q_to_R(np.asarray(q, float)) @ a.T).T for q in laue.GROUPS[lg]])
    w = np.tile(width * rng.uniform(0.7, 1.6, n_seeds), len(laue.GROUPS[lg]))
    h = np.tile(rng.uniform(0.5, 1.5, n_seeds), len(laue.GROUPS[lg]))

    def f(v):
        c = v @ normals.T
        return (h * np.exp(-((c / w) ** 2))).sum(-1)

    return f


def images(f, n):
    d = geom.node_dirs(n, n)
    return np.stack([f(d * [1, 1, s]).reshape(n, n) for s in (1, -1)])


def detector(rng, shape, spread=1.0):
    """EBSDGeometry arguments and the unit directions of the (row-major) pixels in the sample frame."""
    pc = tuple(float(x) for x in np.array([0.5, 0.4, 0.55]) + spread * rng.uniform(-0.15, 0.15, 3))
    tilts = (0.0, float(rng.uniform(60, 75)), float(rng.uniform(-5, 8)))
    return pc, tilts


def directions(shape, pc, tilts, b=1):
    x = geom.pixel_positions(geom.grid(shape, (b, b)), pc, shape, tilts[2] - tilts[1], tilts[0])
    return x / np.linalg.norm(x, axis=-1, keepdims=True)


def simulate(img, dirs, q):
    """patterns (n, pixels) for crystal orientations q: the direction looked up is q * d * q^-1."""
    R = ref.q_to_R(np.asarray(q, float))
    v = np.einsum("nij,pj->npi", R.reshape(-1, 3, 3), dirs)
    return geom.lookup(img[0], img[1], v)


def unit(p):
    p = p - p.mean(-1, keepdims=True)
    return p / np.maximum(np.linalg.norm(p, axis=-1, keepdims=True), 1e-30)
