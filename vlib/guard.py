"""Bitwise snapshots of tensors and of global state (C33, C34)."""
import os
import pkgutil
import random
import signal
import sys
import threading
import warnings

import numpy as np
import torch

from vlib.core import TargetRaised
from vlib.fuzz import LAYOUTS  # noqa: F401


def bits(t):
    "all bytes of the memory behind a tensor"
    s = t.detach().untyped_storage()
    return torch.tensor([], dtype=torch.uint8).set_(s).clone()


class Held:
    "one tensor that nobody may write to"

    def __init__(self, t):
        self.t, self.bits = t, bits(t)
        self.meta = self.describe()

    def describe(self):
        t = self.t
        return (tuple(t.shape), t.stride(), t.storage_offset(), t.dtype, t.device, t.requires_grad, t.is_leaf, t.data_ptr(), t.untyped_storage().nbytes(), t.grad is None if t.is_leaf else True)

    def changed(self):
        if self.describe() != self.meta:
            return f"properties {self.meta} became {self.describe()}"
        now = bits(self.t)
        if not torch.equal(now, self.bits):
            return f"{int((now != self.bits).sum())} of {len(now)} bytes of memory differ"
        return None


def state(random_ok=False):
    "global state that the caller's other code relies on"
    w = warnings.filters
    d = dict(
        default_dtype=torch.get_default_dtype(), default_device=str(torch.get_default_device()), grad=torch.is_grad_enabled(), inference=torch.is_inference_mode_enabled(),
        threads=torch.get_num_threads(), interop=torch.get_num_interop_threads(), deterministic=torch.are_deterministic_algorithms_enabled(),
        warn_only=torch.is_deterministic_algorithms_warn_only_enabled(), fill=torch.utils.deterministic.fill_uninitialized_memory, anomaly=torch.is_anomaly_enabled(),
        matmul=torch.get_float32_matmul_precision(), mkldnn=torch.backends.mkldnn.is_available() and torch.backends.mkldnn.flags is not None,
        autocast=torch.is_autocast_enabled("cpu"), quantized=torch.backends.quantized.engine, print=str(vars(torch._tensor_str.PRINT_OPTS)), numpy_print=str(np.get_printoptions()), numpy_err=str(np.geterr()),
        python_random=random.getstate(), numpy_random=str(np.random.get_state()), environ=dict(os.environ), cwd=os.getcwd(), path=list(sys.path), filters=[str(f) for f in w], recursion=sys.getrecursionlimit(),
        signals=[str(signal.getsignal(s)) for s in (signal.SIGINT, signal.SIGTERM, signal.SIGALRM)], stdout=id(sys.stdout), stderr=id(sys.stderr), threads_alive=threading.active_count(), dispatch=len(torch.overrides._get_current_function_mode_stack()),
    )
    if not random_ok:
        d["torch_random"] = torch.get_rng_state().numpy().tobytes()
    return d


def difference(a, b):
    return [k for k in a if a[k] != b.get(k)]


def module_tensors():
    "tensors that belong to the modules of the library"
    out = {}
    for name, mod in sorted(sys.modules.items()):
        if name == "ebsdtorch" or name.startswith("ebsdtorch."):
            for k, v in vars(mod).items():
                if isinstance(v, torch.Tensor):
                    out[f"{name}.{k}"] = v
    return out


def overlap(a, b):
    return a.untyped_storage().data_ptr() == b.untyped_storage().data_ptr() and a.untyped_storage().nbytes() > 0


def run(m, name, fn, *args):
    "call the code under test with exactly these tensors"
    rec = m.calls.setdefault(name, [0, 0])
    rec[0] += 1
    try:
        out = fn(*args)
    except Exception as e:  # noqa: BLE001
        raise TargetRaised(name, e) from e
    rec[1] += 1
    return out
