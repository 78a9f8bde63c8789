"""A stand-in for pyopencl that compiles the repository's OpenCL kernels for the host
with clang under UBSan and runs the work items on any number of threads.  Buffers are surrounded
by guard words, so that a write outside of them is seen."""
import ctypes
import hashlib
import os
import subprocess
import sys
import tempfile
import types

import numpy as np

GUARD = 4096
HERE = os.path.dirname(os.path.abspath(__file__))
_libs = {}


class OutOfBounds(Exception):
    pass


class UndefinedBehaviour(Exception):
    pass


class Buffer:
    def __init__(self, arr):
        self.shape, self.dtype = arr.shape, arr.dtype
        self.n = arr.nbytes
        raw = np.full(self.n + 2 * GUARD + 64, 0xA5, np.uint8)
        self.raw = raw[-raw.ctypes.data % 64 :][: self.n + 2 * GUARD]
        self.raw[GUARD : GUARD + self.n] = np.frombuffer(np.ascontiguousarray(arr).tobytes(), np.uint8)
        self.data = self

    def get(self, *a, **k):
        return np.frombuffer(self.raw[GUARD : GUARD + self.n].tobytes(), self.dtype).reshape(self.shape).copy()

    def pointer(self):
        return ctypes.c_void_p(self.raw.ctypes.data + GUARD)

    def intact(self):
        return bool((self.raw[:GUARD] == 0xA5).all() and (self.raw[GUARD + self.n :] == 0xA5).all())


def build(*cmds, **files):
    """compile the given sources in a scratch directory that is removed again, and load the library"""
    d = tempfile.mkdtemp(prefix="clhost")
    try:
        for name, text in files.items():
            with open(os.path.join(d, name.replace("_", ".")), "w") as f:
                f.write(text)
        for cmd in cmds:
            r = subprocess.run(cmd, cwd=d, capture_output=True, text=True)
            if r.returncode:
                raise RuntimeError("kernel does not build: " + r.stderr[-2000:])
        return ctypes.CDLL(d + "/k.so")
    finally:
        for f in os.listdir(d):
            os.unlink(os.path.join(d, f))
        os.rmdir(d)


def compile_kernel(src):
    h = hashlib.sha256(src.encode()).hexdigest()
    if h not in _libs:
        _libs[h] = build(
            ["clang", "-x", "cl", "-cl-std=CL1.2", "-Xclang", "-finclude-default-header", "-O2", "-fPIC",
             "-fsanitize=undefined", "-fno-sanitize-recover=all", "-fsanitize-minimal-runtime", "-c", "k.cl", "-o", "k.o"],
            ["clang++", "-O2", "-fPIC", "-shared", HERE + "/opencl_host.cpp", "k.o", "-o", "k.so"],
            k_cl=src,
        )
    return _libs[h]


def trampoline(types):
    """calls a kernel with these argument types; returns 1 if the sanitizer stopped it"""
    if types not in _libs:
        decl = ", ".join(types)
        args = ", ".join(f"{t} a{i}" for i, t in enumerate(types))
        use = ", ".join(f"a{i}" for i in range(len(types)))
        _libs[types] = build(
            ["clang++", "-O1", "-fPIC", "-shared", "-pthread", "t.cpp", "-o", "k.so"],
            t_cpp=f"""#include <csetjmp>
#include <atomic>
#include <thread>
#include <vector>
extern "C" int call(void (*f)({decl}), jmp_buf *(*jmp)(), void (*item)(unsigned long, unsigned long), unsigned long n, int threads, {args}) {{
    std::atomic<int> bad(0);
    std::atomic<unsigned long> next(0);
    auto work = [&] {{
        if (_setjmp(*jmp())) {{ bad = 1; return; }}
        for (unsigned long i; !bad && (i = next++) < n;) {{ item(i, n); f({use}); }}
    }};
    std::vector<std::thread> t;
    for (int i = 1; i < threads; i++) t.emplace_back(work);
    work();
    for (auto &x : t) x.join();
    return bad;
}}""",
        )
    return _libs[types].call


launches = []
threads = 1  # work items running at the same time


class Program:
    def __init__(self, ctx, src):
        self.src = src

    def build(self, *a, **k):
        self.lib = compile_kernel(self.src)
        return self

    def __getattr__(self, name):
        if name.startswith("__") or name in ("lib", "src"):
            raise AttributeError(name)
        fn = getattr(self.lib, name)
        self.lib.host_ub.restype = ctypes.c_char_p

        def launch(queue, global_size, local_size, *args):
            cargs, bufs, kinds = [], [], []
            for a in args:
                if isinstance(a, Buffer):
                    bufs.append(a)
                    cargs.append(a.pointer())
                    kinds.append("void *")
                elif isinstance(a, np.floating):
                    cargs.append(ctypes.c_float(float(a)))
                    kinds.append("float")
                elif isinstance(a, np.integer):
                    cargs.append(ctypes.c_int(int(a)))
                    kinds.append("int")
                else:
                    raise TypeError(f"kernel argument {a!r}")
            call = trampoline(tuple(kinds))
            n = int(np.prod(global_size))
            if call(fn, self.lib.host_jmp, self.lib.host_set_global, ctypes.c_ulong(n), ctypes.c_int(threads), *cargs):
                raise UndefinedBehaviour(f"{name}: {self.lib.host_ub().decode()}")
            launches.append((name, n))
            for b in bufs:
                if not b.intact():
                    raise OutOfBounds(f"{name} wrote outside of a buffer of shape {b.shape}")

        return launch


def install():
    if isinstance(sys.modules.get("pyopencl"), types.ModuleType) and hasattr(sys.modules["pyopencl"], "_host_stub"):
        return
    cl = types.ModuleType("pyopencl")
    cl._host_stub = True
    cl.create_some_context = lambda *a, **k: object()
    cl.Context = lambda *a, **k: object()
    cl.CommandQueue = lambda *a, **k: types.SimpleNamespace(finish=lambda: None)
    cl.Program = Program
    arr = types.ModuleType("pyopencl.array")
    arr.zeros = lambda q, shape, dtype=np.float32, **k: Buffer(np.zeros(shape, dtype))
    arr.empty = lambda q, shape, dtype=np.float32, **k: Buffer(np.full(shape, 77, dtype))
    arr.to_device = lambda q, a, **k: Buffer(np.asarray(a))
    cl.array = arr
    sys.modules["pyopencl"] = cl
    sys.modules["pyopencl.array"] = arr
