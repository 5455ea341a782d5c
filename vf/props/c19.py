"""C19: the native code stays within its memory and gives it back"""
import copy
import ctypes
import gc
import hashlib
import importlib
import os
import sys
import types

import numpy as np
import scipy.sparse as sp

from vf import gen, native
from vf.core import Ctx, Skip, Violation

CASES = {"quick": 1400, "thorough": 40000}
NPROC = 8
DEATH_IS_VIOLATION = True
RULE = ("a case is one program of matrix, clustering or comparison operations run twice, on "
        "two instrumented builds with different contents of uninitialised memory; distinct "
        "by program and data")
EXPECT = ["native-call", "leak-loop", "program-c06", "program-c07", "program-c12", "program-c09",
          "direct", "bounds-checked-build", "sanitizer-build", "traces-compared"]
ASSUMPTIONS = ["the arrays handed to a native function are consistent: indices lie within the "
               "matrices they refer to (the Python layer guarantees it)",
               "the extensions are built without OpenMP, as setup.py does: no threads exist in "
               "native code, so there is nothing for a race detector to observe"]
ROOT = None
TRACE = []          # (function, digest of the arguments, digest of the outcome)
LAST = {}           # last arguments of each function
SHIMS = {}


# ---------------------------------------------------------------- harness hooks
def seed_index(i):
    """cases 2k and 2k+1 are the same program on the two builds"""
    return i // 2


def prepare(root, env):
    err = native.build(root)
    if err:
        return {"error": err}
    env["VF_NATIVE_ROOT"] = root
    return {"coverage": {"builds": native.FLAGS}}


def worker_env(env, w, here):
    return native.environment(env, env["VF_NATIVE_ROOT"], "AB"[w % 2], here)


def setup():
    """runs before flowstab is imported"""
    fill = int(os.environ.get("VF_FILL", "0"))
    real_empty, real_like = np.empty, np.empty_like

    def empty(*a, **k):
        r = real_empty(*a, **k)
        if r.dtype != object and r.size and r.flags.c_contiguous:
            r.view(np.uint8).fill(fill) if r.ndim else None
        return r

    def empty_like(*a, **k):
        r = real_like(*a, **k)
        if type(r) is np.ndarray and r.dtype != object and r.size and r.flags.c_contiguous \
                and r.ndim:
            r.view(np.uint8).fill(fill)
        return r
    for name in native.EXT:
        mod = importlib.import_module(name)
        assert "/src/" in mod.__file__ and not mod.__file__.startswith("/repo"), mod.__file__
        shim = types.ModuleType(name)
        shim.__dict__.update({k: v for k, v in vars(mod).items() if not k.startswith("__")})
        for k, f in vars(mod).items():
            if callable(f) and not isinstance(f, type) and not k.startswith("_") \
                    and str(getattr(f, "__module__", "")).endswith(name):
                setattr(shim, k, watched(f"{name}.{k}", f, empty, empty_like, real_empty,
                                         real_like))
        shim.__file__ = mod.__file__
        SHIMS[name] = (shim, mod)
        sys.modules[name] = shim


def flat(x, h, depth=0):
    if isinstance(x, (np.ndarray, memoryview)) or type(x).__name__ == "_memoryviewslice" or \
            type(x).__name__ == "memoryview":
        a = np.asarray(x)
        h.update(str((a.dtype, a.shape)).encode())
        h.update(np.ascontiguousarray(a).tobytes() if a.dtype != object else repr(a).encode())
    elif isinstance(x, (list, tuple)):
        h.update(b"[%d" % len(x))
        for v in x:
            flat(v, h, depth + 1)
    elif isinstance(x, (set, frozenset)):
        h.update(repr(sorted(x, key=repr)).encode())
    elif isinstance(x, float):
        h.update(x.hex().encode())
    else:
        h.update(repr(x).encode())


def digest(x):
    h = hashlib.sha1()
    flat(x, h)
    return h.hexdigest()[:12]


def watched(name, f, empty, empty_like, real_empty, real_like):
    def call(*a, **k):
        din = digest((a, sorted(k.items())))
        LAST[name] = (copy.deepcopy(a), copy.deepcopy(k))
        np.empty, np.empty_like = empty, empty_like
        try:
            r = f(*a, **k)
        except Exception as e:
            TRACE.append((name, din, "raised " + type(e).__name__))
            if isinstance(e, IndexError) and "ut of bounds" in str(e):
                # a checked memory view: not to be swallowed by the caller
                raise Violation("in-bounds", f"{name}: {e}; arguments {short(LAST[name])}")
            raise
        finally:
            np.empty, np.empty_like = real_empty, real_like
        TRACE.append((name, din, digest((r, a))))
        return r
    call.__name__ = f.__name__
    call.native = f
    return call


def short(x):
    s = repr(x)
    return s if len(s) < 1500 else s[:1500] + "..."


class Quiet(Ctx):
    """a context for programs whose results are judged by other properties"""

    def check(self, cond, monitor, message=""):
        pass

    def fail(self, monitor, message):
        raise Skip

    def equal(self, *a, **k):
        pass

    def close(self, got, want, *a, **k):
        if hasattr(got, "toarray"):
            got.toarray()

    def no_raise(self, monitor, message, fn, *a, **kw):
        return fn(*a, **kw)

    def raises(self, excs, monitor, message, fn, *a, **kw):
        try:
            fn(*a, **kw)
        except Violation:
            raise
        except Exception:
            pass


def program(name, rng, ctx):
    q = Quiet(ctx.seed, ctx.scratch, ctx.tier)
    try:
        importlib.import_module("vf.props." + name).case(rng, q)
    except Violation as v:
        if v.monitor == "in-bounds":
            raise
    except Exception:
        # a wrong result or an unexpected exception is for the property of the program
        ctx.feature("program-raised")
    ctx.feature("program-" + name)


# ---------------------------------------------------------------- direct calls
def csr(rng, n, m=None, dens=None, unsorted=False):
    m = n if m is None else m
    dens = float(rng.choice([0.0, 0.1, 0.5, 1.0])) if dens is None else dens
    M = sp.csr_matrix((rng.random((n, m)) < dens) * (rng.random((n, m)) + 0.1))
    if n and rng.random() < 0.3:
        M = M.tolil()
        M[int(rng.integers(n))] = 0
        M = M.tocsr()
    if unsorted:
        for i in range(n):
            s = slice(M.indptr[i], M.indptr[i + 1])
            p = rng.permutation(s.stop - s.start)
            M.indices[s], M.data[s] = M.indices[s][p], M.data[s][p]
    M.indices, M.indptr = M.indices.astype(np.int32), M.indptr.astype(np.int32)
    return M


def direct(rng, ctx):
    ff, ss = (SHIMS[n][0] for n in native.EXT)
    n = int(rng.choice([1, 2, 3, 7, 20, 64])) if rng.random() < 0.95 else 200
    i32 = np.int32

    def sub(lo=0):
        k = int(rng.integers(lo, n + 1))
        return np.sort(rng.choice(n, k, replace=False)).astype(i32)
    un = bool(rng.random() < 0.4)
    a, b = sub(), sub()
    A, B = csr(rng, len(a), unsorted=un), csr(rng, len(b), unsorted=un)
    M = csr(rng, n, unsorted=un)
    C = M.tocsc()
    C.indices, C.indptr = C.indices.astype(i32), C.indptr.astype(i32)
    ix = sub()
    rng.shuffle(ix)
    k = int(rng.integers(n))
    p = gen.prob(rng, n)
    part = gen.partition(rng, n)
    arr = np.concatenate([sorted(c) for c in part]).astype(i32)
    ptr = np.cumsum([0] + [len(c) for c in part]).astype(i32)
    d = float(rng.choice([0.0, 1.0, 0.5]))
    S = rng.random((n, n))
    i64 = np.int64
    tri = sp.triu(M).tocsr()
    other = gen.partition(rng, n)
    v1, v2 = ([np.array(sorted(c), dtype=i32) for c in q] for q in (part, other))
    calls = [
        (ss, "stoch_mat_add", (n, A.data, A.indices, A.indptr, a, d, B.data, B.indices,
                               B.indptr, b, 1.0)),
        (ss, "stoch_mat_sub", (n, A.data, A.indices, A.indptr, a, 1.0, B.data, B.indices,
                               B.indptr, b, d)),
        (ss, "rebuild_nnz_rowcol", (A.data, A.indices.astype(i64), A.indptr.astype(i64),
                                    a.astype(i64), n, d)),
        (ss, "inplace_csr_row_normalize", (M.data.copy(), M.indptr.astype(i64), n, d)),
        (ss, "inplace_csr_row_normalize_array", (M.data.copy(), M.indptr.astype(i64), n, p)),
        (ss, "cython_inplace_csr_row_normalize_triu",
         (tri.data.copy(), tri.indptr.astype(i64), tri.indices.astype(i64), n, n, p)),
        (ss, "sparse_stoch_from_full_csr", (np.arange(n, dtype=i32), M.data, M.indices,
                                            M.indptr, d)),
        (ss, "get_submat_sum", (M.data, M.indices, M.indptr, ix, a)),
        (ss, "aggregate_csr_mat", (M.data, M.indices, M.indptr, arr, ptr)),
        (ss, "aggregate_csr_mat_2", (M.data, M.indices, M.indptr, arr, ptr)),
        (ss, "compute_delta_PT_moveto", (M.data, M.indices, M.indptr, C.data, C.indices,
                                         C.indptr, k, ix)),
        (ss, "compute_delta_PT_moveout", (M.data, M.indices, M.indptr, C.data, C.indices,
                                          C.indptr, k, ix)),
        (ss, "compute_delta_S_moveto", (M.data, M.indices, M.indptr, C.data, C.indices,
                                        C.indptr, k, ix, p, p)),
        (ss, "compute_delta_S_moveout", (M.data, M.indices, M.indptr, C.data, C.indices,
                                         C.indptr, k, ix, p, p)),
        (ff, "sum_Sto", (S, k, ix.tolist())), (ff, "sum_Sout", (S, k, ix.tolist())),
        (ff, "compute_S", (p, p, S[:, ::-1] if rng.random() < .3 else S)),
        (ff, "compute_S_0t0", (p, p + 0.1, S[:12, :12].copy())),
        (ff, "cython_nmi", (part, other, n, len(part), len(other))),
        (ff, "cython_nvi", (part, other, n)), (ff, "cython_nvi_parallel", (part, other, n, 2)),
        (ff, "cython_nvi_vectors", (v1, v2, n)), (ff, "cython_nvi_mat", (part, other, n)),
    ]
    order = rng.permutation(len(calls))[:int(rng.integers(4, len(calls) + 1))]
    names = []
    for j in order:
        mod, name, args = calls[j]
        f = getattr(mod, name, None)
        if f is None:
            continue
        try:
            f(*args)
        except Violation:
            raise
        except Exception:
            # another signature: a matter of the private interface
            ctx.feature("direct-call-refused")
        names.append(name)
    ctx.feature("direct")
    return names


# ---------------------------------------------------------------- leaks
def heap():
    lib = ctypes.CDLL(None)
    f = lib.__sanitizer_get_current_allocated_bytes
    f.restype = ctypes.c_size_t
    return f


def leaks(ctx):
    """every native function called so far, repeated: does live heap memory grow?"""
    live = heap()
    for name, (a, k) in list(LAST.items()):
        f = getattr(SHIMS[name.split(".")[0]][0], name.split(".")[1]).native
        reps = 40

        def block():
            for _ in range(reps):
                try:
                    f(*a, **k)
                except Exception:
                    return False
            return True
        if not block():
            continue
        growth = []
        gc.collect()
        gc.disable()
        try:
            for _ in range(3):
                x = live()
                block()
                growth.append(live() - x)
        finally:
            gc.enable()
        ctx.check(min(growth) < reps * 8, "leak-loop",
                  f"{name}: {reps} calls with the same arguments left {growth} bytes "
                  f"allocated in three rounds; arguments {short((a, k))}")


def case(rng, ctx):
    TRACE.clear()
    kind = str(rng.choice(["c06", "c07", "c12", "c09", "direct"], p=[.3, .25, .1, .1, .25]))
    ctx.describe(program=kind, build=os.environ.get("VF_NATIVE"))
    names = direct(rng, ctx) if kind == "direct" else program(kind, rng, ctx)
    ctx.feature({"A": "bounds-checked-build", "B": "sanitizer-build"}
                [os.environ.get("VF_NATIVE", "A")])
    ctx.monitors["native-call"] += len(TRACE)
    for name in {t[0] for t in TRACE}:
        ctx.feature("called " + name)
    if rng.random() < 0.05:
        leaks(ctx)
        LAST.clear()
    ctx.trace = [list(t) for t in TRACE[:3000]]
    ctx.nontrivial(kind, ctx.trace)


def offline(results):
    """the two executions of each program, compared call by call"""
    pairs = {}
    for r in results:
        if r.get("trace") is not None and r["verdict"] == "held":
            pairs.setdefault(r["index"] // 2, []).append(r)
    for k, rs in sorted(pairs.items()):
        if len(rs) != 2:
            continue
        x, y = rs
        for s, t in zip(x["trace"], y["trace"]):
            if s[:2] != t[:2]:
                break           # the programs went different ways before this call
            x["monitors"]["traces-compared"] = x["monitors"].get("traces-compared", 0) + 1
            if s[2] != t[2]:
                yield {"seed": x["seed"], "index": x["index"],
                       "monitor": "initialised-memory",
                       "message": f"{s[0]}: equal arguments, but the outcome depends on the "
                                  f"content of fresh memory (program {x.get('desc')})",
                       "desc": x.get("desc")}
                break
