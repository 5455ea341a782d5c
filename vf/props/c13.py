"""C13: parallel computations give what the serial ones give"""
import functools
import os
import time
from itertools import combinations

import numpy as np
import scipy.sparse as sp

from vf import gen
from vf.core import dense, snap
from vf.net import build, check_list

import flowstab.network_clustering as nc
import flowstab.parallel_clustering as pc
import flowstab.parallel_expm as pe
from flowstab.network_clustering import Clustering, SparseClustering
from flowstab.sparse_stoch_mat import SparseAutocovMat
from flowstab.temporal_network import sparse_lapl_expm
from vf.props.c12 import nvi

CASES = {"quick": 350, "thorough": 6000}
NPROC = 4
RULE = ("a case is one work list (clustering repetitions, partition pairs or an exponential), a "
        "process count and random delays inside the worker processes; every item is "
        "compared with the serial computation; distinct by work, process count and order in which "
        "items finished")
EXPECT = ["cluster-seed", "cluster-stability", "cluster-valid", "count", "seeds-distinct",
          "nvi-items", "nvi-sample", "expm", "expm-threshold", "expm-subspace",
          "inputs-untouched", "dense", "sparse", "asymmetric", "one-process", "more-processes-than-work",
          "network-nproc", "finish-order-differs", "large-component", "later-call-independent",
          "repeated-partition", "serial-seed", "serial-stability"]
ASSUMPTIONS = ["worker processes are forked (Linux default of this Python)"]

DELAY = {"max": 0.0, "log": None}


def _delayed(fn):
    @functools.wraps(fn)
    def wrapped(*a, **kw):
        if DELAY["max"]:
            time.sleep(int.from_bytes(_URANDOM(2), "big") / 65535 * DELAY["max"])
        r = fn(*a, **kw)
        if DELAY["log"]:
            fd = os.open(DELAY["log"], os.O_WRONLY | os.O_APPEND | os.O_CREAT)
            os.write(fd, b"%d %d\n" % (os.getpid(), time.monotonic_ns()))
            os.close(fd)
        return r
    return wrapped


_URANDOM = os.urandom


def setup():
    for cls in (Clustering, SparseClustering):
        if "find_louvain_clustering" in vars(cls):
            cls.find_louvain_clustering = _delayed(cls.find_louvain_clustering)
    for mod, name in ((pc, "norm_var_information"), (pe, "expm"), (pe, "expm_multiply")):
        if hasattr(mod, name):
            setattr(mod, name, _delayed(getattr(mod, name)))


class Seeds:
    """the seeds drawn by the code come from the generator of the case"""

    def __init__(self, rng):
        self.rng = rng

    def __enter__(self):
        def urandom(n):
            return self.rng.bytes(n) if n == 4 else _URANDOM(n)
        os.urandom = urandom

    def __exit__(self, *a):
        os.urandom = _URANDOM


def stab(S, cl):
    return float(sum(S[np.ix_(sorted(c), sorted(c))].sum() for c in cl))


def canon(cl):
    return sorted(sorted(int(v) for v in c) for c in cl)


def clustering_case(rng, ctx):
    n = int(rng.integers(3, 14))
    sparse = bool(rng.random() < 0.5)
    ctx.feature("sparse" if sparse else "dense")
    W = rng.random((n, n)) ** 3 * (rng.random((n, n)) < float(rng.choice([0.4, 1])))
    if rng.random() < 0.4:
        W = W + W.T
    else:
        ctx.feature("asymmetric")
    W[np.arange(n), np.arange(n)] += (W.sum(1) == 0)
    T = W / W.sum(1, keepdims=True)
    p1 = gen.prob(rng, n)
    p2 = p1 @ T
    kw = dict(p1=p1, T=sp.csr_matrix(T) if sparse else T)
    want = np.diag(p1) @ T - np.outer(p1, p2)
    if rng.random() < 0.4:
        inv = 1 / np.where(p2 == 0, 1, p2)
        want = np.diag(p1) @ (T * inv) @ T.T @ np.diag(p1) - np.outer(p1, p1)
        kw["S"] = SparseAutocovMat.from_T_forward(sp.csr_matrix(T), p1=p1.copy()) if sparse \
            else want.copy()
        kw["p2"] = p1.copy()
    cls = SparseClustering if sparse else Clustering
    c = cls(**kw)
    R = int(rng.integers(1, 9))
    nproc = int(rng.integers(1, 6))
    DELAY["max"] = float(rng.choice([0, 0.01, 0.05]))
    DELAY["log"] = os.path.join(ctx.scratch, "log")
    before = snap([dense(c.T), c.p1, c.p2, dense(getattr(c, "_S", 0)), c.partition.cluster_list])
    lim = {}
    if rng.random() < 0.4:
        lim = {"n_meta_iter_max": int(rng.integers(0, 3)), "n_sub_iter_max": int(rng.integers(1, 4))}
        ctx.feature("loop-limits")
    loud = bool(rng.random() < 0.3)
    say = {}
    if rng.random() < 0.3:
        say.update(clust_verbose=[True, 20][int(rng.integers(2))],
                   print_num_loops=bool(rng.random() < 0.5))
        ctx.feature("verbose")
    with Seeds(rng):
        clusters, stabs, seeds = pc.compute_parallel_clustering(c, num_repeat=R, nproc=nproc,
                                                                verbose=loud, **say, **lim)
    order = log_order(DELAY)
    DELAY.update(max=0.0, log=None)
    ctx.equal((len(clusters), len(stabs), len(seeds)), (R,) * 3, "count", "results")
    ctx.check(len(set(seeds)) == R, "seeds-distinct", f"seeds {seeds}")
    ctx.equal(snap([dense(c.T), c.p1, c.p2, dense(getattr(c, "_S", 0)), c.partition.cluster_list]), before,
              "inputs-untouched", "clustering object")
    if nproc == 1:
        ctx.feature("one-process")
    if nproc > R:
        ctx.feature("more-processes-than-work")
    for q, s, seed in zip(clusters, stabs, seeds):
        ctx.equal(sorted(int(v) for a in q for v in a), list(range(n)), "cluster-valid",
                  f"nodes of {q}")
        ctx.close(s, stab(want, q), "cluster-stability", f"stability reported for {canon(q)}",
                  atol=1e-10)
        ser = cls(**kw, rnd_seed=seed)
        ser.find_louvain_clustering(**lim)
        got, exp = canon(q), canon(ser.partition.cluster_list)
        ctx.equal(got, exp, "cluster-seed", f"seed {seed}, n={n} sparse={sparse}: parallel "
                  f"stability {stab(want, got)}, serial {stab(want, exp)}")
    if rng.random() < 0.5:
        # the serial repetitions
        with Seeds(rng):
            loops, clusters, stabs, seeds = nc.run_multi_louvain(c, R, **lim)
        ctx.equal((len(loops), len(clusters), len(stabs), len(seeds)), (R,) * 4, "count",
                  "serial results")
        for q, s, seed in zip(clusters, stabs, seeds):
            ctx.close(s, stab(want, q), "serial-stability", f"stability reported for {canon(q)}",
                      atol=1e-10)
            ser = cls(**kw, rnd_seed=seed)
            ser.find_louvain_clustering(**lim)
            ctx.equal(canon(q), canon(ser.partition.cluster_list), "serial-seed", f"seed {seed}")
    return "cluster", n, R, nproc, sparse, order


def log_order(d):
    try:
        with open(d["log"]) as f:
            pids = [int(l.split()[0]) for l in f]
    except OSError:
        return ()
    names = {}
    return tuple(names.setdefault(p, len(names)) for p in pids)


def nvi_case(rng, ctx):
    n = int(rng.integers(2, 20))
    k = int(rng.integers(2, 8))
    parts = [gen.partition(rng, n) for _ in range(k)]
    if rng.random() < 0.3:
        parts[-1] = parts[0]            # a repetition that found the same
        ctx.feature("repeated-partition")
    nodes = list(range(n))
    vals = [nvi(a, b, nodes) for a, b in combinations(parts, 2)]
    nproc = int(rng.integers(1, 6))
    num = None if rng.random() < 0.5 else int(rng.integers(1, len(vals) + 3))
    DELAY["max"] = float(rng.choice([0, 0.01, 0.03]))
    DELAY["log"] = os.path.join(ctx.scratch, "log")
    b = snap(parts)
    got = pc.compute_parallel_nvi(parts, n, nproc=nproc, verbose=bool(rng.random() < 0.3), num_varinf_samples=num)
    order = log_order(DELAY)
    DELAY.update(max=0.0, log=None)
    ctx.equal(snap(parts), b, "inputs-untouched", "partitions")
    if nproc == 1:
        ctx.feature("one-process")
    if nproc > len(vals):
        ctx.feature("more-processes-than-work")
    if num is None or num >= len(vals):
        ctx.equal(len(got), len(vals), "count", "pairs")
        for i, (g, w) in enumerate(zip(got, vals)):
            ctx.close(g, w, "nvi-items", f"pair {i} of {k} partitions", atol=1e-9)
    else:
        ctx.equal(len(got), num, "count", "sampled pairs")
        left = list(vals)
        for g in got:
            i = next((i for i, w in enumerate(left) if abs(w - g) < 1e-9), None)
            ctx.check(i is not None, "nvi-sample", f"{g} is not the distance of a further "
                      f"pair: {got} sampled from {vals}")
            left.pop(i)
    return "nvi", n, k, nproc, num, order


def laplacian_block(rng, n):
    """minus a Laplacian with several components and isolated nodes"""
    A = np.zeros((n, n))
    lab = rng.integers(0, max(1, n // 3), n)
    for i in range(n):
        for j in range(i):
            if lab[i] == lab[j] and rng.random() < 0.8:
                A[i, j] = A[j, i] = 1
    return A


def expm_case(rng, ctx):
    n = int(rng.integers(2, 16))
    A = laplacian_block(rng, n)
    t = float(rng.choice([0.1, 1, 3]))
    want = gen.walk_expm(A, t)
    fmt = str(rng.choice(["csr", "csc"]))
    X = sp.csr_matrix(-t * gen.walk_laplacian(A)).asformat(fmt)
    nproc = int(rng.integers(1, 5))
    b = snap(X)
    DELAY["max"] = float(rng.choice([0, 0.004]))
    DELAY["log"] = os.path.join(ctx.scratch, "log")
    ratio = float(rng.choice([2.0, 10.0, 1e3])) if rng.random() < 0.4 else None
    norm = bool(rng.random() < 0.7)
    sub = bool(rng.random() < 0.5)
    kw = dict(nproc=nproc, thresh_ratio=ratio, normalize_rows=norm)
    if sub:
        if rng.random() < 0.4:
            k, lab = sp.csgraph.connected_components(X, directed=False)
            kw.update(n_comp=k, comp_labels=lab)
        got = pe.compute_subspace_expm_parallel(X, **kw)
    else:
        got = pe.compute_parallel_expm(X, verbose=bool(rng.random() < 0.3), **kw)
    order = log_order(DELAY)
    DELAY.update(max=0.0, log=None)
    mon = "expm-subspace" if sub else "expm"
    if ratio is not None:
        thr = (want.max() if sub else want.max(0, keepdims=True)) / ratio
        if (np.abs(want - thr) < 1e-9).any():
            return "expm-border", n
        want = np.where(want < thr, 0, want)
        mon = "expm-threshold"
        if norm:
            s = want.sum(1, keepdims=True)
            want = want / np.where(s == 0, 1, s)
    ctx.close(got, want, mon, f"exponential of {n} nodes with {nproc} processes, "
              f"threshold {ratio}, normalised {norm}, {fmt}", atol=1e-8)
    ctx.equal(snap(X), b, "inputs-untouched", "matrix")
    ctx.check(sp.isspmatrix_csr(got), mon, "result is not csr")
    return "expm", n, sub, nproc, ratio, order


def large_component_case(rng, ctx):
    """one component of at least 1000 nodes beside small ones"""
    big = 1000 + int(rng.integers(0, 10))
    n = big + int(rng.integers(1, 30))
    perm = rng.permutation(n)
    A = np.zeros((n, n))
    ix = perm[:big]
    A[ix, np.roll(ix, 1)] = 1
    for i in range(big, n - 1, 2):
        A[perm[i], perm[i + 1]] = 1
    A = np.maximum(A, A.T)
    t = float(rng.choice([0.5, 1.5]))
    X = sp.csr_matrix(-t * gen.walk_laplacian(A))
    nproc = int(rng.integers(2, 5))
    ratio = float(rng.choice([10.0, 1e3])) if rng.random() < 0.4 else None
    norm = bool(rng.random() < 0.7)
    got = pe.compute_subspace_expm_parallel(X, nproc=nproc, thresh_ratio=ratio,
                                            normalize_rows=norm)
    want = gen.walk_expm(A, t)
    if ratio is not None:
        if (np.abs(want - want.max() / ratio) < 1e-7).any():
            return "large-component-border", n
        want = np.where(want < want.max() / ratio, 0, want)
        if norm:
            want /= want.sum(1, keepdims=True)
    ctx.close(got, want, "large-component", f"exponential with a component of "
              f"{big} of {n} nodes, {nproc} processes, threshold {ratio}, normalised {norm}",
              atol=1e-8)
    return "large-component", n, big, nproc


def network_case(rng, ctx):
    """a network whose intervals are large enough for the parallel component-wise path"""
    if rng.random() < 0.35:
        return large_component_case(rng, ctx)
    n = 1000 + int(rng.integers(1, 60))
    src, dst, start, end = [], [], [], []
    for i in range(0, n - 1, 3):
        for j in range(i + 1, min(i + 3, n)):
            src.append(i), dst.append(j), start.append(0), end.append(2)
    if (n - 1) % 3 == 0:
        src.append(n - 1), dst.append(0), start.append(0), end.append(2)
    src.append(0), dst.append(1), start.append(2), end.append(3)
    ev = gen.Events(n, src, dst, start, end, "small-int")
    net = build(ev)
    net.compute_laplacian_matrices()
    lam = 0.7
    nproc = int(rng.integers(2, 5))
    m = gen.Model(ev.rows(), n)
    want = m.inter_T(lam, 0, 2)
    par = [sparse_lapl_expm(L, lam * t, dense_expm=False, nproc=nproc)
           for L, t in zip(net.laplacians, (2, 1))]
    check_list(ctx, par, want, "network-nproc", f"exponentials of the Laplacians with {nproc} "
               "processes", atol=1e-8)
    if rng.random() < 0.4:
        net.compute_inter_transition_matrices(lamda=lam, dense_expm=False, use_sparse_stoch=True)
        check_list(ctx, net.inter_T[lam], want, "network-nproc", "interval matrices", atol=1e-8)
    return "network", n, nproc


def case(rng, ctx):
    u = rng.random()
    if u < 0.4:
        key = clustering_case(rng, ctx)
    elif u < 0.6:
        key = nvi_case(rng, ctx)
    elif u < 0.96:
        key = expm_case(rng, ctx)
    else:
        key = network_case(rng, ctx)
    order = key[-1] if isinstance(key[-1], tuple) else ()
    if len(order) > 2 and list(order) != sorted(order):
        ctx.feature("finish-order-differs")
    if rng.random() < 0.3:
        # a further parallel call does not see the data of this one
        (nvi_case if rng.random() < 0.5 else expm_case)(rng, ctx)
        ctx.check(True, "later-call-independent")
    ctx.describe(work=key[0], parameters=list(map(str, key[1:])))
    ctx.nontrivial(key, ctx.seed)
