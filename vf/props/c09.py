"""C09: Louvain clustering returns a valid, never worse and reproducible partition"""
import numpy as np
import scipy.sparse as sp

from vf import gen
from vf.core import Skip, dense, snap

from flowstab import network_clustering as nc
from flowstab.network_clustering import Clustering, Partition, SparseClustering, \
    run_multi_louvain
from flowstab.sparse_stoch_mat import SparseAutocovMat

CASES = {"quick": 2600, "thorough": 80000}
RULE = ("a case is one covariance (dense or sparse; from a transition matrix or given), a "
        "starting partition and a history of runs; partitions are monitored after every node "
        "move and the result is judged against the dense covariance; distinct by matrix and "
        "start")
EXPECT = ["valid", "stability-value", "never-worse", "reproducible", "inputs-untouched",
          "move-consistent", "progress-monotone", "merge-optimal", "merge-connected", "rerun-never-worse",
          "dense", "sparse", "start-given", "start-dict", "start-singletons", "S-given",
          "several-meta-loops", "loop-limits", "threshold",
          "communities", "multi", "zero-covariance", "weak-structure"]

MOVES = {"n": 0, "bad": None}


def setup():
    """every node move of the code under test is checked for a consistent partition"""
    orig = Partition.move_node

    def move_node(self, node, c_f, *a, **kw):
        r = orig(self, node, c_f, *a, **kw)
        MOVES["n"] += 1
        if MOVES["bad"] is None:
            where = [i for i, c in enumerate(self.cluster_list) if node in c]
            if where != [c_f] or self.node_to_cluster_dict[node] != c_f:
                MOVES["bad"] = (f"after moving node {node} to cluster {c_f} it is in clusters "
                                f"{where}, recorded in {self.node_to_cluster_dict[node]}")
        return r
    Partition.move_node = move_node


def stab(S, cl):
    return float(sum(S[np.ix_(sorted(c), sorted(c))].sum() for c in cl))


def canon(cl):
    return sorted(sorted(int(v) for v in c) for c in cl)


def community_T(rng, n):
    k = int(rng.integers(2, max(3, n // 2)))
    lab = rng.integers(0, k, n)
    W = rng.random((n, n)) * np.where(lab[:, None] == lab[None, :], 1.0,
                                      float(rng.choice([0.02, 0.1, 0.3])))
    if rng.random() < 0.4:
        W = W * (rng.random((n, n)) < 0.5)
    W = W + W.T
    if rng.random() < 0.3:
        W = W + rng.random((n, n)) * 0.2
    W[np.arange(n), np.arange(n)] += (W.sum(1) == 0)
    return W / W.sum(1, keepdims=True)


def case(rng, ctx):
    n = int(rng.integers(2, 16)) if rng.random() < 0.9 else int(rng.integers(16, 60))
    if rng.random() < 0.003:
        n = int(rng.integers(257, 300))
        ctx.feature("large")
    u = rng.random()
    generic = False
    if u < 0.45:
        T = community_T(rng, n)
        ctx.feature("communities")
    elif u < 0.7:
        T = gen.stochastic(rng, n, float(rng.choice([0.2, 0.5])))
    elif u < 0.95:
        T = rng.random((n, n)) ** 3 + 1e-3
        T = T / T.sum(1, keepdims=True)
        generic = True
    else:
        T = np.tile(gen.prob(rng, n), (n, 1))       # no memory: the covariance is zero
        ctx.feature("zero-covariance")
    weak = bool(rng.random() < 0.06)
    if weak:                                        # a walk that almost forgets its start
        eps = float(rng.choice([1e-5, 1e-4, 1e-3, 1e-2]))
        T = (1 - eps) * np.tile(gen.prob(rng, n), (n, 1)) + eps * community_T(rng, n)
        T = T / T.sum(1, keepdims=True)
        generic = False
        ctx.feature("weak-structure")
    v = rng.random()
    p1 = None if v < 0.3 else gen.prob(rng, n)
    if p1 is not None and rng.random() < 0.3:
        w, vec = np.linalg.eig(T.T)
        q = np.abs(vec[:, np.argmax(w.real)].real)
        p1 = q / q.sum() if (q > 0).all() else p1
    pv = np.full(n, 1 / n) if p1 is None else p1
    sparse = bool(rng.random() < 0.5)
    ctx.feature("sparse" if sparse else "dense")
    want = np.diag(pv) @ T - np.outer(pv, pv @ T)
    kw = dict(T=sp.csr_matrix(T) if sparse else T.copy())
    if p1 is not None:
        kw["p1"] = p1.copy()
    forward = False
    if rng.random() < 0.4:
        ctx.feature("S-given")
        if rng.random() < 0.5:
            forward = True
            inv = 1 / np.where(pv @ T == 0, 1, pv @ T)
            want = np.diag(pv) @ (T * inv) @ T.T @ np.diag(pv) - np.outer(pv, pv)
            kw["S"] = SparseAutocovMat.from_T_forward(sp.csr_matrix(T), p1=pv.copy()) \
                if sparse else want.copy()
        else:
            kw["S"] = SparseAutocovMat.from_T(sp.csr_matrix(T), p1=pv.copy()) if sparse \
                else want.copy()
        if rng.random() < 0.4:
            del kw["T"]
    if not sparse and rng.random() < 0.15:
        thr = float(np.abs(want).max() * rng.choice([0.02, 0.1, 0.3]))
        if thr > 1e-8 and (np.abs(np.abs(want) - thr) > 1e-6 * thr).all():
            kw["S_threshold"] = thr
            want = np.where(np.abs(want) < thr, 0, want)
            ctx.feature("threshold")
    scale = np.abs(want).max()
    if weak and scale < 3e-6 / n ** 2:
        # covariances of less than a millionth of the average are taken for zero
        raise Skip()
    # what flows between the nodes in this covariance
    PT = want + np.outer(pv, pv if forward else pv @ T)
    if not sparse and "T" in kw:        # the neighbours are those of the given walk
        PT = T
    start = [{i} for i in range(n)]
    s = rng.random()
    if s < 0.3:
        start = gen.partition(rng, n)
        kw["cluster_list"] = [set(c) for c in start]
        ctx.feature("start-given")
    elif s < 0.5:
        start = gen.partition(rng, n)
        kw["node_to_cluster_dict"] = {v: 2 * i + 1 for i, c in enumerate(start) for v in c} \
            if rng.random() < 0.3 else {v: i for i, c in enumerate(start) for v in c}
        ctx.feature("start-dict")
    else:
        ctx.feature("start-singletons")
    cls = SparseClustering if sparse else Clustering
    seed = int(rng.integers(1 << 31))
    in_ctor = bool(rng.random() < 0.5)
    before = snap({k: x for k, x in kw.items()})
    tol = 1e-10 * max(1.0, scale * n * n) + 1e-13

    loud = {}
    if rng.random() < 0.15:
        loud = dict(verbose=[True, 2, 20][int(rng.integers(3))],
                    print_num_loops=bool(rng.random() < 0.5))
        ctx.feature("verbose")

    def run(**more):
        c = cls(**kw, **({"rnd_seed": seed} if in_ctor else {}))
        ctx.close(c.compute_stability(), stab(want, start), "stability-value",
                  "stability of the starting partition", atol=tol, rtol=1e-9)
        r = c.find_louvain_clustering(**({} if in_ctor else {"rnd_seed": seed}), **more, **loud)
        return c, r
    MOVES["bad"] = None
    n0 = MOVES["n"]
    progress = bool(rng.random() < 0.3)
    c, loops = run(save_progress=progress)
    cl = canon(c.partition.cluster_list)
    ctx.equal(snap(kw), before, "inputs-untouched", "what the caller handed in changed")
    ctx.check(MOVES["bad"] is None, "move-consistent", str(MOVES["bad"]))
    if MOVES["n"] > n0:
        ctx.feature("moves-observed")
    ctx.equal(sorted(v for q in cl for v in q), list(range(n)), "valid",
              f"nodes of the partition {cl}")
    ctx.check(all(cl), "valid", "empty cluster in the result")
    ctx.equal({v: i for i, q in enumerate(c.partition.cluster_list) for v in q},
              dict(c.partition.node_to_cluster_dict), "valid", "node to cluster map")
    got = stab(want, cl)
    ctx.close(c.compute_stability(), got, "stability-value", "stability of the result",
              atol=tol, rtol=1e-9)
    # covariances that are zero up to rounding: one cluster
    zero = scale < 1e-4 * pv.max() ** 2
    if not zero:
        ctx.check(got >= stab(want, start) - tol, "never-worse",
                  f"stability {got} below that of the start {stab(want, start)}: {cl}")
    elif scale < 1e-9 * pv.max() ** 2:
        ctx.check(len(cl) == 1, "zero-covariance-one-cluster",
                  f"zero covariance gave {len(cl)} clusters")
    if progress and not zero:
        pr = [float(x) for x in c.stability_progress]
        ctx.check(all(b >= a - tol for a, b in zip(pr, pr[1:])), "progress-monotone",
                  f"stability went down: {pr}")
        ctx.close(pr[-1], got, "progress-monotone", "last progress", atol=tol)
        ctx.equal(canon(c.partition_progress[-1].cluster_list), cl, "progress-monotone",
                  "last partition of the progress")
    if loops > 2:
        ctx.feature("several-meta-loops")
    c2, loops2 = run()
    ctx.equal((canon(c2.partition.cluster_list), loops2), (cl, loops), "reproducible",
              f"second run with seed {seed}")
    if generic and not zero and len(cl) > 1:
        # no two clusters whose union is more stable
        best = max(want[np.ix_(a, b)].sum() + want[np.ix_(b, a)].sum()
                   for i, a in enumerate(cl) for b in cl[:i])
        ctx.check(best <= 1e-9 * max(scale, 1e-3), "merge-optimal",
                  f"merging two clusters of {cl} gains {best}")
    elif generic:
        ctx.check(True, "merge-optimal")
    elif not zero and len(cl) > 1:
        # nor two clusters that the flow connects
        gains = [want[np.ix_(a, b)].sum() + want[np.ix_(b, a)].sum()
                 for i, a in enumerate(cl) for b in cl[:i]
                 if PT[np.ix_(a, b)].max() > 1e-9 or PT[np.ix_(b, a)].max() > 1e-9]
        ctx.check(max(gains, default=0) <= 1e-9 * max(scale, 1e-3), "merge-connected",
                  f"merging two clusters of {cl} gains {max(gains, default=0)}")
    if rng.random() < 0.5 and not zero:
        before2 = got
        for _ in range(2):
            c.find_louvain_clustering()
            cl3 = canon(c.partition.cluster_list)
            ctx.equal(sorted(v for q in cl3 for v in q), list(range(n)), "valid",
                      f"nodes after another run {cl3}")
            now = stab(want, cl3)
            ctx.check(now >= before2 - tol, "rerun-never-worse",
                      f"another run went from {before2} to {now}")
            ctx.close(c.compute_stability(), now, "stability-value", "after another run",
                      atol=tol, rtol=1e-9)
            before2 = now
    if rng.random() < 0.3:
        R = int(rng.integers(1, 4))
        nl, cls_, st, seeds = run_multi_louvain(c2, R)
        ctx.equal((len(nl), len(cls_), len(st), len(seeds)), (R,) * 4, "multi", "lengths")
        for q, x, sd, l in zip(cls_, st, seeds, nl):
            ctx.close(x, stab(want, q), "multi", "reported stability", atol=tol, rtol=1e-9)
            ctx.equal(sorted(v for a in q for v in a), list(range(n)), "multi", "nodes")
            k2 = {k: y for k, y in kw.items() if k not in ("cluster_list",
                                                           "node_to_cluster_dict")}
            again = cls(**k2, rnd_seed=sd)
            l2 = again.find_louvain_clustering()
            if not zero and not (sparse and "S" not in kw and p1 is None):
                ctx.equal(canon(again.partition.cluster_list), canon(q), "multi",
                          "result of the reported seed")
    if rng.random() < 0.3:
        # no more loops than asked for
        kmeta, ksub = int(rng.integers(0, 4)), int(rng.choice([1, 2, 3, 1000]))
        c4 = cls(**kw, rnd_state=gen.Passes(seed))
        gen.Passes.n = 0
        opt = {"n_meta_iter_max": kmeta}
        if ksub < 1000:
            opt["n_sub_iter_max"] = ksub
        l4 = c4.find_louvain_clustering(**opt)
        cl4 = canon(c4.partition.cluster_list)
        ctx.check(l4 <= kmeta + 1, "loop-limits", f"{l4} meta loops, at most {kmeta} asked for")
        ctx.check(gen.Passes.n <= ksub * l4, "loop-limits",
                  f"{gen.Passes.n} passes over the nodes in {l4} meta loops, at most {ksub} each")
        ctx.equal(sorted(v for q in cl4 for v in q), list(range(n)), "valid",
                  f"nodes of the partition after few loops {cl4}")
        if not zero:
            ctx.check(stab(want, cl4) >= stab(want, start) - tol, "never-worse",
                      f"few loops: {stab(want, cl4)} below that of the start")
        ctx.close(c4.compute_stability(), stab(want, cl4), "stability-value",
                  "stability after few loops", atol=tol, rtol=1e-9)
    ctx.describe(n=n, sparse=sparse, start=canon(start), result=cl, loops=loops, stability=got)
    ctx.nontrivial(T.tobytes(), sparse, canon(start))
