"""C10: static clustering optimises the Markov stability of the given graph"""
import numpy as np
import scipy.sparse as sp
from scipy.linalg import expm

from vf import gen
from vf.core import dense, snap

from flowstab.network_clustering import Clustering, SparseClustering, static_clustering

CASES = {"quick": 4500, "thorough": 60000}
RULE = ("a case is one weighted graph (undirected with isolated nodes, or directed strongly "
        "connected, possibly periodic), a Markov time and a walk variant; transition matrix, "
        "stationary distribution, stabilities of drawn partitions and the clustering are judged "
        "by dense linear algebra; distinct by graph, time and variant")
EXPECT = ["transition", "stationary", "stability-of-partition", "clustering", "zero-graph",
          "dense-equals-sparse", "reproducible", "inputs-untouched", "undirected", "directed",
          "periodic", "isolated", "discrete", "linearized", "exponential", "weighted",
          "integer-matrix", "t-zero", "components",
          "numpy-time", "scaled-weights", "uneven-weights", "ring"]
ASSUMPTIONS = ["at least two nodes; sparse directed graphs have at least four (the eigenvalue "
               "solver needs that)", "directed graphs are strongly connected, as documented"]


def undirected(rng, ctx):
    n = int(rng.integers(2, 14)) if rng.random() < 0.97 else int(rng.integers(20, 70))
    W = np.triu(rng.random((n, n)) < float(rng.choice([0.15, 0.4, 0.8])), 1).astype(float)
    if rng.random() < 0.5:
        W = W * (rng.random((n, n)) * 3 + 0.1)
        ctx.feature("weighted")
    W = W + W.T
    if rng.random() < 0.2:
        W[np.arange(n), np.arange(n)] = rng.random(n) < 0.4
    if rng.random() < 0.4:
        i = int(rng.integers(n))
        W[i, :] = W[:, i] = 0
    if W.sum() == 0:
        W[0, 1] = W[1, 0] = 1
    if (W.sum(1) == 0).any():
        ctx.feature("isolated")
    if gen.components(W).max() > 0:
        ctx.feature("components")
    return W


def directed(rng, ctx):
    n = int(rng.integers(4, 14)) if rng.random() < 0.95 else int(rng.integers(20, 120))
    W = np.zeros((n, n))
    perm = rng.permutation(n)
    for i in range(n):
        W[perm[i], perm[(i + 1) % n]] = 1
    u = rng.random()
    if n > 14 and u < 0.5:
        ctx.feature("ring")                 # hardly more than a ring: slow mixing
        for _ in range(int(rng.integers(0, 3))):
            W[int(rng.integers(n)), int(rng.integers(n))] = 1
    elif u < 0.3:
        ctx.feature("periodic")
        # edges that keep the period: jumps by 1 modulo a divisor of n
        d = next((k for k in (3, 2, 4) if n % k == 0), n)
        for _ in range(int(rng.integers(0, n))):
            i, j = int(rng.integers(n)), int(rng.integers(n))
            if (j - i) % d == 1 % d:
                W[perm[i], perm[j]] = 1
    else:
        W = np.maximum(W, rng.random((n, n)) < float(rng.choice([0.1, 0.3, 0.7])))
        np.fill_diagonal(W, W.diagonal() * (rng.random() < 0.3))
    if rng.random() < 0.6:
        W = W * (rng.random((n, n)) * 3 + 0.1)
        ctx.feature("weighted")
    return W


def n0(W):
    return W.shape[0]


def stat(P):
    """stationary distribution of an irreducible stochastic matrix"""
    n = P.shape[0]
    M = np.vstack([P.T - np.eye(n), np.ones(n)])
    return np.linalg.lstsq(M, np.r_[np.zeros(n), 1], rcond=None)[0]


def stab(S, cl):
    return float(sum(S[np.ix_(sorted(c), sorted(c))].sum() for c in cl))


def case(rng, ctx):
    if rng.random() < 0.03:
        n = int(rng.integers(2, 8))
        Z = np.zeros((n, n))
        for A in (Z, sp.csr_matrix(Z)):
            ctx.raises(ValueError, "zero-graph", "a graph without edges", static_clustering, A)
        return
    is_dir = bool(rng.random() < 0.4)
    W = directed(rng, ctx) if is_dir else undirected(rng, ctx)
    u = rng.random()
    if u < 0.25:
        W = np.ceil(W).astype(int)
        ctx.feature("integer-matrix")
    elif u < 0.35:
        # the scale of the weights does not matter
        W = W * float(rng.choice([1e-10, 1e-7, 1e-3, 1e5, 1e9]))
        ctx.feature("scaled-weights")
    elif u < 0.42:
        # weights over several orders of magnitude (a node with only weak edges)
        f = 10.0 ** rng.integers(-4, 5, n0(W))
        W = W * (f[:, None] if is_dir else f[:, None] * f[None, :])
        ctx.feature("uneven-weights")
    ctx.feature("directed" if is_dir else "undirected")
    n = W.shape[0]
    d = W.sum(1)
    P = np.eye(n)
    on = d > 0
    P[on] = W[on] / d[on, None]
    pi = stat(P) if is_dir else d / d.sum()
    kind = str(rng.choice(["discrete", "linearized", "exponential"]))
    ctx.feature(kind)
    kw = {}
    if kind == "discrete":
        t = int(rng.integers(0, 7)) if rng.random() < 0.9 else int(rng.choice([16, 33, 100]))
        if rng.random() < 0.2:
            t = np.int64(t) if rng.random() < 0.5 else np.int32(t)
            ctx.feature("numpy-time")
        want = np.linalg.matrix_power(P, t)
        kw["discrete_time_rw"] = True
    else:
        t = float(rng.choice([0, 1e-4, 0.1, 0.5, 1, 1.7, 4, 15, 60, 400])) if rng.random() < 0.7 else \
            int(rng.integers(0, 8))
        if kind == "linearized":
            kw["linearized"] = True
            want = np.eye(n) - t * (np.eye(n) - P)
        else:
            want = expm(-t * (np.eye(n) - P))
    if t == 0:
        ctx.feature("t-zero")
    if t == 1 and not kw and rng.random() < 0.5:
        pass
    else:
        kw["t"] = t
    if is_dir:
        kw["directed"] = True
    seed = int(rng.integers(2**31))
    S = np.diag(pi) @ want - np.outer(pi, pi)
    tol = 1e-9 * (1 + t)
    ctx.describe(n=n, directed=is_dir, kind=kind, t=t)
    res = {}
    part = gen.partition(rng, n)
    for form in ("dense", "sparse"):
        A = W.copy() if form == "dense" else sp.csr_matrix(W)
        before = snap(A)
        c = static_clustering(A, rnd_seed=seed, **kw)
        ctx.check(type(c) is (Clustering if form == "dense" else SparseClustering),
                  "transition", f"{form} input gives a {type(c).__name__}")
        ctx.close(c.T, want, "transition", f"transition matrix at {kind} time {t} ({form}, "
                  f"directed={is_dir})", atol=tol, rtol=1e-7)
        ctx.close(c.p1, pi, "stationary", f"stationary distribution ({form})", atol=1e-8)
        ctx.close(c.p2, pi, "stationary", f"distribution at time t ({form})", atol=1e-8)
        single = sum(S[i, i] for i in range(n))
        ctx.close(c.compute_stability(), single, "stability-of-partition",
                  f"stability of singletons ({form})", atol=1e-8 * (1 + t))
        k = type(c)(p1=c.p1, p2=c.p2, T=c.T, cluster_list=[set(q) for q in part])
        ctx.close(k.compute_stability(), stab(S, part), "stability-of-partition",
                  f"stability of {part} ({form})", atol=1e-8 * (1 + t))
        c.find_louvain_clustering()
        cl = sorted(sorted(int(v) for v in q) for q in c.partition.cluster_list)
        ctx.equal(sorted(v for q in cl for v in q), list(range(n)), "clustering",
                  f"nodes of {cl}")
        got = c.compute_stability()
        ctx.close(got, stab(S, cl), "clustering", f"stability of the result ({form})",
                  atol=1e-8 * (1 + t))
        if np.abs(S).max() > 1e-3 * pi.max() ** 2:
            ctx.check(got >= single - 1e-7 * (1 + t), "clustering",
                      f"clustering went from {single} to {got}")
        c2 = static_clustering(A, rnd_seed=seed, **kw)
        c2.find_louvain_clustering()
        ctx.equal(sorted(sorted(int(v) for v in q) for q in c2.partition.cluster_list), cl,
                  "reproducible", f"second run with seed {seed} ({form})")
        ctx.equal(snap(A), before, "inputs-untouched", f"adjacency matrix ({form})")
        res[form] = c
    ctx.close(res["dense"].T, res["sparse"].T, "dense-equals-sparse", "transition matrix",
              atol=tol)
    ctx.nontrivial(W.tobytes(), kind, t, is_dir)
