"""C26: reporting never changes what is computed"""
import logging
import os

import numpy as np
import scipy.sparse as sp

import flowstab
from vf import gen
from vf.core import dense, snap
from vf.net import build

from flowstab import parallel_clustering as pc
from flowstab import parallel_expm as pe
from flowstab.flow_stability import FlowStability
from flowstab.network_clustering import Clustering, FlowIntegralClustering, Partition, \
    SparseClustering, static_clustering
from flowstab.sparse_stoch_mat import SparseStochMat, sparse_gram_matrix, sparse_matmul, \
    sparse_outer
from flowstab.synth_temp_network import Individual, SynthTempNetwork
from flowstab.temporal_network import ContTempInstNetwork, ContTempNetwork, \
    compute_subspace_expm

CASES = {"quick": 900, "thorough": 25000}
RULE = ("a case is one computation run twice on the same input and random seed: once silent "
        "and once with a drawn log level, verbosity, progress printing and requests for "
        "descriptions in between; the results of the two runs are compared; distinct by "
        "computation, input and reporting options")
EXPECT = ["same-result", "same-afterwards", "log-level", "log-level-rejected", "descriptions-change-nothing",
          "louvain-dense", "louvain-sparse", "louvain-flow", "integral-dense",
          "integral-sparse", "parallel-dense", "parallel-sparse", "comparison", "expm",
          "helpers", "simulation", "network", "instantaneous", "saved", "analysis", "static",
          "partition", "level-DEBUG", "level-INFO", "level-WARNING", "verbose", "very-verbose",
          "print-loops", "progress"]
ASSUMPTIONS = ["two runs on equal input with the same random seed give the same result (C09, "
               "C16)", "matrices are compared up to rounding; partitions exactly when the "
               "covariances of the two runs agree bit by bit"]

LEVELS = ["DEBUG", "INFO", "WARNING", "ERROR", "CRITICAL"]
_URANDOM = os.urandom


class Reporting:
    """one way to report, or none"""

    def __init__(self, rng=None, ctx=None):
        self.loud = rng is not None
        self.level, self.verbose, self.loops = "CRITICAL", False, False
        if self.loud:
            self.level = str(rng.choice(LEVELS, p=[0.4, 0.25, 0.15, 0.1, 0.1]))
            self.verbose = [False, True, 1, 2, 11, 20][int(rng.integers(6))]
            self.loops = bool(rng.random() < 0.4)
            ctx.feature("level-" + self.level)
            if self.verbose:
                ctx.feature("very-verbose" if self.verbose > 1 else "verbose")
            if self.loops:
                ctx.feature("print-loops")

    def kw(self, **names):
        """keyword arguments of this reporting, verbose and loops under given names"""
        return {k: getattr(self, v) for k, v in names.items()}

    def say(self, *objs):
        """descriptions somebody may ask for"""
        if self.loud:
            for o in objs:
                str(o), repr(o), f"{o}"
        return self


class Rand:
    """all seeds the code draws come from one generator"""

    def __init__(self, seed):
        self.rng = np.random.default_rng(seed)
        self.seed = seed

    def __enter__(self):
        np.random.seed(self.seed % (2**32 - 1))
        os.urandom = lambda n: self.rng.bytes(n) if n == 4 else _URANDOM(n)

    def __exit__(self, *a):
        os.urandom = _URANDOM


def canon(cl):
    return sorted(sorted(int(v) for v in c) for c in cl)


def walk(rng, n):
    W = rng.random((n, n)) ** 3 * (rng.random((n, n)) < float(rng.choice([0.4, 0.7, 1])))
    lab = rng.integers(0, 3, n)
    W = W * np.where(lab[:, None] == lab[None, :], 1, 0.1)
    W[np.arange(n), np.arange(n)] += rng.random(n) * 0.3 + 0.01
    return W / W.sum(1, keepdims=True)


def clustered(c):
    return {"S": dense(c._S.toarray() if hasattr(c._S, "toarray") else c._S)
            if hasattr(c, "_S") else 0,
            "part": canon(c.partition.cluster_list), "stab": float(c.compute_stability())}


def louvain(rng, ctx, rep, first):
    kind = str(rng.choice(["dense", "sparse", "flow"]))
    ctx.feature("louvain-" + kind)
    n = int(rng.integers(2, 14))
    kw = dict(rep.kw(verbose="verbose"))
    if rng.random() < 0.3:
        kw.update(n_meta_iter_max=int(rng.integers(0, 3)), n_sub_iter_max=int(rng.integers(1, 4)))
    save = bool(rng.random() < 0.4)
    kw["save_progress"] = save
    if save:
        ctx.feature("progress")
    seed = int(rng.integers(2**31))
    if kind == "flow":
        K = int(rng.integers(1, 5))
        f = sp.csr_matrix if rng.random() < 0.5 else np.asarray
        F = FlowIntegralClustering(T_inter_list=[f(walk(rng, n)) for _ in range(K)],
                                   p1=gen.prob(rng, n), **rep.kw(verbose="verbose"))
        rep.say(F)
        loops = F.find_louvain_clustering(rnd_seed=seed, **kw)
        rep.say(F.partition[0])
        yield {"part": canon(F.partition[0].cluster_list), "loops": loops,
               "stab": float(F.clustering[0].compute_stability()), "S": dense(F.I_list[0])}
        return
    T = walk(rng, n)
    cls = SparseClustering if kind == "sparse" else Clustering
    c = cls(p1=gen.prob(rng, n), T=sp.csr_matrix(T) if kind == "sparse" else T, rnd_seed=seed,
            **({"cluster_list": gen.partition(rng, n)} if rng.random() < 0.3 else {}))
    rep.say(c, c.partition)
    for _ in range(int(rng.integers(1, 3))):
        loops = c.find_louvain_clustering(**kw, **rep.kw(print_num_loops="loops"))
        rep.say(c, c.partition)
        r = clustered(c)
        r["loops"] = loops
        if save:
            r["progress"] = [canon(p) if isinstance(p, list) else repr(p)
                             for p in getattr(c, "partition_progress", [])]
            r["sp"] = np.array(getattr(c, "stability_progress", []), dtype=float)
        yield r


def parallel(rng, ctx, rep, first):
    n = int(rng.integers(3, 9))
    sparse = bool(rng.random() < 0.5)
    ctx.feature("parallel-sparse" if sparse else "parallel-dense")
    T = walk(rng, n)
    c = (SparseClustering if sparse else Clustering)(
        p1=gen.prob(rng, n), T=sp.csr_matrix(T) if sparse else T)
    cl, stabs, seeds = pc.compute_parallel_clustering(
        c, num_repeat=int(rng.integers(1, 4)), nproc=int(rng.integers(1, 3)),
        **rep.kw(verbose="verbose", clust_verbose="verbose", print_num_loops="loops"))
    rep.say(c)
    yield {"part": [canon(x) for x in cl], "stab": np.array(stabs, dtype=float),
           "seeds": list(seeds), "S": 0}


def comparison(rng, ctx, rep, first):
    ctx.feature("comparison")
    n = int(rng.integers(3, 20))
    parts = [gen.partition(rng, n) for _ in range(int(rng.integers(2, 7)))]
    num = int(rng.integers(1, 12)) if rng.random() < 0.5 else None
    got = pc.compute_parallel_nvi(parts, n, nproc=int(rng.integers(1, 3)), num_varinf_samples=num,
                                  **rep.kw(verbose="verbose"))
    yield {"nvi": np.array(got, dtype=float)}


def integral(rng, ctx, rep, first):
    n, K = int(rng.integers(2, 8)), int(rng.integers(1, 9))
    fmt = int(rng.integers(3))
    ctx.feature("integral-sparse" if fmt else "integral-dense")
    conv = [np.asarray, sp.csr_matrix,
            lambda M: SparseStochMat.from_full_csr_matrix(sp.csr_matrix(M))][fmt]
    F = FlowIntegralClustering(
        T_inter_list=[conv(gen.stochastic(rng, n)) for _ in range(K)],
        time_list=np.cumsum(rng.random(K + 1) + 0.1).tolist(), reverse_time=bool(rng.random() < 0.5),
        integral_time_grid=None if rng.random() < 0.5 else [0.5, 1.0, 4.0],
        p1=gen.prob(rng, n), **rep.kw(verbose="verbose"))
    rep.say(F)
    yield {"I": [dense(I.toarray() if hasattr(I, "toarray") else I) for I in F.I_list]}


def expm(rng, ctx, rep, first):
    ctx.feature("expm")
    n = int(rng.integers(3, 14))
    A = np.triu(rng.random((n, n)) < 0.25, 1).astype(float)
    X = sp.csc_matrix(-float(rng.choice([0.2, 1.0, 4.0])) * gen.walk_laplacian(A + A.T))
    k = int(rng.integers(3))
    kw = {"normalize_rows": bool(rng.random() < 0.5)}
    if k == 0:
        got = pe.compute_parallel_expm(X, nproc=int(rng.integers(1, 3)), **kw,
                                       **rep.kw(verbose="verbose"))
    elif k == 1:
        got = pe.compute_subspace_expm_parallel(X, nproc=int(rng.integers(1, 3)), **kw,
                                                **rep.kw(verbose="verbose"))
    else:
        got = compute_subspace_expm(X, **kw)
    yield {"expm": dense(got)}


def helpers(rng, ctx, rep, first):
    ctx.feature("helpers")
    n = int(rng.integers(2, 9))
    A = sp.csr_matrix(gen.stochastic(rng, n))
    B = sp.csr_matrix(gen.stochastic(rng, n))
    p = sp.csr_matrix(gen.prob(rng, n, zeros=True)[None, :])
    kw = {}
    if rep.loud:
        kw = dict(rep.kw(verbose="verbose"),
                  log_message=["", "x", "a longer message"][len(rep.level) % 3])
    tri = bool(rng.random() < 0.5)
    yield {"mm": dense(sparse_matmul(A, B, **kw)), "gram": dense(sparse_gram_matrix(A, tri, **kw)),
           "outer": dense(sparse_outer(p, triu=tri, use_mkl=bool(rng.random() < 0.5), **kw)),
           "A": dense(A), "B": dense(B), "p": dense(p)}


def simulation(rng, ctx, rep, first):
    ctx.feature("simulation")
    N = int(rng.integers(2, 9))
    G = int(rng.integers(1, min(3, N) + 1))
    inds = [Individual(i, group=i % G, activ_distro_scale=float(rng.choice([0.5, 2.0])),
                       inter_distro_scale=float(rng.choice([0.1, 1.0]))) for i in range(N)]
    method = str(rng.choice(["random_uniform", "random_uniform_within_group", "block_probs"]))
    kw = {"inter_group_probs": rng.random((G, G)) + 0.05} if method == "block_probs" else {}
    sim = SynthTempNetwork(individuals=inds, t_start=0, t_end=float(rng.choice([4, 9])),
                           next_event_method=method,
                           num_interactions_per_activation=int(rng.integers(1, 3)), **kw)
    rep.say(sim, *inds)
    states = bool(rng.random() < 0.5)
    sim.run(save_all_states=states, save_dt_states=states, dt=1.0, **rep.kw(verbose="verbose"))
    yield {"ev": list(zip(map(int, sim.indiv_sources), map(int, sim.indiv_targets),
                          map(float, sim.start_times), map(float, sim.end_times))),
           "states": [(float(t), dense(A).tobytes()) for t, A in sim.all_states.items()]
           + [(float(t), dense(A).tobytes()) for t, A in sim.saved_states.items()]
           if states else []}


def mats(L):
    return [dense(M) for M in L]


def network(rng, ctx, rep, first):
    ctx.feature("network")
    ev = gen.events(rng, nmax=7, emax=14)
    merge = bool(rng.random() < 0.4)
    net = build(ev, merge_overlapping_events=merge)
    rep.say(net)
    yield {"events": snap(net.events_table), "times": snap(list(getattr(net, "times", [])))}
    m = gen.Model(ev.rows(), ev.n)
    t0, t1 = gen.draw_window(rng, m.times)
    net.compute_laplacian_matrices(t_start=t0, t_stop=t1, save_adjacencies=True)
    rep.say(net)
    lam = float(rng.choice([0.3, 1.0])) / float(np.median(np.diff(m.times)))
    ss = bool(rng.random() < 0.4)
    rev = bool(rng.random() < 0.4)
    net.compute_inter_transition_matrices(lamda=lam, use_sparse_stoch=ss,
                                          dense_expm=bool(rng.random() < 0.5))
    rep.say(net)
    net.compute_transition_matrices(lamda=lam, reverse_time=rev,
                                    save_intermediate=bool(rng.random() < 0.5),
                                    tol=None if rng.random() < 0.7 else 1e-3)
    net.compute_lin_inter_transition_matrices(lamda=lam, t_s=2, use_sparse_stoch=ss)
    net.compute_lin_transition_matrices(lamda=lam, t_s=2, reverse_time=rev)
    T = net.T[lam]
    yield {"L": mats(net.laplacians), "A": mats(net.adjacencies), "iT": mats(net.inter_T[lam]),
           "iTl": mats(net.inter_T_lin[lam][2]), "T": mats(T if isinstance(T, list) else [T]),
           "Tl": mats(net.T_lin[lam][2])}
    ctx.feature("saved")
    f = os.path.join(ctx.scratch, "loud" if rep.loud else "quiet")
    net.save(f)
    again = ContTempNetwork.load(f)
    rep.say(again)
    yield {"loaded": snap(again.events_table), "lt": snap(list(getattr(again, "times", [])))}


def instantaneous(rng, ctx, rep, first):
    ctx.feature("instantaneous")
    n, k = int(rng.integers(2, 7)), int(rng.integers(2, 14))
    src = rng.integers(0, n, k)
    net = ContTempInstNetwork(source_nodes=src.tolist(),
                              target_nodes=((src + rng.integers(1, n, k)) % n).tolist(),
                              starting_times=rng.integers(0, 9, k).tolist())
    rep.say(net)
    net.compute_laplacian_matrices()
    net.compute_inter_transition_matrices(lamda=0.7)
    yield {"L": mats(net.laplacians), "iT": mats(net.inter_T[0.7])}


def static(rng, ctx, rep, first):
    ctx.feature("static")
    n = int(rng.integers(3, 10))
    A = np.triu(rng.random((n, n)) < 0.5, 1).astype(float)
    A = A * rng.random((n, n))
    A[0, 1] = 0.5
    A = A + A.T
    if rng.random() < 0.5:
        A = sp.csr_matrix(A)
    r = static_clustering(A, t=float(rng.choice([0.5, 1.0, 3.0])))
    rep.say(r)
    yield {"T": dense(r.T), "p": np.asarray(r.p1)}


def partition(rng, ctx, rep, first):
    ctx.feature("partition")
    n = int(rng.integers(2, 12))
    P = Partition(n, cluster_list=gen.partition(rng, n))
    for _ in range(int(rng.integers(1, 10))):
        rep.say(P)
        P.move_node(int(rng.integers(n)), int(rng.integers(P.get_num_clusters())))
        if rng.random() < 0.4:
            P.remove_empty_clusters()
    rep.say(P)
    yield {"cl": [sorted(int(v) for v in c) for c in P.cluster_list],
           "d": sorted((int(a), int(b)) for a, b in P.node_to_cluster_dict.items())}


def analysis(rng, ctx, rep, first):
    ctx.feature("analysis")
    while True:
        ev = gen.events(rng, nmax=6, emax=10)
        m = gen.Model(ev.rows(), ev.n)
        if len(m.times) >= 2:
            break
    sc = float(np.median(np.diff(m.times)))
    fs = FlowStability()

    def ask():
        rep.say(fs)
        if rep.loud:
            s = fs.state
            str(s), repr(s)
            fs.help()
            fs.help(verbose=True)
            for name in ("find_louvain_clustering", "time_scale"):
                fs.help(name)
            list(fs.time_scale), list(fs.lamda)

    ask()
    fs.set_temporal_network(**ev.lists())
    ask()
    scales = sorted(float(v) * sc for v in rng.choice([0.5, 1.0, 3.0], int(rng.integers(1, 3)),
                                                      replace=False))
    fs.time_scale = scales
    fs.time_direction = int(rng.integers(-1, 2))
    ask()
    fs.compute_laplacian_matrices()
    ask()
    fs.compute_inter_transition_matrices()
    ask()
    fs.set_flow_clustering()
    ask()
    fs.find_louvain_clustering(rnd_seed=int(rng.integers(2**31)), **rep.kw(verbose="verbose"))
    ask()
    net = fs.temporal_network
    out = {"L": mats(net.laplacians), "rates": sorted(net.inter_T),
           "iT": [M for q in sorted(net.inter_T) for M in mats(net.inter_T[q])],
           "state": fs.state.current.name, "S": [], "part": [], "stab": []}
    for d in (fs.flow_clustering_forward, fs.flow_clustering_backward):
        for q in sorted(d):
            out["S"] += mats(d[q].I_list)
            out["part"].append([canon(d[q].partition[k].cluster_list) for k in sorted(d[q].partition)])
            out["stab"].append([float(d[q].clustering[k].compute_stability())
                                for k in sorted(d[q].clustering)])
    yield out


def compare(ctx, got, want, what, exact=True):
    """equal up to rounding; True if bit by bit"""
    if isinstance(want, dict):
        ctx.equal(sorted(got), sorted(want), "same-result", f"{what}: items")
        same = True
        if "S" in want:
            same = compare(ctx, got["S"], want["S"], f"{what} covariance")
        for k in want:
            if k in ("part", "loops", "progress", "sp", "stab") and not same:
                continue
            compare(ctx, got[k], want[k], f"{what} {k}")
        return same
    if isinstance(want, np.ndarray):
        ctx.equal(got.shape, want.shape, "same-result", f"{what}: shape")
        ctx.close(got, want, "same-result", what, atol=1e-10)
        return bool((got == want).all())
    if isinstance(want, float):
        ctx.close(got, want, "same-result", what, atol=1e-10)
        return got == want
    if isinstance(want, list) and want and isinstance(want[0], (np.ndarray, float)):
        ctx.equal(len(got), len(want), "same-result", f"{what}: number")
        return all([compare(ctx, g, w, f"{what} {i}") for i, (g, w) in enumerate(zip(got, want))])
    ctx.equal(got, want, "same-result", what)
    return True


WORK = [louvain, louvain, integral, helpers, simulation, network, instantaneous, analysis, expm,
        comparison, parallel, static, partition]
SHARE = np.array([4, 4, 3, 1, 3, 4, 1, 4, 1, 0.7, 0.7, 1, 1])


def levels(rng, ctx):
    log = logging.getLogger("flowstab")
    for _ in range(4):
        lev = str(rng.choice(LEVELS))
        flowstab.set_log_level(lev)
        ctx.equal(log.level, getattr(logging, lev), "log-level", f"level after setting {lev}")
        for bad in ("debug", "LOUD", "", None, 10):
            try:
                flowstab.set_log_level(bad)
            except (ValueError, TypeError, KeyError):
                ctx.equal(log.level, getattr(logging, lev), "log-level-rejected",
                          f"level after rejecting {bad!r}")
                continue
            ctx.check(bad != "LOUD", "log-level-rejected", "a level LOUD is accepted")
            flowstab.set_log_level(lev)
    ctx.nontrivial("levels", lev)


def case(rng, ctx):
    try:
        if rng.random() < 0.02:
            return levels(rng, ctx)
        w = WORK[int(rng.choice(len(WORK), p=SHARE / SHARE.sum()))]
        seed = int(rng.integers(2**31))
        loud = Reporting(rng, ctx)
        ctx.describe(computation=w.__name__, seed=seed, level=loud.level, verbose=loud.verbose,
                     print_num_loops=loud.loops)
        order = [Reporting(), loud]
        if rng.random() < 0.5:
            order.reverse()
        results = []
        for rep in order:
            flowstab.set_log_level(rep.level)
            steps = []
            with Rand(seed):
                for r in w(np.random.default_rng(seed), ctx, rep, rep is order[0]):
                    steps.append(r)
                # what is random afterwards must not depend on the reporting either
                after = float(np.random.random())
            results.append((steps, after))
        if order[0] is loud:
            results.reverse()
        (want, wa), (got, ga) = results
        ctx.equal(len(got), len(want), "same-result", f"{w.__name__}: steps")
        for i, (g, q) in enumerate(zip(got, want)):
            compare(ctx, g, q, f"{w.__name__} reported at {loud.level}, verbose={loud.verbose}, "
                    f"step {i}:")
        ctx.equal(ga, wa, "same-afterwards", f"state of the random generator after {w.__name__}")
        ctx.monitors["descriptions-change-nothing"] += 1
        ctx.nontrivial(w.__name__, seed, loud.level, loud.verbose, loud.loops)
    finally:
        flowstab.set_log_level("CRITICAL")
