"""C08: flow integrals are the time averages of the covariance"""
import numpy as np
import scipy.sparse as sp

from vf import gen
from vf.core import dense, snap

from flowstab.network_clustering import Clustering, FlowIntegralClustering, SparseClustering
from flowstab.sparse_stoch_mat import SparseStochMat

CASES = {"quick": 2200, "thorough": 60000}
RULE = ("a case is one list of drawn transition matrices (interval or cumulative; dense, csr "
        "or compressed), probabilities, times, direction and integral grid; every integral is "
        "compared with the dense time average of its definition and clustered; distinct by "
        "matrices, format, direction and grid")
EXPECT = ["integral", "count", "inputs-untouched", "clustering-stability", "symmetric",
          "marginals", "reverse", "forward", "grid", "grid-between-times", "no-times",
          "format-dense", "format-csr", "format-ssm", "from-products", "from-intervals",
          "zero-p1", "uniform-p1", "grid-outside", "grid-repeats", "grid-opposite",
          "clustering-limit", "start-given", "threshold", "clustering-direct", "clustering-input",
          "no-rounding", "nearly-uniform-p1",
          "medium-size"]
ASSUMPTIONS = ["the sparse forms drop values below a relative tolerance (documented): they "
               "are compared up to 1e-6 of the largest value"]


def canon(cl):
    return sorted(sorted(int(v) for v in c) for c in cl if c)


def case(rng, ctx):
    n = int(rng.integers(2, 8))
    K = int(rng.integers(1, 8))
    if rng.random() < 0.03:
        n, K = int(rng.integers(12, 40)), int(rng.integers(8, 40))
        ctx.feature("medium-size")
    elif rng.random() < 0.002:
        n, K = int(rng.integers(2, 5)), int(rng.integers(1010, 1100))
        ctx.feature("long")
    doubly = rng.random() < 0.2
    inter = []
    for _ in range(K):
        if rng.random() < 0.5:
            A = np.triu(rng.random((n, n)) < 0.35, 1).astype(float)
            M = gen.walk_expm(A + A.T, float(rng.choice([0.2, 1.0, 3.0])))
            M[np.abs(M) < 1e-13] = 0        # no rounding residue between components
            inter.append(M)
        else:
            inter.append(gen.stochastic(rng, n, 0.5))
    u = rng.random()
    if u < 0.35:
        p1 = None
        pv = np.full(n, 1 / n)
        ctx.feature("uniform-p1")
    elif u < 0.8:
        p1 = pv = gen.prob(rng, n)
    elif u < 0.94:
        p1 = pv = gen.prob(rng, n, zeros=True)
        if (pv == 0).any():
            ctx.feature("zero-p1")
    else:
        pv = 1 + rng.standard_normal(n) * float(rng.choice([1e-3, 3e-6, 1e-7]))
        p1 = pv = pv / pv.sum()
        ctx.feature("nearly-uniform-p1")
    reverse = bool(rng.random() < 0.5)
    ctx.feature("reverse" if reverse else "forward")
    if rng.random() < 0.2:
        times = None
        tv = np.arange(K + 1)
        ctx.feature("no-times")
    else:
        d = rng.integers(1, 6, K) if rng.random() < 0.4 else rng.random(K) * 3 + 0.05
        tv = np.concatenate([[0], np.cumsum(d)]) + float(rng.choice([0, 5, -3]))
        if np.issubdtype(np.asarray(d).dtype, np.integer) and rng.random() < 0.5:
            tv = tv.astype(int)
        times = tv.tolist() if rng.random() < 0.5 else tv.copy()
    # integral grid
    grid = None
    order = tv[::-1] if reverse else tv
    if rng.random() < 0.65:
        ctx.feature("grid")
        g = []
        for _ in range(int(rng.integers(2, 5))):
            v = rng.random()
            i = int(rng.integers(0, K + 1))
            if v < 0.5:
                g.append(float(tv[i]))
            elif v < 0.8 and i < K:
                g.append(float(tv[i] + (tv[i + 1] - tv[i]) * rng.choice([0.3, 0.5, 0.9])))
                ctx.feature("grid-between-times")
            elif v < 0.9:
                g.append(float(tv[0] - 2))
                ctx.feature("grid-outside")
            else:
                g.append(float(tv[-1] + 2))
                ctx.feature("grid-outside")
        g = sorted(g)
        if g[0] == g[-1]:
            g[-1] = float(tv[-1])
            g[0] = float(tv[0])
        flip = bool(rng.random() < 0.25)
        if reverse != flip:
            g = g[::-1]
        if flip:
            ctx.feature("grid-opposite")
        grid = g if rng.random() < 0.6 else np.array(g)
    # oracle
    seq = inter[::-1] if reverse else inter
    prods = [seq[0]]
    for M in seq[1:]:
        prods.append(prods[-1] @ M)
    dts = np.abs(np.diff(order))
    ks = set()
    if grid is None:
        ks = {K}
    else:
        for t in grid:
            c = [k for k in range(K + 1) if (order[k] >= t if reverse else order[k] <= t)]
            ks.add(max(c) if c else 0)
        if len(ks) < len(grid):
            ctx.feature("grid-repeats")
    ks = sorted(k for k in ks if k > 0)
    want = []
    for k in ks:
        acc = np.zeros((n, n))
        for T, dt in zip(prods[:k], dts[:k]):
            pt = pv @ T
            inv = np.divide(1, pt, out=np.ones(n), where=pt != 0)
            acc += dt * (T * inv) @ T.T
        acc *= 1 / dts[:k].sum()
        want.append(np.outer(pv, pv) * acc - np.outer(pv, pv))
    fmt = str(rng.choice(["dense", "csr", "ssm"]))
    ctx.feature("format-" + fmt)
    conv = {"dense": lambda M: M.copy(), "csr": sp.csr_matrix,
            "ssm": lambda M: SparseStochMat.from_full_csr_matrix(sp.csr_matrix(M))}[fmt]
    kw = dict(p1=None if p1 is None else p1.copy(), time_list=times, reverse_time=reverse,
              integral_time_grid=grid)
    if rng.random() < 0.35:
        ctx.feature("from-products")
        kw["T_list"] = src = [conv(M) for M in prods]
        src_v = prods
    else:
        ctx.feature("from-intervals")
        kw["T_inter_list"] = src = [conv(M) for M in inter]
        src_v = inter
    ctx.describe(n=n, steps=K, times=tv, grid=grid, reverse=reverse, format=fmt,
                 p1=p1, given="products" if "T_list" in kw else "intervals")
    before = snap((kw["p1"], times, grid, len(src)))
    if rng.random() < 0.15:
        kw["verbose"] = [True, 2, 20][int(rng.integers(3))]
        ctx.feature("verbose")
    tolr = 1e-9 if fmt == "dense" else 1e-6
    if rng.random() < 0.35:
        kw["rtol"] = float(rng.choice([0, 1e-12]))     # nothing is dropped then
        tolr = 1e-9
        ctx.feature("no-rounding")
    F = FlowIntegralClustering(**kw)
    ctx.equal(snap((kw["p1"], times, grid, len(src))), before, "inputs-untouched",
              "the caller's probabilities, times or grid changed")
    for i, M in enumerate(src):
        ctx.close(M, src_v[i], "inputs-untouched", f"the caller's matrix {i} changed", atol=1e-12)
    ctx.equal(len(F.I_list), len(want), "count", f"number of integrals for indices {ks}")
    for i, (g, w) in enumerate(zip(F.I_list, want)):
        g = dense(g)
        tol = tolr * max(np.abs(w + np.outer(pv, pv)).max(), 1e-6)
        ctx.close(g, w, "integral", f"integral {i} (until step {ks[i]})", atol=tol, rtol=0)
        ctx.close(g, g.T, "symmetric", f"integral {i} transposed", atol=2 * tol, rtol=0)
        ctx.close(g.sum(1), np.zeros(n), "marginals", f"row sums of integral {i}",
                  atol=n * tol + 1e-9, rtol=0)
    if ks and rng.random() < 0.7:
        k = int(rng.integers(len(ks)))
        seed = int(rng.integers(1 << 30))
        opt, W = {"rnd_seed": seed}, want[k]
        start = [{i} for i in range(n)]
        limit = None
        if rng.random() < 0.5:
            v = rng.random()
            if v < 0.5:
                start = gen.partition(rng, n)
                if rng.random() < 0.5:      # a good one
                    found = [Clustering(p1=pv.copy(), S=W.copy(), rnd_seed=i) for i in range(6)]
                    for c in found:
                        c.find_louvain_clustering()
                    start = [set(c) for c in max(
                        found, key=lambda c: c.compute_stability()).partition.cluster_list]
                if v < 0.25:
                    opt["cluster_list"] = [set(c) for c in start]
                else:
                    opt["node_to_cluster_dict"] = {q: i for i, c in enumerate(start) for q in c}
                ctx.feature("start-given")
            if rng.random() < 0.4:
                limit = int(rng.integers(0, 3))
                opt["n_meta_iter_max"] = limit
                opt["n_sub_iter_max"] = int(rng.integers(1, 4))
                opt["rnd_state"] = gen.Passes(seed)
                gen.Passes.n = 0
                ctx.feature("limited")
            if rng.random() < 0.3:
                opt["save_progress"] = True
            if rng.random() < 0.15:
                opt["verbose"] = [True, 2, 20][int(rng.integers(3))]
            thr = float(np.abs(W).max() * rng.choice([0.05, 0.3]))
            if fmt == "dense" and rng.random() < 0.4 and thr > 1e-6 \
                    and (np.abs(np.abs(W) - thr) > 1e-6 * thr).all():
                opt["S_threshold"] = thr
                W = np.where(np.abs(W) < thr, 0, W)
                ctx.feature("threshold")
        r = F.find_louvain_clustering(k=k, **opt)
        if limit is not None:
            ctx.check(r <= limit + 1, "clustering-limit",
                      f"{r} meta loops, at most {limit} asked for")
            ctx.check(gen.Passes.n <= r * opt["n_sub_iter_max"], "clustering-limit",
                      f"{gen.Passes.n} passes over the nodes in {r} meta loops, at most "
                      f"{opt['n_sub_iter_max']} each")
        part = F.partition[k]
        cl = [set(int(v) for v in c) for c in part.cluster_list]
        ctx.equal(sorted(v for c in cl for v in c), list(range(n)), "clustering-partition",
                  "nodes of the partition")
        stab = sum(W[np.ix_(sorted(c), sorted(c))].sum() for c in cl)
        stab0 = sum(W[np.ix_(sorted(c), sorted(c))].sum() for c in start)
        if fmt == "dense":
            ctx.close(F.clustering[k].p2, pv @ prods[ks[k] - 1], "clustering-input",
                      f"distribution at the end of integral {k}", atol=1e-9)
        if rng.random() < 0.6:
            # the covariance clustered directly with the same options
            o2 = {a: b for a, b in opt.items() if a in ("cluster_list", "node_to_cluster_dict")}
            run = {a: b for a, b in opt.items() if a in (
                "n_meta_iter_max", "n_sub_iter_max", "save_progress", "rnd_seed")}
            if "rnd_state" in opt:
                o2["rnd_state"] = gen.Passes(seed)
            else:
                o2["rnd_seed"] = seed
            if fmt == "dense":
                o2.update(S_threshold=opt.get("S_threshold"), T=F.T_list[ks[k] - 1])
            c = (Clustering if fmt == "dense" else SparseClustering)(
                p1=F.p1.copy(), p2=None, S=F.I_list[k], **o2)
            r2 = c.find_louvain_clustering(**run)
            ctx.equal((r, canon(cl)), (r2, canon(c.partition.cluster_list)), "clustering-direct",
                      f"loops and partition of integral {k} with {opt}")
            if "save_progress" in opt:
                steps = [[canon(q.cluster_list) for q in getattr(x, "partition_progress", [])]
                         for x in (F.clustering[k], c)]
                ctx.equal(steps[0], steps[1], "clustering-direct", "saved progress")
        if rng.random() < 0.3:
            # asked again with other settings: partition and reported stability still agree
            F.find_louvain_clustering(k=k, cluster_list=gen.partition(rng, n), rnd_seed=1)
            ctx.equal(canon(F.partition[k].cluster_list),
                      canon(F.clustering[k].partition.cluster_list), "clustering-partition",
                      "partition after a second call")
            if canon(F.partition[k].cluster_list) != canon(cl):
                return
            ctx.feature("asked-again")
        tol = tolr * n * n * max(np.abs(want[k]).max(), 1e-6) + 1e-10
        ctx.close(F.clustering[k].compute_stability(), stab, "clustering-stability",
                  f"stability of the clustering of integral {k}", atol=tol, rtol=0)
        # a covariance that is zero up to rounding gives one cluster
        zero = np.abs(want[k]).max() < 1e-4 * pv.max() ** 2
        ctx.check(zero or stab >= stab0 - tol, "clustering-stability",
                  f"clustering {cl} is less stable ({stab}) than the start ({stab0})")
    ctx.nontrivial(fmt, reverse, [float(t) for t in (grid if grid is not None else [])],
                   [M.tobytes() for M in inter])
