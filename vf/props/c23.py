"""C23: computations never modify what the caller handed in"""
import os

import numpy as np
import pandas as pd
import scipy.sparse as sp

from vf import gen
from vf.core import snap as _snap

from flowstab import network_clustering as nc
from flowstab import parallel_clustering as pcl
from flowstab import sparse_stoch_mat as ssm
from flowstab import temporal_network as tn
from flowstab.flow_stability import FlowStability

CASES = {"quick": 6000, "thorough": 120000}
RULE = ("a case is one history of public calls of one part of the package; every argument "
        "handed in and every result handed out is watched: a deep snapshot of its value taken "
        "when it appeared is compared with its value after each later call; distinct by history "
        "and data")
EXPECT = ["argument", "result", "area-network", "area-inst", "area-matrix", "area-autocov",
          "area-helpers", "area-clustering", "area-integral", "area-compare", "area-static",
          "area-analysis", "area-parallel", "from-lists", "from-arrays", "from-table", "merged",
          "saved-inter", "saved-delta", "saved-T", "saved-network", "rounded-copy", "new-window",
          "given-partition", "given-assignment", "clustered-twice", "grid-given", "times-array",
          "second-scale", "backward", "module-defaults"]
ASSUMPTIONS = ["operations documented to work in place (inplace_*, set_to_zeroes, set_to_ones, "
               "moves on a partition) are not called on watched objects",
               "a change of storage (order of indices, explicit zeros) is no change of value",
               "random states handed in advance"]


def snap(x):
    if isinstance(x, ssm.SparseAutocovMat):
        return ("cov", _snap(x.PT), _snap(x.p1), _snap(x.p2), _snap(x.PTcsc))
    if sp.issparse(x):
        return ("sp", x.shape, (x.toarray() + 0.0).tobytes())
    if isinstance(x, ssm.SparseStochMat):
        return ("ssm", x.size, snap(x.T_small), _snap(x.nz_rowcols), float(x.diag_val))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, tuple(snap(v) for v in x))
    if isinstance(x, dict):
        return ("dict", tuple((_snap(k), snap(v)) for k, v in x.items()))
    if isinstance(x, nc.Partition):
        return ("part", _snap(list(map(set, x.cluster_list))),
                _snap(dict(sorted(x.node_to_cluster_dict.items()))))
    return _snap(x)


class Watch:
    """all values that appeared so far, compared after every call"""

    def __init__(self, ctx):
        self.ctx, self.seen, self.hist = ctx, [], []

    def arg(self, name, x):
        self.seen.append(("argument", name, x, snap(x)))
        return x

    def result(self, name, x):
        self.seen.append(("result", name, x, snap(x)))
        return x

    def call(self, what, fn, *a, **kw):
        r = fn(*a, **kw)
        self.hist.append(what)
        self.verify(what)
        return r

    def verify(self, what):
        for kind, name, x, s in self.seen:
            if snap(x) != s:
                self.ctx.fail(kind, f"{name} was modified by {what} (history {self.hist[-8:]})")
        n = {"argument": 0, "result": 0}
        for e in self.seen:
            n[e[0]] += 1
        for k, v in n.items():
            if v:
                self.ctx.monitors[k] += v
                self.ctx.feature(k)


def as_kind(rng, ctx, xs):
    if rng.random() < 0.4:
        ctx.feature("from-arrays")
        return np.array(xs)
    ctx.feature("from-lists")
    return list(xs)


# ------------------------------------------------------------------ networks
def results_of(net):
    """everything computed so far, as the user reaches it"""
    for name in ("times", "laplacians", "adjacencies", "inter_T", "inter_T_lin", "T", "T_lin"):
        if hasattr(net, name):
            yield name, getattr(net, name)


def flatten(x):
    """the leaves, since the dictionaries themselves grow with new results"""
    if isinstance(x, dict):
        for k, v in x.items():
            for n, leaf in flatten(v):
                yield (k,) + n, leaf
    else:
        yield (), x


def hand_out(w, net, ids):
    for name, x in results_of(net):
        for key, leaf in flatten(x):
            # lists are replaced, never reused
            if id(leaf) not in ids:
                ids[id(leaf)] = leaf
                w.result(f"net.{name}{list(key) if key else ''}", leaf)


def network(rng, ctx, w):
    ctx.feature("area-network")
    ev = gen.events(rng, nmax=7, emax=14)
    ctx.describe(**ev.desc())
    kind = str(rng.choice(gen.LABELS[:-1]))
    lab = gen.labels(rng, ev.n, kind)
    merge = bool(rng.random() < 0.3)
    cols = dict(source_nodes=[lab[v] for v in ev.src], target_nodes=[lab[v] for v in ev.dst],
                starting_times=ev.start, ending_times=ev.end)
    extra = None
    kw = {}
    if rng.random() < 0.4:
        ctx.feature("from-table")
        df = pd.DataFrame(cols)
        if rng.random() < 0.5:
            df["weight"] = rng.random(len(df))
        if rng.random() < 0.5:
            df.index = [7 * i + 3 for i in range(len(df))]
        relabel = bool(rng.random() < 0.7)
        if not relabel:
            df["source_nodes"], df["target_nodes"] = ev.src, ev.dst
            kw["node_to_label_dict"] = w.arg("node_to_label_dict", dict(enumerate(lab)))
        w.arg("events_table", df)
        args = dict(events_table=df, relabel_nodes=relabel)
    else:
        args = {k: w.arg(k, as_kind(rng, ctx, v)) for k, v in cols.items()}
        if rng.random() < 0.3:
            extra = w.arg("extra_attrs", {"weight": as_kind(rng, ctx, rng.random(len(ev)))})
            kw["extra_attrs"] = extra
    if merge:
        ctx.feature("merged")
    net = w.call("ContTempNetwork", tn.ContTempNetwork, **args,
                 merge_overlapping_events=merge, **kw)
    w.result("net.events_table", net.events_table)
    w.result("net.node_to_label_dict", net.node_to_label_dict)
    drive(rng, ctx, w, net, ev.start, ev.end, ev.n)
    ctx.nontrivial(ev.rows(), kind, merge, w.hist)


def inst(rng, ctx, w):
    ctx.feature("area-inst")
    ev = gen.events(rng, nmax=6, emax=10)
    ctx.describe(**ev.desc())
    args = {k: w.arg(k, as_kind(rng, ctx, v)) for k, v in
            dict(source_nodes=ev.src, target_nodes=ev.dst, starting_times=ev.start).items()}
    net = w.call("ContTempInstNetwork", tn.ContTempInstNetwork, **args)
    w.result("net.events_table", net.events_table)
    drive(rng, ctx, w, net, ev.start, ev.end, ev.n, inst=True)
    ctx.nontrivial("inst", ev.rows(), w.hist)


def drive(rng, ctx, w, net, start, end, n, inst=False):
    ids = {}
    times = sorted(set(list(start) + ([] if inst else list(end))))
    scale = float(np.median(np.diff(times))) if len(times) > 1 else 1.0
    lams = [0.3 / scale, 1.5 / scale, 12 / scale]
    sparse = bool(rng.random() < 0.5)

    def window():
        t0, t1 = gen.draw_window(rng, times)
        w.call(f"compute_laplacian_matrices({t0}, {t1})", net.compute_laplacian_matrices,
               t_start=t0, t_stop=t1, save_adjacencies=bool(rng.random() < 0.5))
        hand_out(w, net, ids)
    window()
    for step in range(int(rng.integers(2, 8))):
        u = rng.random()
        lam = float(rng.choice(lams))
        if u < 0.15:
            window()
            ctx.feature("new-window")
        elif u < 0.35:
            w.call(f"compute_inter_transition_matrices({lam})",
                   net.compute_inter_transition_matrices, lamda=lam, use_sparse_stoch=sparse)
        elif u < 0.5:
            w.call(f"compute_lin_inter_transition_matrices({lam})",
                   net.compute_lin_inter_transition_matrices, lamda=lam, t_s=10,
                   use_sparse_stoch=sparse)
        elif u < 0.6:
            w.call("compute_static_adjacency_matrix", net.compute_static_adjacency_matrix)
        elif u < 0.75 and hasattr(net, "inter_T"):
            lam = list(net.inter_T)[int(rng.integers(len(net.inter_T)))]
            w.call(f"compute_transition_matrices({lam})", net.compute_transition_matrices,
                   lamda=lam, reverse_time=bool(rng.random() < 0.5),
                   save_intermediate=bool(rng.random() < 0.4),
                   force_csr=bool(rng.random() < 0.3),
                   tol=1e-3 if rng.random() < 0.3 else None)
        elif u < 0.8 and hasattr(net, "inter_T_lin"):
            lam = list(net.inter_T_lin)[int(rng.integers(len(net.inter_T_lin)))]
            w.call(f"compute_lin_transition_matrices({lam})",
                   net.compute_lin_transition_matrices, lamda=lam, t_s=10,
                   reverse_time=bool(rng.random() < 0.5),
                   save_intermediate=bool(rng.random() < 0.4))
        else:
            save(rng, ctx, w, net, sparse, step, inst)
        hand_out(w, net, ids)


def save(rng, ctx, w, net, sparse, step, inst):
    f = os.path.join(w.ctx.scratch, f"f{step}")
    # a tolerance that rounds real values away in the file
    tol = float(rng.choice([1e-8, 1e-2, 0.2]))
    if tol > 1e-3:
        ctx.feature("rounded-copy")
    u = rng.random()
    gz = bool(rng.random() < 0.3)
    if u < 0.4 and hasattr(net, "inter_T"):
        delta = not sparse      # what the format requires
        w.call(f"save_inter_T(tol={tol}, delta={delta})", net.save_inter_T, f, round_zeros=True,
               tol=tol, compressed=gz, save_delta=delta)
        ctx.feature("saved-delta" if delta else "saved-inter")
    elif u < 0.5 and hasattr(net, "inter_T_lin"):
        w.call(f"save_inter_T_lin(tol={tol})", net.save_inter_T_lin, f, round_zeros=True,
               tol=tol, compressed=gz, save_delta=not sparse)
        ctx.feature("saved-inter")
    elif u < 0.7 and hasattr(net, "T") and \
            not any(isinstance(v, list) for v in net.T.values()):
        w.call(f"save_T(tol={tol})", net.save_T, f, round_zeros=True, tol=tol, compressed=gz)
        ctx.feature("saved-T")
    elif u < 0.8 and hasattr(net, "T_lin") and \
            not any(isinstance(v, list) for d in net.T_lin.values() for v in d.values()):
        w.call(f"save_T_lin(tol={tol})", net.save_T_lin, f, round_zeros=True, tol=tol,
               compressed=gz)
        ctx.feature("saved-T")
    else:
        w.call("save", net.save, f, matrices_list=[m for m in
               ("laplacians", "inter_T", "T") if hasattr(net, m) and
               not (m == "T" and rng.random() < 0.5)], attributes_list=["times"])
        ctx.feature("saved-network")


# ------------------------------------------------------------------ matrices
def ssm_of(rng, n, diag=1.0):
    M = gen.stochastic(rng, n, 0.6)
    nz = np.flatnonzero(rng.random(n) < 0.7).astype(np.int32)
    if nz.size == 0:
        nz = np.array([int(rng.integers(n))], np.int32)
    small = gen.stochastic(rng, nz.size, 0.6)
    return ssm.SparseStochMat.from_small_csr_matrix(n, sp.csr_matrix(small), nz, diag_val=diag)


def matrix(rng, ctx, w):
    ctx.feature("area-matrix")
    n = int(rng.integers(2, 9))
    T = w.arg("csr", gen.csr(gen.stochastic(rng, n)))
    w.call("from_full_csr_matrix", ssm.SparseStochMat.from_full_csr_matrix, T)
    A = w.arg("A", ssm_of(rng, n))
    B = w.arg("B", ssm_of(rng, n))
    C = w.arg("C", gen.csr(gen.stochastic(rng, n)))
    D = w.arg("D", rng.random((n, n)))
    v = w.arg("v", rng.random(n))
    p = w.arg("p", gen.prob(rng, n))
    ops = {
        "A+B": lambda: A + B, "A-B": lambda: A - B, "B-A": lambda: B - A,
        "A@B": lambda: A @ B, "A+C": lambda: A + C,
        "A-C": lambda: A - C, "A@C": lambda: A @ C,
        "A@D": lambda: A @ D,
        "2*A": lambda: 2.5 * A, "A*2": lambda: A * 0.5, "A.T": lambda: A.T,
        "transpose": lambda: A.transpose(copy=True), "sub_diag": lambda: A.sub_diag(1.0),
        "add_diag": lambda: A.add_diag(0.5), "copy": A.copy, "tocsr": A.tocsr,
        "to_full_mat": A.to_full_mat, "toarray": A.toarray, "repr": lambda: repr(A),
        "row_normalize-of-copy": lambda: A.copy().inplace_row_normalize(),
        "zeroes-of-copy": lambda: A.copy().set_to_zeroes(0.3),
        "csr-zeroes-of-copy": lambda: tn.set_to_zeroes(A.to_full_mat().copy(), 0.3),
        "normalize-of-csr": lambda: ssm.inplace_csr_row_normalize(A.tocsr().copy()),
        "matmul": lambda: ssm.sparse_matmul(C, T), "gram": lambda: ssm.sparse_gram_matrix(C, True),
        "outer": lambda: ssm.sparse_outer(sp.csr_matrix(p)),
        "intersect": lambda: A.check_nz_intersect_len(B),
    }
    if rng.random() < 0.3:
        # in place on a converted matrix must not reach the original
        ops = {k: o for k, o in ops.items() if "copy" in k or "of" in k}
    names = list(ops)
    for _ in range(int(rng.integers(3, 12))):
        k = names[int(rng.integers(len(names)))]
        try:
            r = w.call(k, ops[k])
        except (NotImplementedError, TypeError):
            # operand kinds the class does not support: refused, unmodified
            w.verify(k + " (refused)")
            continue
        if r is not None and not isinstance(r, (str, tuple)):
            w.result(k, r)
    ctx.nontrivial("matrix", n, _snap(T), w.hist)


def autocov(rng, ctx, w):
    ctx.feature("area-autocov")
    n = int(rng.integers(2, 9))
    T = w.arg("T", gen.csr(gen.stochastic(rng, n)))
    p1 = w.arg("p1", gen.prob(rng, n, zeros=bool(rng.random() < 0.4)))
    p2 = w.arg("p2", np.asarray(p1 @ T.toarray()))
    cls = ssm.SparseAutocovMat
    u = rng.random()
    if u < 0.3:
        S = w.call("from_T", cls.from_T, T, p1, p2 if rng.random() < 0.5 else None)
    elif u < 0.6:
        S = w.call("from_T_forward", cls.from_T_forward, T, p1 if rng.random() < 0.6 else None,
                   None if rng.random() < 0.5 else p2)
    elif u < 0.8:
        PT = w.arg("PT", gen.csr(np.diag(p1) @ T.toarray()))
        S = w.call("SparseAutocovMat", cls, PT, p1, p2)
    else:
        S = w.call("from_T", cls.from_T, T)
    w.result("S", S)
    for _ in range(int(rng.integers(3, 10))):
        cl = gen.partition(rng, n)
        idx = w.arg("clusters", [sorted(c) for c in cl])
        i = int(rng.integers(n))
        q = int(rng.integers(9))
        c = np.array(idx[int(rng.integers(len(idx)))], np.int32)
        w.arg("indices", c)
        if q == 0:
            w.result("aggregated", w.call("aggregate", S.aggregate, idx))
        elif q == 1:
            w.call("get_submat_sum", S.get_submat_sum, c, c)
        elif q == 2:
            w.call("get_row_idx_sum", S.get_row_idx_sum, i, list(c))
        elif q == 3:
            w.call("get_col_idx_sum", S.get_col_idx_sum, i, list(c))
        elif q == 4:
            w.result("array", w.call("toarray", S.toarray))
        elif q == 5:
            w.result("copy", w.call("copy", S.copy))
        elif q == 6:
            w.call("is_all_zeros", S.is_all_zeros)
        elif q == 7:
            w.call("get_element", S.get_element, i, int(rng.integers(n)))
        else:
            C2 = w.call("SparseClustering", nc.SparseClustering, p1=p1, p2=p2, S=S,
                        rnd_seed=int(rng.integers(100)))
            w.call("louvain", C2.find_louvain_clustering)
    ctx.nontrivial("autocov", n, _snap(T), w.hist)


def helpers(rng, ctx, w):
    ctx.feature("area-helpers")
    n = int(rng.integers(2, 12))
    A = np.triu(rng.random((n, n)) < rng.choice([0.15, 0.5]), 1).astype(float)
    A = A + A.T
    if not A.any():
        A[0, 1] = A[1, 0] = 1
    L = w.arg("L", sp.csc_matrix(gen.walk_laplacian(A)))
    Lr = w.arg("L csr", sp.csr_matrix(gen.walk_laplacian(A)))
    T = w.arg("T", sp.csr_matrix(gen.discrete_T(A)))
    Pi = w.arg("Pi", sp.csr_matrix(gen.stationary(A)))
    nz = w.arg("nz", np.flatnonzero(A.sum(1) > 0).astype(np.int32))
    X = w.arg("X", sp.csc_matrix(rng.random((n, n)) * (rng.random((n, n)) < 0.5)))
    t = float(rng.choice([0.3, 1, 2.5, 20]))
    small, keep, size = w.call("remove_nnz_rowcol", tn.remove_nnz_rowcol, L)
    w.result("small", small)
    from flowstab import parallel_expm as pe
    ops = {
        "sparse_lapl_expm": lambda: tn.sparse_lapl_expm(L, t, dense_expm=bool(rng.random() < .5)),
        "sparse_lapl_expm csr": lambda: tn.sparse_lapl_expm(Lr, t),
        "compute_subspace_expm": lambda: tn.compute_subspace_expm(sp.csc_matrix(-t * L)),
        "subspace of the matrix itself": lambda: tn.compute_subspace_expm(
            L, thresh_ratio=20.0 if rng.random() < 0.5 else None, normalize_rows=False),
        "lin_approx": lambda: tn.lin_approx_trans_matrix(T, t, Pi=Pi, t_s=10),
        "lin_approx no Pi": lambda: tn.lin_approx_trans_matrix(T, t, t_s=10),
        "sparse_lin_approx": lambda: tn.sparse_lin_approx(
            T, t, Pi=Pi, t_s=10, nz_rowcols=nz if rng.random() < 0.5 else None),
        "stationary": lambda: tn.compute_stationary_transition(T),
        "sparse stationary": lambda: tn.sparse_stationary_trans(T),
        "csc_row_normalize": lambda: tn.csc_row_normalize(X),
        "csc_row_normalize csr": lambda: tn.csc_row_normalize(T),
        "remove_nnz_rowcol": lambda: tn.remove_nnz_rowcol(X),
    }
    names = list(ops)
    for _ in range(int(rng.integers(3, 10))):
        k = names[int(rng.integers(len(names)))]
        r = w.call(k, ops[k])
        w.result(k, r)
    ctx.nontrivial("helpers", n, A.tobytes(), w.hist)


# ------------------------------------------------------------------ clustering
def clustering(rng, ctx, w):
    ctx.feature("area-clustering")
    n = int(rng.integers(2, 8))
    M = gen.stochastic(rng, n, 0.6, sparse_rows=False)
    p1 = w.arg("p1", gen.prob(rng, n)) if rng.random() < 0.7 else None
    p2 = None
    if p1 is not None and rng.random() < 0.5:
        p2 = w.arg("p2", p1 @ M)
    sparse = bool(rng.random() < 0.4)
    base = not sparse and bool(rng.random() < 0.3)
    T = w.arg("T", gen.csr(M) if sparse else M)
    kw = {}
    S = None
    if not sparse and rng.random() < 0.4:
        q = p1 if p1 is not None else np.full(n, 1 / n)
        S = w.arg("S", np.diag(q) @ M - np.outer(q, q @ M))
        if rng.random() < 0.5:
            kw["S_threshold"] = 0.02
    cl = gen.partition(rng, n)
    pre = ["source_", "target_"] if base else [""]
    u = rng.random()
    if u < 0.35:
        ctx.feature("given-partition")
        w.arg("cluster_list", cl)
        for q in pre:
            kw[q + "cluster_list"] = cl
    elif u < 0.6:
        ctx.feature("given-assignment")
        d = w.arg("node_to_cluster_dict", {v: i for i, c in enumerate(cl) for v in c})
        for q in pre:
            kw[q + "node_to_cluster_dict"] = d
    cls = nc.BaseClustering if base else nc.SparseClustering if sparse else nc.Clustering
    c = w.call(cls.__name__, cls, p1=p1, p2=p2, T=T, S=S, rnd_seed=int(rng.integers(1000)), **kw)
    w.result("clustering.T", c.T)
    w.result("clustering.p1", c.p1)
    w.result("clustering.p2", c.p2)
    # the initial partition belongs to the object, its moves stay inside
    parts = [c.source_part] + ([c.target_part] if c.target_part is not None else [])
    if rng.random() < 0.5:
        part = parts[0]
        for _ in range(int(rng.integers(1, 4))):
            k = part.get_num_clusters()
            if k > 1:
                others = [snap(q) for q in parts[1:]]
                w.call("move_node", part.move_node, int(rng.integers(n)), int(rng.integers(k)))
                w.ctx.equal([snap(q) for q in parts[1:]], others, "result",
                            "a move of the source partition changed the target partition")
        w.call("remove_empty_clusters", part.remove_empty_clusters)
    if not base:                # abstract in the base class
        w.call("compute_stability", c.compute_stability)
    for rep in range(0 if base else int(rng.integers(1, 3))):
        if rep:
            ctx.feature("clustered-twice")
        w.call("find_louvain_clustering", c.find_louvain_clustering,
               save_progress=bool(rng.random() < 0.5))
        w.result(f"clusters {rep}", [sorted(x) for x in c.partition.cluster_list])
    if not base and rng.random() < 0.6:
        r = w.call("run_multi_louvain", nc.run_multi_louvain, c, 3)
        w.result("repetitions", r[1])
        w.result("partition of the clustering", c.partition)
        r2 = w.call("run_multi_louvain", nc.run_multi_louvain, c, 2)
        w.result("stabilities", r2[2])
        w.call("avg_norm_var_information", nc.avg_norm_var_information, r[1])
    ctx.nontrivial("clustering", n, M.tobytes(), cl, w.hist)


def integral(rng, ctx, w):
    ctx.feature("area-integral")
    n, K = int(rng.integers(2, 7)), int(rng.integers(1, 6))
    Ms = []
    for _ in range(K):
        A = np.triu(rng.random((n, n)) < 0.4, 1).astype(float)
        Ms.append(gen.walk_expm(A + A.T, 1.0))
    fmt = int(rng.integers(3))
    if fmt == 1:
        Ms = [gen.csr(M) for M in Ms]
    elif fmt == 2:
        Ms = [ssm.SparseStochMat.from_full_csr_matrix(gen.csr(M)) for M in Ms]
    rev = bool(rng.random() < 0.5)
    if rev:
        ctx.feature("backward")
    d = rng.integers(1, 5, K)
    tv = np.concatenate([[0], np.cumsum(d)])
    if rng.random() < 0.5:
        tv = tv + 0.25
    kw = {}
    if rng.random() < 0.8:
        arr = bool(rng.random() < 0.5)
        if arr:
            ctx.feature("times-array")
        kw["time_list"] = w.arg("time_list", tv.copy() if arr else tv.tolist())
        if rng.random() < 0.6:
            ctx.feature("grid-given")
            g = sorted({float(tv[0]), float(tv[-1]), float(tv[int(rng.integers(K + 1))])})
            if rng.random() < 0.4:
                g = g[::-1]
            kw["integral_time_grid"] = w.arg("integral_time_grid",
                                             np.array(g) if rng.random() < 0.5 else g)
    p1 = w.arg("p1", gen.prob(rng, n)) if rng.random() < 0.5 else None
    key = "T_inter_list" if rng.random() < 0.7 else "T_list"
    w.arg(key, Ms)
    c = w.call("FlowIntegralClustering", nc.FlowIntegralClustering, p1=p1, reverse_time=rev,
               rtol=float(rng.choice([1e-8, 1e-2])), **{key: Ms}, **kw)
    w.result("I_list", c.I_list)
    w.result("T_list", c.T_list)
    cl = gen.partition(rng, n)
    kw = {}
    if rng.random() < 0.5:
        kw["cluster_list"] = w.arg("cluster_list", cl)
        ctx.feature("given-partition")
    for k in range(len(c.I_list)):
        w.call(f"find_louvain_clustering({k})", c.find_louvain_clustering, k=k,
               rnd_seed=int(rng.integers(1000)), **kw)
        w.result(f"partition {k}", c.partition[k])
        w.call(f"compute_stability {k}", c.clustering[k].compute_stability)
    # a second analysis of the same matrices, in the other direction
    c2 = w.call("second FlowIntegralClustering", nc.FlowIntegralClustering, p1=p1,
                reverse_time=not rev, **{key: Ms})
    w.call("louvain of the second", c2.find_louvain_clustering, k=0, rnd_seed=3)
    ctx.nontrivial("integral", n, fmt, [snap(M) for M in Ms], w.hist)


def compare(rng, ctx, w):
    ctx.feature("area-compare")
    n = int(rng.integers(2, 12))
    lists = w.arg("lists", [gen.partition(rng, n) for _ in range(int(rng.integers(2, 5)))])
    for _ in range(int(rng.integers(3, 10))):
        a = lists[int(rng.integers(len(lists)))]
        b = lists[int(rng.integers(len(lists)))]
        q = int(rng.integers(6))
        if q == 0:
            w.call("jaccard", nc.jaccard_distance, a, b)
        elif q == 1 and len(a) + len(b) > 2:
            w.call("nmi", nc.norm_mutual_information, a, b)
        elif q == 2:
            w.call("nvi", nc.norm_var_information, a, b)
        elif q == 3:
            w.call("sort", nc.sort_clusters, a, b)
        elif q == 4:
            w.call("avg", nc.avg_norm_var_information, lists)
        else:
            P = w.call("Partition", nc.Partition, n, cluster_list=a)
            Q = w.call("Partition", nc.Partition, n, cluster_list=a)
            before = snap(Q)
            for _ in range(3):
                w.call("move", P.move_node, int(rng.integers(n)), int(rng.integers(len(a))))
            w.call("remove_empty", P.remove_empty_clusters)
            w.call("indicator", P.get_indicator)
            ctx.equal(snap(Q), before, "result", "a move in one partition changed another")
    ctx.nontrivial("compare", n, lists, w.hist)


def static(rng, ctx, w):
    ctx.feature("area-static")
    n = int(rng.integers(3, 9))
    A = np.triu(rng.random((n, n)) < 0.5, 1) * rng.integers(1, 5, (n, n)).astype(float)
    A = A + A.T
    if rng.random() < 0.3:
        A[:, 0] = A[0] = 0          # an isolated node
    if not A.any():
        A[1, 2] = A[2, 1] = 1
    sparse = bool(rng.random() < 0.5)
    X = w.arg("A", gen.csr(A) if sparse else A)
    kw = [dict(), dict(linearized=True), dict(discrete_time_rw=True)][int(rng.integers(3))]
    c = w.call(f"static_clustering({kw})", nc.static_clustering, X, t=int(rng.integers(1, 3)),
               rnd_seed=5, **kw)
    w.result("T", c.T)
    w.call("louvain", c.find_louvain_clustering)
    w.call("multi", nc.run_multi_louvain, c, 2)
    ctx.nontrivial("static", n, A.tobytes(), sparse, kw)


# ------------------------------------------------------------------ analysis object
def analysis(rng, ctx, w):
    ctx.feature("area-analysis")
    ev = gen.events(rng, nmax=5, emax=8, kinds=["small-int", "quarter"])
    net = tn.ContTempNetwork(**ev.lists())
    w.arg("events of the network", net.events_table)
    w.arg("labels of the network", net.node_to_label_dict)
    times = sorted(set(ev.start + ev.end))
    scale = float(np.median(np.diff(times)))
    scales = [scale, 3 * scale]
    scales = w.arg("time_scale", np.array(scales) if rng.random() < 0.5 else scales)
    direction = int(rng.choice([1, -1, 0]))
    if direction < 1:
        ctx.feature("backward")
    fs = w.call("FlowStability", FlowStability, temporal_network=net, time_scale=scales,
                time_direction=direction)
    w.call("compute_laplacian_matrices", fs.compute_laplacian_matrices)
    w.result("laplacians", net.laplacians)
    lin = bool(rng.random() < 0.3)
    w.call("compute_inter_transition_matrices", fs.compute_inter_transition_matrices,
           linear_approx=lin)
    for name in ("inter_T", "inter_T_lin"):
        for k, leaf in flatten(getattr(net, name, {})):
            w.result(f"{name}{k}", leaf)
    w.call("set_flow_clustering", fs.set_flow_clustering)
    w.call("find_louvain_clustering", fs.find_louvain_clustering)
    for name in ("flow_clustering_forward", "flow_clustering_backward"):
        d = getattr(fs, name)
        if isinstance(d, dict):
            for k, c in d.items():
                w.result(f"{name}[{k}].I_list", c.I_list)
                w.result(f"{name}[{k}].partition", c.partition[0])
    if rng.random() < 0.7:
        ctx.feature("second-scale")
        fs.time_scale = 7 * scale
        w.verify("new time scale")
        w.call("compute_inter_transition_matrices", fs.compute_inter_transition_matrices,
               linear_approx=lin)
        w.call("set_flow_clustering", fs.set_flow_clustering)
        w.call("find_louvain_clustering", fs.find_louvain_clustering)
    ctx.nontrivial("analysis", ev.rows(), direction, lin, w.hist)


def parallel(rng, ctx, w):
    ctx.feature("area-parallel")
    n = int(rng.integers(3, 8))
    M = gen.stochastic(rng, n, 0.6, sparse_rows=False)
    p1 = w.arg("p1", gen.prob(rng, n))
    sparse = bool(rng.random() < 0.5)
    c = (nc.SparseClustering(T=w.arg("T", gen.csr(M)), p1=p1, rnd_seed=1) if sparse else
         nc.Clustering(T=w.arg("T", M), p1=p1, rnd_seed=1))
    w.arg("partition of the clustering", c.partition)
    w.arg("T of the clustering", c.T)
    r = w.call("compute_parallel_clustering", pcl.compute_parallel_clustering, c, num_repeat=3,
               nproc=2, verbose=False)
    w.result("clusters", list(r[0]))
    w.call("compute_parallel_nvi", pcl.compute_parallel_nvi, list(r[0]), n, nproc=2,
           verbose=False)
    ctx.nontrivial("parallel", n, M.tobytes(), sparse)


def defaults(rng, ctx, w):
    """arguments with a mutable default: a call must not change what the next one means"""
    ctx.feature("module-defaults")
    import inspect
    objs = []
    for mod in (tn, nc, ssm, pcl):
        for name, o in list(vars(mod).items()):
            cand = [(name, o)] if inspect.isfunction(o) else \
                [(f"{name}.{k}", v) for k, v in vars(o).items() if inspect.isfunction(v)] \
                if inspect.isclass(o) and o.__module__ == mod.__name__ else []
            for nm, fn in cand:
                for d in (fn.__defaults__ or ()) + tuple((fn.__kwdefaults__ or {}).values()):
                    if isinstance(d, (list, dict, set, np.ndarray)):
                        objs.append((nm, d))
    for nm, d in objs:
        w.arg(f"default of {nm}", d)
    (network if rng.random() < 0.6 else clustering)(rng, ctx, w)


AREAS = [(network, .2), (inst, .08), (matrix, .12), (autocov, .1), (helpers, .1),
         (clustering, .12), (integral, .1), (compare, .05), (static, .06), (analysis, .04),
         (parallel, .01), (defaults, .02)]


def case(rng, ctx):
    w = Watch(ctx)
    p = np.array([a[1] for a in AREAS])
    area = AREAS[int(rng.choice(len(AREAS), p=p / p.sum()))][0]
    ctx.describe(area=area.__name__)
    area(rng, ctx, w)
    ctx.describe(history=w.hist)
