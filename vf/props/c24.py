"""C24: results do not depend on names, units or order of the events"""
import numpy as np

from vf import gen
from vf.core import dense

from flowstab import network_clustering as nc
from flowstab.flow_stability import FlowStability
from flowstab.temporal_network import ContTempInstNetwork, ContTempNetwork

CASES = {"quick": 1800, "thorough": 40000}
RULE = ("a case is one network and one analysis (window, rate, exponential or linear, storage), "
        "run on the events as drawn and on transformed events (renamed, shifted, rescaled, "
        "reordered, endpoints swapped, events split, played backwards); all matrices, integrals "
        "and stabilities are compared through the transformation; distinct by events, analysis "
        "and transformation")
EXPECT = ["laplacians", "interval-walks", "products", "static", "integral", "stability", "times",
          "rename", "shift", "scale", "reorder", "swap", "split", "mirror", "duplicate",
          "exponential", "linear", "sparse-stoch", "instantaneous", "default-rate", "window", "off-grid-window",
          "analysis-object", "analysis-backward", "static-clustering", "weight-scale", "compare",
          "strings", "negative", "floats", "from-table",
          "medium-size"]
ASSUMPTIONS = ["times are multiples of 1/4, shifts and scales are such that the transformed "
               "times are exact"]


class Run:
    """what an analysis reports, by name"""

    def __init__(self, net, win, lam, lin, sparse, rev, p1):
        self.n = net.num_nodes
        net.compute_laplacian_matrices(t_start=win[0], t_stop=win[1])
        self.lap = [dense(x) for x in net.laplacians]
        self.times = np.asarray(net.times, float)
        kw = {} if lam is None else {"lamda": lam}
        if lin:
            net.compute_lin_inter_transition_matrices(t_s=10, use_sparse_stoch=sparse, **kw)
            (key,) = net.inter_T_lin
            seq = net.inter_T_lin[key][10]
            net.compute_lin_transition_matrices(lamda=key, t_s=10, reverse_time=rev)
            T = net.T_lin[key][10]
        else:
            net.compute_inter_transition_matrices(use_sparse_stoch=sparse, **kw)
            (key,) = net.inter_T
            seq = net.inter_T[key]
            net.compute_transition_matrices(lamda=key, reverse_time=rev)
            T = net.T[key]
        self.key = key
        self.inter = [dense(x) for x in seq]
        self.T = dense(T[-1] if isinstance(T, list) else T)
        lo = self.times[0] if win[0] is None else win[0]
        hi = self.times[-1] if win[1] is None else win[1]
        # a boundary between two times of the grid means the earlier one
        lo, hi = (max([v for v in self.times if v <= x], default=self.times[0])
                  for x in (lo, hi))
        grid = [float(v) for v in self.times if lo <= v <= hi]
        if len(grid) != len(seq) + 1:
            grid = None
        fic = nc.FlowIntegralClustering(T_inter_list=list(seq) if sparse else self.inter, p1=p1,
                                        time_list=grid, reverse_time=rev)
        self.I = dense(fic.I_list[0])
        self.static = dense(net.compute_static_adjacency_matrix())


def stab(I, lab):
    return sum(I[np.ix_(lab == c, lab == c)].sum() for c in set(lab.tolist()))


def build(ev, labels=None, table=False, inst=False):
    name = (lambda v: v) if labels is None else (lambda v: labels[v])
    kw = dict(source_nodes=[name(r[0]) for r in ev], target_nodes=[name(r[1]) for r in ev],
              starting_times=[r[2] for r in ev])
    if inst:
        return ContTempInstNetwork(**kw)
    kw["ending_times"] = [r[3] for r in ev]
    if table:
        import pandas as pd
        return ContTempNetwork(events_table=pd.DataFrame(kw), relabel_nodes=True)
    return ContTempNetwork(**kw)


def network_case(rng, ctx, inst):
    ev = gen.sized_events(rng, ctx, long=0.002, nmax=7, emax=14, kinds=["small-int", "quarter", "wide-int"])
    rows, n = ev.rows(), ev.n
    if inst:
        rows = [(a, b, s, s) for a, b, s, _ in rows]
        ctx.feature("instantaneous")
    times = sorted({r[2] for r in rows} | {r[3] for r in rows})
    win, off = [None, None], False
    if rng.random() < 0.6 and len(times) > 2:
        i, j = sorted(int(v) for v in rng.choice(len(times), 2, replace=False))
        win = [times[i], times[j]]
        ctx.feature("window")
        if rng.random() < 0.5:
            off = True
            ctx.feature("off-grid-window")
            side = int(rng.integers(3))
            if side != 1:
                win[0] += (times[i + 1] - times[i]) * [0.25, 0.5, 0.75][int(rng.integers(3))]
            if side != 0 and j + 1 < len(times):
                win[1] += (times[j + 1] - times[j]) * [0.25, 0.5, 0.75][int(rng.integers(3))]
    scale = float(np.median(np.diff(times))) if len(times) > 1 else 1.0
    lam = float(rng.choice([1e-4, 0.2, 1.0, 4.0, 40.0])) / scale
    if rng.random() < 0.25 and not inst:
        lam = None
        ctx.feature("default-rate")
    lin, sparse = bool(rng.random() < 0.35), bool(rng.random() < 0.5)
    ctx.feature("linear" if lin else "exponential")
    if sparse:
        ctx.feature("sparse-stoch")
    rev = bool(rng.random() < 0.4)
    p1 = gen.prob(rng, n) if rng.random() < 0.6 else None
    lab = rng.integers(0, 3, n)
    ref = Run(build(rows, inst=inst), win, lam, lin, sparse, rev, p1)
    ops = ["rename", "shift", "scale", "reorder", "swap", "duplicate"]
    if not inst and not off:
        # splitting and reversal move the ends of the intervals
        ops += ["mirror"] + ([] if lin or lam is None else ["split"])
    for _ in range(int(rng.integers(1, 4))):
        op = str(rng.choice(ops))
        ctx.feature(op)
        ev2, perm = list(rows), np.arange(n)
        kw = dict(win=list(win), lam=lam, lin=lin, sparse=sparse, rev=rev, p1=p1)
        labels, table, tmap = None, False, lambda t: t
        flip = same_intervals = False
        if op == "rename":
            kind = str(rng.choice(["range", "gaps", "negative", "strings", "numeric-strings",
                                   "floats", "tuples"]))
            ctx.feature(kind)
            labels = gen.labels(rng, n, kind)
            if kind == "tuples":
                labels = [labels[i] for i in rng.permutation(n)]
            table = not inst and kind != "tuples" and bool(rng.random() < 0.4)
            if table:
                ctx.feature("from-table")
            order = {v: i for i, v in enumerate(sorted(labels))}
            perm = np.array([order[v] for v in labels])      # new index of node i
        elif op == "shift":
            d = [1000, -1000, 0.25, 2 ** 20, -7, 1_600_000_000, -2 ** 31][int(rng.integers(7))]
            if inst and d == 0.25:
                d = 3
            tmap = lambda t: t + d
        elif op == "scale":
            # units: powers of two keep the times exact
            c = [2, 4, 3600, 0.25, 0.5, 2.0 ** -30, 2.0 ** 30][int(rng.integers(7))]
            if inst:        # the length of an interval is defined as one
                c = 1
            tmap = lambda t: t * c
            if lam is not None:
                kw["lam"] = lam / c
        elif op == "reorder":
            ev2 = [ev2[i] for i in rng.permutation(len(ev2))]
            table = not inst and bool(rng.random() < 0.4)
            if table:
                ctx.feature("from-table")
        elif op == "swap":
            ev2 = [(b, a, s, e) if rng.random() < 0.5 else (a, b, s, e) for a, b, s, e in ev2]
        elif op == "duplicate":
            i = int(rng.integers(len(ev2)))
            ev2.insert(int(rng.integers(len(ev2) + 1)), ev2[i])
        elif op == "split":
            i = int(rng.integers(len(ev2)))
            a, b, s, e = ev2[i]
            m = s + (e - s) / 4 * int(rng.integers(1, 4))
            ev2[i] = (a, b, s, m)
            ev2.insert(int(rng.integers(len(ev2) + 1)), (a, b, m, e))
        elif op == "mirror":
            M = times[0] + times[-1]
            ev2 = [(a, b, M - e, M - s) for a, b, s, e in ev2]
            flip = True
            kw["rev"] = not rev
            kw["win"] = [None if win[1] is None else M - win[1],
                         None if win[0] is None else M - win[0]]
        ev2 = [(a, b, tmap(s), tmap(e)) for a, b, s, e in ev2]
        if op != "mirror":
            kw["win"] = [None if t is None else tmap(t) for t in win]
        if p1 is not None:
            q = np.empty(n)
            q[perm] = p1
            kw["p1"] = q
        got = Run(build(ev2, labels, table, inst), **kw)
        what = f"after {op}" + (f" ({labels})" if labels else "")
        P = np.ix_(perm, perm)
        if op == "split":
            ctx.close(got.T[P], ref.T, "products", f"product {what}", atol=1e-8)
            # the integral over the finer grid is another quadrature
        else:
            s = -1 if flip else 1
            ctx.equal(len(got.inter), len(ref.inter), "interval-walks", f"intervals {what}")
            for k, (g, r) in enumerate(zip(got.lap[::s], ref.lap)):
                ctx.close(g[P], r, "laplacians", f"Laplacian {k} {what}", atol=1e-12)
            for k, (g, r) in enumerate(zip(got.inter[::s], ref.inter)):
                ctx.close(g[P], r, "interval-walks", f"interval matrix {k} {what}", atol=1e-9)
            ctx.close(got.T[P], ref.T, "products", f"product {what}", atol=1e-8)
            ctx.close(got.I[P], ref.I, "integral", f"integral {what}",
                      atol=1e-9 if not sparse else 1e-6 * np.abs(ref.I).max() + 1e-9)
            if flip:
                ctx.close(np.sort(times[0] + times[-1] - got.times), ref.times, "times",
                          f"times {what}")
            else:
                # the closing time of the last instantaneous event is one later
                want = np.array([tmap(t) for t in ref.times])
                ctx.close(got.times, want, "times", f"times {what}")
            lab2 = np.empty(n, int)
            lab2[perm] = lab
            ctx.close(stab(got.I, lab2), stab(ref.I, lab), "stability", f"stability {what}",
                      atol=1e-6)
        if not inst and op != "duplicate":
            f = {"scale": None}.get(op, 1)
            if f is None:
                f = tmap(1.0)
            ctx.close(got.static[P], ref.static * f, "static", f"static adjacency {what}",
                      atol=1e-7 * max(1, f))
    ctx.describe(**ev.desc(), window=win, lamda=lam, linear=lin, sparse=sparse, reverse=rev)
    if len(rows) > 1 and np.abs(ref.T - np.eye(n)).max() > 1e-6:
        ctx.nontrivial(rows, win, lam, lin, sparse, rev, inst, dict(ctx.cover))


def analysis_case(rng, ctx):
    """the analysis object, forward and backward"""
    ctx.feature("analysis-object")
    ev = gen.events(rng, nmax=6, emax=10, kinds=["small-int", "quarter"])
    rows, n = ev.rows(), ev.n
    times = sorted({r[2] for r in rows} | {r[3] for r in rows})
    if len(times) < 3:
        rows = rows + [(0, 1, times[-1], times[-1] + 1)]
        times.append(times[-1] + 1)
    scale = float(np.median(np.diff(times))) * float(rng.choice([0.3, 1, 5]))
    lin = bool(rng.random() < 0.3)

    def run(r, scale, direction, labels=None):
        fs = FlowStability(temporal_network=build(r, labels), time_scale=scale,
                           time_direction=direction)
        fs.compute_laplacian_matrices()
        fs.compute_inter_transition_matrices(linear_approx=lin)
        fs.set_flow_clustering()
        out = []
        for d in (fs.flow_clustering_forward, fs.flow_clustering_backward):
            if d:
                (c,) = d.values()
                out.append(dense(c.I_list[0]))
        return out
    d = int(rng.choice([1, -1, 0]))
    ref = run(rows, scale, d)
    ctx.equal(len(ref), 2 if d == 0 else 1, "integral", "number of integrals")
    if d != 1:
        ctx.feature("analysis-backward")
    tol = dict(atol=1e-6 * max(np.abs(x).max() for x in ref) + 1e-9)
    op = str(rng.choice(["rename", "shift", "scale", "mirror"]))
    ctx.feature(op)
    perm = np.arange(n)
    if op == "rename":
        labels = [str(v) for v in rng.choice(90, n, replace=False)]
        order = {v: i for i, v in enumerate(sorted(labels))}
        perm = np.array([order[v] for v in labels])
        got = run(rows, scale, d, labels)
    elif op == "shift":
        got = run([(a, b, s + 512, e + 512) for a, b, s, e in rows], scale, d)
    elif op == "scale":
        got = run([(a, b, s * 60, e * 60) for a, b, s, e in rows], scale * 60, d)
    else:
        M = times[0] + times[-1]
        got = run([(a, b, M - e, M - s) for a, b, s, e in rows], scale, -d)[::-1 if d == 0 else 1]
    for k, (g, r) in enumerate(zip(got, ref)):
        ctx.close(g[np.ix_(perm, perm)], r, "integral",
                  f"integral {k} of the analysis object, direction {d}, after {op}", **tol)
    ctx.describe(**ev.desc(), direction=d, op=op)
    ctx.nontrivial("analysis", rows, scale, d, op, lin)


def static_case(rng, ctx):
    """partitions and matrices under renaming"""
    n = int(rng.integers(3, 10))
    A = np.triu(rng.random((n, n)) < 0.5, 1) * rng.integers(1, 5, (n, n)).astype(float)
    A = A + A.T
    for i in range(n - 1):
        A[i, i + 1] = A[i + 1, i] = max(A[i, i + 1], 1)
    perm = rng.permutation(n)
    B = np.empty_like(A)
    B[np.ix_(perm, perm)] = A
    cl = gen.partition(rng, n)
    cl2 = [{int(perm[v]) for v in c} for c in cl]
    cl2 = [cl2[i] for i in rng.permutation(len(cl2))]
    sparse = bool(rng.random() < 0.5)
    kw = [dict(t=1.5), dict(t=2, discrete_time_rw=True), dict(t=0.7, linearized=True)][
        int(rng.integers(3))]
    f = gen.csr if sparse else np.array

    def obj(X):
        return nc.static_clustering(f(X), rnd_seed=1, **kw)
    c1 = obj(A)
    ctx.feature("static-clustering")

    def stability(c, cls):
        return type(c)(T=c.T, p1=c.p1, p2=c.p2, cluster_list=[set(x) for x in cls],
                       rnd_seed=1).compute_stability()
    for X, cls, what in ((B, cl2, "renaming"), (A * 64, cl, "weights in other units")):
        c2 = obj(X)
        a, b = stability(c2, cls), stability(c1, cl)
        ctx.close(a, b, "stability", f"stability of {cl} after {what} ({kw})", atol=1e-9)
        ctx.close(np.sort(dense(c2.p1)), np.sort(dense(c1.p1)), "stability",
                  f"stationary probabilities after {what}", atol=1e-9)
    ctx.feature("weight-scale")
    # comparisons of partitions do not depend on node names or cluster order
    ot = gen.partition(rng, n)
    ot2 = [{int(perm[v]) for v in c} for c in ot]
    ot2 = [ot2[i] for i in rng.permutation(len(ot2))]
    ctx.feature("compare")
    ctx.close(nc.norm_var_information(cl2, ot2), nc.norm_var_information(cl, ot), "compare",
              "variation of information after renaming", atol=1e-12)
    if len(cl) + len(ot) > 2:
        ctx.close(nc.norm_mutual_information(cl2, ot2), nc.norm_mutual_information(cl, ot),
                  "compare", "mutual information after renaming", atol=1e-12)
    ctx.close(nc.jaccard_distance(cl2, ot2), nc.jaccard_distance(cl, ot), "compare",
              "Jaccard distance after renaming", atol=1e-12)
    ctx.describe(n=n, clusters=cl, kw=kw)
    ctx.nontrivial("static", A.tobytes(), perm.tolist(), cl, sparse, kw)


def case(rng, ctx):
    u = rng.random()
    if u < 0.6:
        network_case(rng, ctx, False)
    elif u < 0.75:
        network_case(rng, ctx, True)
    elif u < 0.87:
        analysis_case(rng, ctx)
    else:
        static_case(rng, ctx)
