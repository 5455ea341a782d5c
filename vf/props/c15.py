"""C15: analysis results belong to the current settings"""
import numpy as np

from vf import gen
from vf.core import Skip, dense, snap
from vf.net import build, check_list

from flowstab.flow_stability import FlowStability, States
from flowstab.temporal_network import ContTempNetwork

CASES = {"quick": 1300, "thorough": 30000}
RULE = ("a case is one analysis object taken through one to four completed runs with settings "
        "changed in between (network, window, time scales, direction, linear or exact, grid, "
        "initial distribution), restarting at the earliest or at any earlier step; after each run "
        "every result is recomputed densely from the raw events; distinct by events and settings")
EXPECT = ["laplacians", "interval-matrices", "integrals", "integral-count", "partition",
          "stability", "never-worse", "forward", "backward", "both", "changed-network",
          "changed-window", "changed-scale", "changed-direction", "several-scales", "linear",
          "exact", "grid", "p1", "used-network", "second-run", "seed-reproducible",
          "redone-from-earlier", "sparse", "labels", "default-scale",
          "medium-size", "no-old-results"]
ASSUMPTIONS = ["windows contain at least one interval", "one time scale uses one kind of matrix "
               "(exact, or one stationarity time) per run of the Laplacians"]


def integrals(inter, times, pv, reverse, grid):
    K = len(inter)
    n = len(pv)
    order = times[::-1] if reverse else times
    seq = inter[::-1] if reverse else inter
    prods = [seq[0]]
    for M in seq[1:]:
        prods.append(prods[-1] @ M)
    dts = np.abs(np.diff(order))
    if grid is None:
        ks = {K}
    else:
        ks = set()
        for t in grid:
            c = [k for k in range(K + 1) if (order[k] >= t if reverse else order[k] <= t)]
            ks.add(max(c) if c else 0)
    ks = sorted(k for k in ks if k > 0)
    res = []
    for k in ks:
        acc = np.zeros((n, n))
        for T, dt in zip(prods[:k], dts[:k]):
            pt = pv @ T
            inv = np.divide(1, pt, out=np.ones(n), where=pt != 0)
            acc += dt * (T * inv) @ T.T
        res.append(np.outer(pv, pv) * acc / dts[:k].sum() - np.outer(pv, pv))
    return res


def new_network(rng, ctx):
    while True:
        ev = gen.sized_events(rng, ctx, long=0.004, nmax=7, emax=14)
        m = gen.Model(ev.rows(), ev.n)
        if len(m.times) >= 2:
            break
    if rng.random() < 0.3:
        lab = gen.labels(rng, ev.n, "strings")
        srt = sorted(lab)
        ctx.feature("labels")
        # node numbers follow the sorted labels
        given = dict(source_nodes=[lab[v] for v in ev.src], target_nodes=[lab[v] for v in ev.dst],
                     starting_times=list(ev.start), ending_times=list(ev.end))
        num = [srt.index(x) for x in lab]
        rows = [(num[a], num[b], s, e) for a, b, s, e in ev.rows()]
        m = gen.Model(rows, ev.n)
    else:
        given = ev.lists()
    return given, m


def used_network(rng, ctx, given, m):
    """a network on which other things were computed before"""
    net = ContTempNetwork(**given)
    ctx.feature("used-network")
    t0, t1 = gen.draw_window(rng, m.times)
    net.compute_laplacian_matrices(t_start=t0, t_stop=t1)
    sc = float(np.median(np.diff(m.times)))
    for f in (1.0, 2.0):
        net.compute_inter_transition_matrices(lamda=1 / (sc * f))
        net.compute_lin_inter_transition_matrices(lamda=1 / (sc * f))
    net.compute_transition_matrices(lamda=1 / sc)
    return net


def draw_window(rng, m):
    for _ in range(30):
        t0, t1 = gen.draw_window(rng, m.times)
        k0, k1 = m.window(t0, t1)
        if k1 > k0:
            return t0, t1, k0, k1
    return None, None, 0, len(m.times) - 1


def case(rng, ctx):
    given, m = new_network(rng, ctx)
    fs = FlowStability()
    scale = float(np.median(np.diff(m.times)))
    key = []
    cfg = {}
    done = None          # state reached with the current settings
    for run in range(int(rng.integers(1, 5))):
        first = run == 0
        if run:
            ctx.feature("second-run")
        if first or rng.random() < 0.25:
            if not first:
                given, m = new_network(rng, ctx)
                scale = float(np.median(np.diff(m.times)))
                ctx.feature("changed-network")
            v = rng.random()
            if v < 0.4:
                fs.set_temporal_network(**given)
            elif v < 0.7:
                fs.temporal_network = ContTempNetwork(**given)
            else:
                fs.temporal_network = used_network(rng, ctx, given, m)
            cfg["window"] = None
            cfg["scales"] = None
        if cfg.get("window") is None or rng.random() < 0.4:
            if not first:
                ctx.feature("changed-window")
            t0, t1, k0, k1 = draw_window(rng, m)
            if rng.random() < 0.5:
                fs.t_start, fs.t_stop = t0, t1
            else:
                fs.t_stop = t1
                fs.t_start = t0
            cfg["window"] = (k0, k1)
        if cfg.get("scales") is None or rng.random() < 0.4:
            if not first:
                ctx.feature("changed-scale")
            k = int(rng.integers(1, 4))
            sc = [float(x) * scale for x in rng.choice([0.02, 0.3, 1.0, 2.0, 7.0, 1e4], k, replace=False)]
            if k > 1:
                ctx.feature("several-scales")
                if rng.random() < 0.15:         # the default among the scales
                    sc[int(rng.integers(k))] = None
                    ctx.feature("default-scale")
                fs.time_scale = list(sc)
            else:
                fs.time_scale = sc[0]
            cfg["scales"] = sc
        if first or rng.random() < 0.4:
            if not first:
                ctx.feature("changed-direction")
            cfg["dir"] = int(rng.integers(-1, 2))
            fs.time_direction = cfg["dir"]
        ctx.feature({1: "forward", -1: "backward", 0: "both"}[cfg["dir"]])
        k0, k1 = cfg["window"]
        n = m.n
        # where to start: anywhere the state allows
        st = fs.state.current.value
        opts = list(range(1, min(st, 4) + 1))
        st0 = int(rng.choice(opts)) if rng.random() < 0.5 else opts[-1]
        if st0 < opts[-1]:
            ctx.feature("redone-from-earlier")
        steps = []
        if st0 <= 1:
            cfg["old"] = cfg.get("old", []) + [
                F for d in (fs.flow_clustering_forward, fs.flow_clustering_backward)
                for F in d.values()]
            fs.compute_laplacian_matrices()
            steps.append("L")
            cfg["lin"] = None if rng.random() < 0.7 else [2, 10, 2.5][int(rng.integers(3))]
            cfg["sparse"] = bool(rng.random() < 0.4)
        if st0 <= 2:
            kw = {"use_sparse_stoch": True} if cfg["sparse"] else {}
            if cfg["lin"] is not None:
                kw["linear_approx"] = True
                if cfg["lin"] != 10 or rng.random() < 0.5:
                    kw["t_s"] = cfg["lin"]
                ctx.feature("linear")
            else:
                ctx.feature("exact")
            if cfg["sparse"]:
                ctx.feature("sparse")
            fs.compute_inter_transition_matrices(**kw)
            steps.append("I")
        if st0 <= 3:
            kw = {}
            cfg["p1"] = None
            cfg["grid"] = None
            if rng.random() < 0.4:
                cfg["p1"] = kw["p1"] = gen.prob(rng, n)
                ctx.feature("p1")
            if rng.random() < 0.4 and k1 - k0 >= 2:
                a, b = m.times[k0], m.times[k1]
                mid = m.times[int(rng.integers(k0 + 1, k1))]
                cfg["grid"] = kw["integral_time_grid"] = [a, mid, b]
                ctx.feature("grid")
            fs.set_flow_clustering(**kw)
            steps.append("C")
        seed = int(rng.integers(1 << 30))
        fs.find_louvain_clustering(rnd_seed=seed)
        ctx.equal(fs.state.current, States.FINAL, "partition", f"state after {steps}")
        for name in ("forward", "backward"):
            for ts, F in getattr(fs, "flow_clustering_" + name).items():
                ctx.check(not any(F is o for o in cfg["old"]), "no-old-results", f"{name} result at time scale {ts} "
                          "is that of an earlier network or window")
        judge(rng, ctx, fs, m, cfg, seed if "C" in steps else None, f"run {run} steps {steps} "
              f"settings {cfg}")
        key.append((cfg["window"], tuple(cfg["scales"]), cfg["dir"], cfg["lin"]))
    ctx.describe(nodes=m.n, events=len(m.rows), runs=[str(k) for k in key])
    ctx.nontrivial(m.rows, key)


def judge(rng, ctx, fs, m, cfg, seed, what):
    net = fs.temporal_network
    k0, k1 = cfg["window"]
    n = m.n
    check_list(ctx, net.laplacians, [m.laplacian(k) for k in range(k0, k1)], "laplacians",
               f"Laplacians of {what}")
    times = np.array(m.times[k0:k1 + 1])
    pv = np.full(n, 1 / n) if cfg["p1"] is None else cfg["p1"]
    for ts in cfg["scales"]:
        lam = 1 / ts if ts is not None else m.default_lamda()

        def of_rate(d):
            near = [q for q in d if abs(q - lam) <= 1e-12 * lam]
            ctx.check(len(near) >= 1, "interval-matrices", f"nothing for rate {lam} of {what}")
            return d[lam] if lam in d else d[near[0]]
        if cfg["lin"] is None:
            inter = m.inter_T(lam, k0, k1)
            got = of_rate(net.inter_T)
        else:
            inter = m.inter_T_lin(lam, cfg["lin"], k0, k1)
            got = of_rate(net.inter_T_lin)[cfg["lin"]]
        check_list(ctx, got, inter, "interval-matrices", f"interval matrices of {what}", atol=1e-8)
        for name, on in (("forward", cfg["dir"] >= 0), ("backward", cfg["dir"] <= 0)):
            if not on:
                continue
            F = getattr(fs, "flow_clustering_" + name)[ts]
            want = integrals(inter, times, pv, name == "backward", cfg["grid"])
            ctx.equal(len(F.I_list), len(want), "integral-count", f"{name} {what}")
            for i, (g, w) in enumerate(zip(F.I_list, want)):
                ctx.close(g, w, "integrals", f"{name} integral {i} at time scale {ts} of {what}",
                          atol=1e-9, rtol=1e-7)
            S = want[0]
            cl = [sorted(int(v) for v in c) for c in F.partition[0].cluster_list]
            ctx.equal(sorted(v for c in cl for v in c), list(range(n)), "partition",
                      f"nodes of {cl}")
            stab = sum(S[np.ix_(c, c)].sum() for c in cl)
            ctx.close(F.clustering[0].compute_stability(), stab, "stability", f"{name} {what}",
                      atol=1e-9)
            if np.abs(S).max() > 1e-4 * pv.max() ** 2:
                ctx.check(stab >= np.trace(S) - 1e-9, "never-worse", f"{name} {what}: {stab} < "
                          f"{np.trace(S)}")
            if seed is not None and rng.random() < 0.2:
                from flowstab.network_clustering import FlowIntegralClustering
                cold = FlowIntegralClustering(T_inter_list=[dense(T) for T in got],
                                              time_list=times, p1=cfg["p1"],
                                              integral_time_grid=cfg["grid"],
                                              reverse_time=name == "backward")
                cold.find_louvain_clustering(rnd_seed=seed)
                ctx.equal(sorted(sorted(int(v) for v in c)
                                 for c in cold.partition[0].cluster_list), sorted(cl),
                          "seed-reproducible", f"{name} {what}")
