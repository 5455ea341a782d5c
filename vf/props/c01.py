"""C01: the Laplacian of every interval describes exactly the ongoing events"""
import numpy as np
import scipy.sparse as sp

from vf import gen
from vf.core import dense, snap
from vf.net import build, check_list, times_of

CASES = {"quick": 700, "thorough": 20000}
RULE = ("a case is one drawn event list with a history of Laplacian computations over "
        "drawn windows on the same object; non-trivial when at least two different "
        "interval graphs occur; distinct by events and windows")
EXPECT = ["laplacian", "adjacency", "window", "grid", "row-sum", "second-window",
          "overlapping-pair", "opposite-overlap", "inside-window-start", "many-nodes",
          "next-to-event-time"]
ASSUMPTIONS = ["events have positive duration and two distinct nodes",
               "node labels are sortable"]


def many(rng, ctx):
    """more nodes than one or two bytes count, few times"""
    n = int(rng.choice([300, 700]))
    if ctx.tier == "thorough" and rng.random() < 0.05:
        n = 34000
    ev = gen.crowd(rng, n)
    ctx.feature("many-nodes")
    ctx.describe(**ev.desc())
    net = build(ev)
    rows = ev.rows()
    times = sorted({t for r in rows for t in r[2:4]})
    k0, k1 = 0, len(times) - 1
    kw = {}
    if rng.random() < 0.5:
        k0, k1 = sorted(int(v) for v in rng.integers(0, len(times), 2))
        kw = dict(t_start=times[k0], t_stop=times[k1])
    net.compute_laplacian_matrices(save_adjacencies=True, **kw)
    ctx.equal(times_of(net), times, "grid", "event times")
    ctx.equal(len(net.laplacians), max(0, k1 - k0), "laplacian", "number of Laplacians")
    for k in range(k0, k1):
        L, A = gen.sparse_laplacian(rows, ev.n, times[k])
        for got, want, mon in ((net.laplacians[k - k0], L, "laplacian"),
                               (net.adjacencies[k - k0], A, "adjacency")):
            got = sp.csr_matrix(got)
            ctx.check(got.shape == want.shape and not abs(got - want).max() > 1e-12, mon,
                      f"{mon} of interval {k} of a network of {ev.n} nodes")
    ctx.nontrivial(ev.n, rows[:20], kw)


def case(rng, ctx):
    if rng.random() < 0.02:
        return many(rng, ctx)
    if rng.random() < 0.03:
        ev = gen.big_events(rng, 40, 160)
        ctx.feature("big")
    elif rng.random() < 0.008:
        ev = gen.long_events(rng)
        ctx.feature("long")
    else:
        ev = gen.events(rng)
    merge = bool(rng.random() < 0.15)
    m = gen.Model(gen.merged(ev.rows()) if merge else ev.rows(), ev.n)
    net = build(ev, merge_overlapping_events=merge)
    ctx.describe(**ev.desc())
    rows = ev.rows()
    for i, (a, b, s, e) in enumerate(rows):
        for (c, d, s2, e2) in rows[:i]:
            if {a, b} == {c, d} and s < e2 and s2 < e:
                ctx.feature("overlapping-pair" if (a, b) == (c, d) else "opposite-overlap")
    windows = [gen.draw_window(rng, m.times) for _ in range(int(rng.integers(1, 4)))]
    if rng.random() < 0.5:
        windows[0] = (None, None)
    if rng.random() < 0.2:
        # just before or after an event time is not that time
        w = int(rng.integers(len(windows)))
        windows[w] = tuple(None if t is None else
                           float(np.nextafter(float(t), float(rng.choice([-np.inf, np.inf]))))
                           for t in windows[w])
        ctx.feature("next-to-event-time")
    graphs = set()
    for w, (t0, t1) in enumerate(windows):
        save_adj = bool(rng.random() < 0.6)
        kw = {}
        if t0 is not None or rng.random() < 0.5:
            kw["t_start"] = t0
        if t1 is not None or rng.random() < 0.5:
            kw["t_stop"] = t1
        net.compute_laplacian_matrices(save_adjacencies=save_adj, **kw)
        if w:
            ctx.feature("second-window")
        k0, k1 = m.window(t0, t1)
        ctx.equal(times_of(net), m.times, "grid", "event times")
        if hasattr(net, "_k_start_laplacians") and hasattr(net, "_t_start_laplacians"):
            ctx.equal((net._k_start_laplacians, net._k_stop_laplacians), (k0, k1), "window",
                      f"indices of the window {t0}..{t1}")
            ctx.equal((net._t_start_laplacians, net._t_stop_laplacians),
                      (m.times[k0], m.times[k1]), "window", f"times of the window {t0}..{t1}")
        want = [m.adjacency(k) for k in range(k0, k1)]
        if k0 > 0 and want and m.adjacency(k0 - 1).any():
            ctx.feature("inside-window-start")
        check_list(ctx, net.laplacians, [gen.walk_laplacian(A) for A in want],
                   "laplacian", f"Laplacian of window {t0}..{t1}, interval", atol=1e-12)
        for k, L in enumerate(net.laplacians):
            L = dense(L)
            ctx.close(L.sum(1), np.zeros(ev.n), "row-sum", f"row sums of Laplacian {k}",
                      atol=1e-12)
            graphs.add(want[k].tobytes())
        if save_adj:
            check_list(ctx, net.adjacencies, want, "adjacency",
                       f"adjacency matrix of window {t0}..{t1}, interval", atol=0)
    if len(graphs) > 1:
        ctx.nontrivial(rows, windows)
