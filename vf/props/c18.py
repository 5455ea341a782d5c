"""C18: networks of instantaneous events walk one step per event time"""
import os

import numpy as np
import pandas as pd

from vf import gen
from vf.core import dense, snap
from vf.net import check_list, times_of

from flowstab.temporal_network import ContTempInstNetwork

CASES = {"quick": 1500, "thorough": 40000}
RULE = ("a case is one list of instantaneous events (ties, repeated and opposite events of one "
        "time, gaps of any size), given as lists or as a table, or saved and loaded, with a "
        "history of windows, rates, exact and linear walks; distinct by events and operations")
EXPECT = ["grid", "laplacian", "adjacency", "window", "expm", "linear", "product", "stochastic",
          "interactions", "second-window", "table", "lists", "loaded", "repeated-event",
          "opposite-event", "tied-times", "unsorted", "caller-untouched", "sparse-stoch",
          "gap-independent", "reverse", "single-time"]
ASSUMPTIONS = ["the last event time is followed by one unit of time",
               "a table gives starting and ending times as the network itself holds them"]


def draw(rng, long=0.):
    n = int(rng.integers(2, 8))
    m = int(rng.integers(max(1, n // 2), 18))
    kind = str(rng.choice(["small-int", "wide-int", "float", "negative"]))
    if rng.random() < long:     # more than a thousand event times
        n, m, kind = int(rng.integers(2, 5)), int(rng.integers(1700, 1800)), "float"
    span = {"small-int": lambda k: [int(v) for v in rng.integers(0, 6, k)],
            "wide-int": lambda k: [int(v) for v in rng.integers(0, 5000, k)],
            "float": lambda k: [float(v) for v in rng.random(k) * 20],
            "negative": lambda k: [float(v) / 2 for v in rng.integers(-10, 8, k)]}[kind]
    rows = []
    for t in span(m):
        u = rng.random()
        if rows and u < 0.1:
            rows.append(rows[int(rng.integers(len(rows)))])
        elif rows and u < 0.2:
            a, b, t = rows[int(rng.integers(len(rows)))]
            rows.append((b, a, t))
        elif rows and u < 0.4:
            a, b = (int(v) for v in rng.choice(n, 2, replace=False))
            rows.append((a, b, rows[int(rng.integers(len(rows)))][2]))
        else:
            a, b = (int(v) for v in rng.choice(n, 2, replace=False))
            rows.append((a, b, t))
    if rng.random() < 0.05:
        rows = [(a, b, rows[0][2]) for a, b, _ in rows]
    for v in range(n):
        if not any(v in r[:2] for r in rows):
            rows.append((v, (v + 1) % n, rows[int(rng.integers(len(rows)))][2]))
    if rng.random() < 0.5:
        rows.sort(key=lambda r: r[2])
    return n, rows, kind


def features(ctx, rows):
    if rows != sorted(rows, key=lambda r: r[2]):
        ctx.feature("unsorted")
    if len(set(rows)) < len(rows):
        ctx.feature("repeated-event")
    s = set(rows)
    if any((b, a, t) in s for a, b, t in rows):
        ctx.feature("opposite-event")
    if len({r[2] for r in rows}) < len(rows):
        ctx.feature("tied-times")
    if len({r[2] for r in rows}) == 1:
        ctx.feature("single-time")


def construct(rng, ctx, rows, n, names):
    d = dict(source_nodes=[names[r[0]] for r in rows], target_nodes=[names[r[1]] for r in rows],
             starting_times=[r[2] for r in rows])
    was = snap(d)
    net = ContTempInstNetwork(**d)
    ctx.equal(snap(d), was, "caller-untouched", "given lists")
    u = rng.random()
    if u < 0.6:
        ctx.feature("lists")
        return net
    if u < 0.8:
        ctx.feature("table")
        df = net.events_table.copy()
        l = net.node_to_label_dict
        for c in ("source_nodes", "target_nodes"):
            df[c] = [l[v] for v in df[c]]
        if rng.random() < 0.5:
            df = df.sample(frac=1, random_state=int(rng.integers(1000)))
        was = snap(df)
        other = ContTempInstNetwork(events_table=df)
        ctx.equal(snap(df), was, "caller-untouched", "given table")
        return other
    ctx.feature("loaded")
    f = os.path.join(ctx.scratch, "net")
    if rng.random() < 0.5:
        net.compute_laplacian_matrices()
    net.save(f)
    other = ContTempInstNetwork.load(f)
    other.label_to_node_dict = {l: k for k, l in other.node_to_label_dict.items()}
    return other


def case(rng, ctx):
    n, rows, kind = draw(rng, 0.003)
    if len(rows) > 1000:
        ctx.feature("long")
    features(ctx, rows)
    names = gen.labels(rng, n, str(rng.choice(["range", "gaps", "strings"])))
    net = construct(rng, ctx, rows, n, names)
    num = {l: k for k, l in net.node_to_label_dict.items()}
    rows_n = [(num[names[a]], num[names[b]], t) for a, b, t in rows]
    ctx.describe(nodes=n, events=len(rows), time_kind=kind, first_rows=rows[:10])
    got = sorted((int(a), int(b), float(t)) for a, b, t in net.events_table[
        ["source_nodes", "target_nodes", "starting_times"]].itertuples(index=False))
    ctx.equal(got, sorted((a, b, float(t)) for a, b, t in rows_n), "interactions", "events held")
    m = gen.InstModel(rows_n, n)
    graphs, ops = set(), []
    for step in range(int(rng.integers(1, 4))):
        t0, t1 = gen.draw_window(rng, m.times) if rng.random() < 0.6 else (None, None)
        save = bool(rng.random() < 0.5)
        net.compute_laplacian_matrices(t_start=t0, t_stop=t1, save_adjacencies=save)
        if step:
            ctx.feature("second-window")
        k0, k1 = m.window(t0, t1)
        ops.append((t0, t1))
        ctx.equal(times_of(net), m.times, "grid", "event times")
        want = [m.adjacency(k) for k in range(k0, k1)]
        check_list(ctx, net.laplacians, [gen.walk_laplacian(A) for A in want], "laplacian",
                   f"Laplacian of {t0}..{t1}, time", atol=1e-12)
        ctx.equal(len(net.laplacians), max(0, k1 - k0), "window", "number of Laplacians")
        if save:
            check_list(ctx, net.adjacencies, want, "adjacency", "adjacency", atol=0)
        graphs.update(A.tobytes() for A in want)
        if k1 <= k0:
            continue
        for _ in range(int(rng.integers(0, 3))):
            lam = float(rng.choice([1e-5, 0.05, 0.4, 1.0, 2.0, 7.0, 60.0]))
            ss = bool(rng.random() < 0.4)
            if ss:
                ctx.feature("sparse-stoch")
            rev = bool(rng.random() < 0.3)
            if rng.random() < 0.6:
                if hasattr(net, "inter_T") and lam in net.inter_T:
                    continue
                net.compute_inter_transition_matrices(lamda=lam, use_sparse_stoch=ss,
                                                      dense_expm=bool(rng.random() < 0.6))
                ref = m.inter_T(lam, k0, k1, fix_tau=True)
                check_list(ctx, net.inter_T[lam], ref, "expm", f"walk at rate {lam}, time",
                           atol=2e-8)
                seq = net.inter_T[lam]
                net.compute_transition_matrices(lamda=lam, save_intermediate=True,
                                                reverse_time=rev)
                prods = net.T[lam]
            else:
                ts = float(rng.choice([1.5, 3.0, 10.0]))
                if hasattr(net, "inter_T_lin") and lam in net.inter_T_lin:
                    continue
                net.compute_lin_inter_transition_matrices(lamda=lam, t_s=ts, use_sparse_stoch=ss)
                ref = m.inter_T_lin(lam, ts, k0, k1, fix_tau=True)
                seq = net.inter_T_lin[lam][ts]
                check_list(ctx, seq, ref, "linear", f"linear walk at rate {lam}, t_s {ts}, time")
                net.compute_lin_transition_matrices(lamda=lam, t_s=ts, save_intermediate=True,
                                                    reverse_time=rev)
                prods = net.T_lin[lam][ts]
            for T in seq:
                ctx.close(dense(T).sum(1), np.ones(n), "stochastic", "row sums", atol=1e-8)
            order = ref[::-1] if rev else ref
            acc = [order[0]]
            for M in order[1:]:
                acc.append(acc[-1] @ M)
            if rev:
                ctx.feature("reverse")
            check_list(ctx, prods, acc, "product", f"product at rate {lam}, reverse {rev}",
                       atol=1e-7)
    # stretching the gaps between the event times leaves the walk as it is
    if rng.random() < 0.25:
        ut = sorted({r[2] for r in rows})
        new = dict(zip(ut, np.cumsum(rng.integers(1, 50, len(ut))).tolist()))
        other = ContTempInstNetwork(source_nodes=[r[0] for r in rows_n],
                                    target_nodes=[r[1] for r in rows_n],
                                    starting_times=[new[r[2]] for r in rows])
        other.compute_inter_transition_matrices(lamda=0.8)
        check_list(ctx, other.inter_T[0.8], m.inter_T(0.8, 0, len(ut), fix_tau=True),
                   "gap-independent", "walk with other gaps, time", atol=2e-8)
    if len(graphs) > 1:
        ctx.nontrivial(rows, ops)
