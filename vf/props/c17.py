"""C17: networks hold exactly the given interactions, however they are given"""
import os
from collections import Counter
from pathlib import Path

import numpy as np
import pandas as pd
import scipy.sparse as sp

from vf import gen
from vf.core import dense, snap
from vf.net import check_list, times_of

from flowstab.temporal_network import ContTempNetwork

CASES = {"quick": 1500, "thorough": 60000}
RULE = ("a case is one labelled event list given in two input forms (lists, arrays, table with "
        "any column order, row order and index, CSV file), with or without relabelling, extra "
        "attributes and merging; distinct by events, labels and forms")
EXPECT = ["interactions", "label-maps", "caller-untouched", "metadata", "sorted", "extras",
          "merged-activity", "no-overlap-left", "static-graph", "static-window", "forms-agree",
          "laplacian", "form-lists", "form-arrays", "form-table", "form-csv", "kept-labels",
          "rejects", "labels-tuples", "labels-strings", "index-repeated", "index-named",
          "index-gaps", "index-strings", "from-other-network", "merged-something", "many-nodes",
          "medium-size"]
ASSUMPTIONS = ["events have positive duration and two distinct nodes", "labels are sortable",
               "without relabelling nodes are numbered from 0 without gaps"]

COLS = ["source_nodes", "target_nodes", "starting_times", "ending_times"]


def plain(v):
    return v.item() if isinstance(v, np.generic) else v


def interactions(net, names, extra):
    cols = COLS + ([extra] if extra else [])
    res = Counter()
    for row in net.events_table[cols].itertuples(index=False):
        row = [plain(v) for v in row]
        res[(names[row[0]], names[row[1]], *row[2:])] += 1
    return res


def active(rows, pair, t):
    return any(frozenset((a, b)) == pair and s <= t < e for a, b, s, e in rows)


def give(rng, ctx, rows, form, extra, values):
    """keyword arguments, and everything the caller must find unchanged"""
    data = {c: [r[i] for r in rows] for i, c in enumerate(COLS)}
    if form == "lists":
        kw = dict(data)
        if extra:
            kw["extra_attrs"] = {extra: list(values)}
    elif form == "arrays":
        kw = {}
        for c, v in data.items():
            if v and isinstance(v[0], (tuple, str)):
                kw[c] = v
            else:
                kw[c] = np.array(v) if rng.random() < 0.7 else tuple(v)
        if extra:
            kw["extra_attrs"] = {extra: np.array(values)}
    else:
        if extra:
            data[extra] = list(values)
        cols = list(data)
        rng.shuffle(cols)
        df = pd.DataFrame({c: data[c] for c in cols})
        if form == "csv":
            path = os.path.join(ctx.scratch, "events.csv")
            sep = str(rng.choice([",", ";", "\t"]))
            df.to_csv(path, index=False, sep=sep)
            kw = {"events_table": path if rng.random() < 0.5 else Path(path),
                  "float_precision": "round_trip"}
            if sep != ",":
                kw["sep"] = sep
            ctx.feature("csv-sep" if sep != "," else "csv-plain")
        else:
            kind = str(rng.choice(["default", "gaps", "strings", "repeated", "named"]))
            m = len(df)
            if kind == "gaps":
                df.index = rng.permutation(3 * m)[:m]
            elif kind == "strings":
                df.index = [f"ev{i}" for i in range(m)]
            elif kind == "repeated":
                df.index = rng.integers(0, max(1, m // 2), m)
            elif kind == "named":
                df.index = pd.Index(rng.permutation(m), name="event")
            ctx.feature(f"index-{kind}")
            kw = {"events_table": df}
    ctx.feature(f"form-{form}")
    return kw


def rejects(rng, ctx):
    ev = gen.events(rng, nmax=5, emax=6)
    d = ev.lists()
    u = int(rng.integers(0, 5))
    if u == 0:
        d[str(rng.choice(COLS))].pop()
        ctx.raises((AssertionError, ValueError), "rejects", "lists of different lengths",
                   lambda: ContTempNetwork(**d))
    elif u == 1:
        ctx.raises((ValueError,), "rejects", "missing file",
                   lambda: ContTempNetwork(events_table=os.path.join(ctx.scratch, "none.csv")))
    elif u == 2:
        p = os.path.join(ctx.scratch, "empty.csv")
        open(p, "w").close()
        ctx.raises((ValueError,), "rejects", "empty file",
                   lambda: ContTempNetwork(events_table=p))
    elif u == 3:
        ctx.raises((ValueError,), "rejects", "events_table of another type",
                   lambda: ContTempNetwork(events_table=[[0, 1, 0, 1]]))
    else:
        ctx.raises((AssertionError, ValueError), "rejects", "attribute of another length",
                   lambda: ContTempNetwork(**d, extra_attrs={"w": [1] * (len(ev) + 1)}))
    ctx.describe(kind="rejected input", variant=u)
    ctx.nontrivial("rejects", u, len(ev))


def examine(ctx, net, rows, labels, names_of, extra, values, merge, form, relabel):
    """judge one network against the given labelled events"""
    n = len(labels)
    ctx.equal(net.num_nodes, n, "metadata", "number of nodes")
    ctx.equal(sorted(net.node_array.tolist()), list(range(n)), "metadata", "node numbers")
    if relabel:
        n2l, l2n = net.node_to_label_dict, net.label_to_node_dict
        ctx.equal(set(n2l), set(range(n)), "label-maps", "numbers with a label")
        ctx.equal(set(n2l.values()), set(labels), "label-maps", "labels of the numbers")
        ctx.equal({l: k for k, l in n2l.items()}, dict(l2n), "label-maps", "inverse map")
        names = n2l
    else:
        names = names_of
    given = Counter((*r, *([v] if extra else [])) for r, v in zip(rows, values))
    if not merge:
        ctx.equal(interactions(net, names, extra), given, "interactions",
                  f"interactions held ({form})")
        if extra:
            ctx.feature("extras")
        kept = rows
    else:
        got = interactions(net, names, None)
        kept = list(got.elements())
        times = sorted({t for r in rows for t in r[2:4]})
        pairs = {frozenset(r[:2]) for r in rows}
        ctx.equal({frozenset(r[:2]) for r in kept}, pairs, "merged-activity", "pairs kept")
        for p in pairs:
            want = [active(rows, p, t) for t in times]
            ctx.equal([active(kept, p, t) for t in times], want, "merged-activity",
                      f"activity of {set(p)} at {times} ({form})")
            mine = sorted(r[2:4] for r in kept if frozenset(r[:2]) == p)
            for (s1, e1), (s2, e2) in zip(mine, mine[1:]):
                ctx.check(s2 >= e1, "no-overlap-left", f"events of {set(p)} overlap: {mine}")
        ctx.check(set(t for r in kept for t in r[2:4]) <= set(times), "merged-activity",
                  "merging made up times")
        if len(kept) < len(rows):
            ctx.feature("merged-something")
    tab = net.events_table
    ctx.equal(net.num_events, len(kept), "metadata", "number of events")
    ctx.equal(len(tab), len(kept), "metadata", "rows of the table")
    ctx.equal(plain(net.start_time), min(r[2] for r in rows), "metadata", "start time")
    ctx.equal(plain(net.end_time), max(r[3] for r in rows), "metadata", "end time")
    ctx.close((tab.ending_times - tab.starting_times).to_numpy(float),
              tab.durations.to_numpy(float), "metadata", "durations", atol=1e-12)
    if form in ("lists", "arrays"):
        st = tab.starting_times.tolist()
        ctx.equal(st, sorted(st), "sorted", "starting times")
    return names


def contact(rows, names, n, t0, t1):
    num = {l: k for k, l in names.items()}
    A = np.zeros((n, n))
    for a, b, s, e in rows:
        d = min(e, t1) - max(s, t0)
        if d > 0:
            A[num[a], num[b]] += d
            A[num[b], num[a]] += d
    return A


def many(rng, ctx):
    """more nodes and events than one or two bytes count"""
    n = int(rng.choice([300, 1500, 40000, 70000]))
    ev = gen.crowd(rng, n)
    ctx.feature("many-nodes")
    kind = str(rng.choice(["range", "gaps", "strings"]))
    lab = np.arange(n) if kind == "range" else rng.choice(50 * n, n, replace=False)
    lab = [f"n{v}" for v in lab.tolist()] if kind == "strings" else lab.tolist()
    rows = [(lab[a], lab[b], s, e) for a, b, s, e in ev.rows()]
    values = [int(v) for v in rng.integers(0, 10 ** 6, len(rows))]
    form = str(rng.choice(["lists", "arrays", "table", "csv"]))
    merge = n == 300 and bool(rng.random() < 0.5)
    ctx.describe(**ev.desc(), labels=kind, forms=[form], merge=merge)
    net = ContTempNetwork(**give(rng, ctx, rows, form, "weight", values),
                          **({"merge_overlapping_events": True} if merge else {}))
    if merge:
        # (the reference of examine is too slow here)
        names = net.node_to_label_dict
        got = Counter((frozenset(r[:2]), *r[2:]) for r in
                      interactions(net, names, None).elements())
        num = {l: i for i, l in enumerate(lab)}
        want = Counter((frozenset((lab[a], lab[b])), s, e) for a, b, s, e in
                       gen.merged([(num[a], num[b], s, e) for a, b, s, e in rows]))
        ctx.equal(got, want, "merged-activity", "interactions held after merging")
        return ctx.nontrivial(rows[:20], form, kind)
    names = examine(ctx, net, rows, lab, None, "weight", values, False, form, True)
    num = {l: k for k, l in names.items()}
    r = np.array([num[x[0]] for x in rows])
    c = np.array([num[x[1]] for x in rows])
    t1 = int(rng.integers(2, 8))
    d = np.array([max(0, min(x[3], t1) - max(x[2], 1)) for x in rows], float)
    W = sp.csr_matrix((np.concatenate([d, d]), (np.concatenate([r, c]),
                                                np.concatenate([c, r]))), shape=(n, n))
    A = sp.csr_matrix(net.compute_static_adjacency_matrix(start_time=1, end_time=t1))
    ctx.check(A.shape == (n, n) and not abs(A - W).max() > 1e-9, "static-graph",
              f"contact times in 1..{t1} of {n} nodes")
    ctx.nontrivial(rows[:20], form, kind)


def case(rng, ctx):
    if rng.random() < 0.01:
        return many(rng, ctx)
    if rng.random() < 0.04:
        return rejects(rng, ctx)
    ev = gen.sized_events(rng, ctx, long=0.004, nmax=7, emax=16)
    relabel = bool(rng.random() < 0.8)
    merge = bool(rng.random() < 0.3)
    kind = str(rng.choice(gen.LABELS)) if relabel else "range"
    labels = gen.labels(rng, ev.n, kind) if relabel else list(range(ev.n))
    ctx.feature(f"labels-{kind}")
    rows = [(labels[a], labels[b], s, e) for a, b, s, e in ev.rows()]
    extra = "weight" if rng.random() < 0.35 else None
    values = [int(v) for v in rng.integers(0, 1000, len(rows))]
    forms = ["lists", "arrays", "table"]
    if kind not in ("tuples", "numeric-strings"):
        forms.append("csv")
    forms = [str(f) for f in rng.choice(forms, 2, replace=False)]
    ctx.describe(**ev.desc(), labels=kind, forms=forms, merge=merge, extra=bool(extra))
    stat = []
    t0, t1 = gen.draw_window(rng, sorted({t for r in rows for t in r[2:4]}))
    if t0 is not None and t1 is not None and t0 > t1:
        t0, t1 = t1, t0
    for form in forms:
        kw = give(rng, ctx, rows, form, extra, values)
        if merge:
            kw["merge_overlapping_events"] = True
        names_of = {i: l for i, l in enumerate(labels)}
        own = {i: f"n{i}" for i in range(ev.n)}
        if not relabel:
            kw["relabel_nodes"] = False
            kw["node_to_label_dict"] = own
            ctx.feature("kept-labels")
        before = snap({k: v for k, v in kw.items()})
        net = ctx.no_raise("construction", f"network from {form}", ContTempNetwork, **kw)
        ctx.equal(snap(kw), before, "caller-untouched", f"arguments ({form})")
        if not relabel:
            ctx.equal(net.node_to_label_dict, own, "label-maps", "given labels")
        names = examine(ctx, net, rows, labels, names_of, extra, values, merge, form, relabel)
        if rng.random() < 0.35:
            # the table of one network makes an equal one
            was = snap(net.events_table)
            other = ContTempNetwork(events_table=net.events_table, relabel_nodes=False,
                                    node_to_label_dict=net.node_to_label_dict)
            ctx.equal(interactions(other, names, None), interactions(net, names, None),
                      "interactions", "network from the table of another")
            other.compute_laplacian_matrices()
            ctx.equal(snap(net.events_table), was, "caller-untouched", "table of a network")
            ctx.feature("from-other-network")
        # static graph of contact times
        lo = min(r[2] for r in rows) if t0 is None else t0
        hi = max(r[3] for r in rows) if t1 is None else t1
        act = rows if not merge else list(interactions(net, names, None).elements())
        skw = {}
        if t0 is not None:
            skw["start_time"] = t0
        if t1 is not None:
            skw["end_time"] = t1
        A = net.compute_static_adjacency_matrix(**skw)
        W = contact(act, names, ev.n, lo, hi)
        ctx.close(A, W, "static-graph", f"contact times in {t0}..{t1} ({form})", atol=1e-7)
        if skw:
            ctx.feature("static-window")
        # the forms are equivalent for all that follows
        num = {l: k for k, l in names.items()}
        m = gen.Model([(num[a], num[b], s, e) for a, b, s, e in act], ev.n)
        net.compute_laplacian_matrices()
        ctx.equal(times_of(net), m.times, "grid", f"event times ({form})")
        check_list(ctx, net.laplacians, [m.laplacian(k) for k in range(len(m.times) - 1)],
                   "laplacian", f"Laplacian ({form})", atol=1e-12)
        perm = [num[l] for l in labels]
        stat.append(dense(A)[np.ix_(perm, perm)])
    ctx.close(stat[0], stat[1], "forms-agree", f"static graphs of {forms}", atol=1e-9)
    if len(rows) > 1:
        ctx.nontrivial(rows, forms, merge, relabel)
