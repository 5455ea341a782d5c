"""C05: what is saved is what is loaded, and saving changes nothing"""
import os

import numpy as np

from vf import gen
from vf.core import Skip, dense, snap
from vf.net import build, check_list, mats

from flowstab.temporal_network import ContTempInstNetwork, ContTempNetwork

CASES = {"quick": 900, "thorough": 25000}
RULE = ("a case is one network with a drawn set of computed results, saved through drawn "
        "save calls (whole network, interval matrices, products, compressed, differences, "
        "selected parts, name collisions) and loaded again; distinct by events and calls")
EXPECT = ["network-roundtrip", "network-continues", "inter-roundtrip", "lin-roundtrip",
          "T-roundtrip", "T-lin-roundtrip", "saving-changes-nothing", "existing-file",
          "compressed", "delta", "sparse-stoch", "inst", "dotted-name", "selected",
          "separate-names", "round-zeros", "no-round", "labels",
          "medium-size", "saved-again", "mixed-formats", "load-selected"]
ASSUMPTIONS = ["one storage format of the matrices per network", "a save completes (no "
               "crash in the middle of a write)"]

NAMES = ["net", "net.v1", "a.b.c", "out_0.5", "results 2"]
ATTRS = ["laplacians", "adjacencies", "inter_T", "inter_T_lin", "T", "T_lin", "events_table",
         "times", "node_to_label_dict", "num_nodes"]


def state_of(net):
    return {a: snap(values(getattr(net, a))) for a in ATTRS if hasattr(net, a)}


def values(x):
    if hasattr(x, "toarray"):
        return dense(x)
    if isinstance(x, dict):
        return {k: values(v) for k, v in x.items()}
    if isinstance(x, list):
        return [values(v) for v in x]
    return x


def leaves(x):
    if hasattr(x, "toarray"):
        return [x]
    return [m for v in (x.values() if isinstance(x, dict) else x) for m in leaves(v)]


def compare(ctx, got, want, mon, what, atol):
    """nested dict/list of matrices"""
    if isinstance(want, dict):
        ctx.equal(sorted(map(str, got)), sorted(map(str, want)), mon, f"{what}: keys")
        for k in want:
            compare(ctx, got[k], want[k], mon, f"{what}[{k}]", atol)
    elif isinstance(want, list):
        check_list(ctx, got, want, mon, what, atol=atol, rtol=0)
    else:
        ctx.close(got, want, mon, what, atol=atol, rtol=0)


def build_net(rng, ctx):
    inst = rng.random() < 0.2
    ev = gen.sized_events(rng, ctx, long=0.004, nmax=7, emax=12)
    lab = gen.labels(rng, ev.n, str(rng.choice(["range", "gaps", "strings"])))
    src, dst = [lab[v] for v in ev.src], [lab[v] for v in ev.dst]
    ctx.describe(**ev.desc())
    if inst:
        ctx.feature("inst")
        net = ContTempInstNetwork(source_nodes=src, target_nodes=dst, starting_times=ev.start)
    else:
        net = ContTempNetwork(source_nodes=src, target_nodes=dst, starting_times=ev.start,
                              ending_times=ev.end)
    return ev, net, inst


def case(rng, ctx):
    ev, net, inst = build_net(rng, ctx)
    sparse = bool(rng.random() < 0.5)
    ts = sorted(set(ev.start) | set(ev.end))
    t0, t1 = gen.draw_window(rng, ts)
    scale = float(np.median(np.diff(sorted(set(ts)))))
    earlier = bool(rng.random() < 0.3)
    lams = [float(v) / scale for v in rng.choice([0.3, 1.0, 2.0], int(rng.integers(1, 3)),
                                                 replace=False)]
    have_lin = bool(rng.random() < 0.6)
    t_ss = [2 if rng.random() < 0.6 else 2.5, 10][: int(rng.integers(1, 3))]

    def compute():
        for lam in lams:
            net.compute_inter_transition_matrices(lamda=lam, use_sparse_stoch=sparse)
            if have_lin:
                for t_s in t_ss:
                    net.compute_lin_inter_transition_matrices(lamda=lam, t_s=t_s,
                                                              use_sparse_stoch=sparse)
    if earlier:
        # matrices of another window were computed and saved before
        ctx.feature("earlier-window")
        net.compute_laplacian_matrices(**dict(zip(("t_start", "t_stop"),
                                                  gen.draw_window(rng, ts))))
        compute()
        e = os.path.join(ctx.scratch, "earlier")
        os.makedirs(e)
        net.save_inter_T(os.path.join(e, "i"), save_delta=not sparse)
        if have_lin:
            net.save_inter_T_lin(os.path.join(e, "l"), save_delta=not sparse)
    net.compute_laplacian_matrices(t_start=t0, t_stop=t1,
                                   save_adjacencies=bool(rng.random() < 0.5))
    compute()
    have_T = bool(rng.random() < 0.6)
    inter = bool(rng.random() < 0.4)
    rev = bool(rng.random() < 0.4)
    if have_T:
        for lam in lams:
            csr = bool(rng.random() < 0.3)
            if csr:
                ctx.feature("force-csr")
            net.compute_transition_matrices(lamda=lam, save_intermediate=inter,
                                            reverse_time=rev, force_csr=csr)
            if have_lin:
                for t_s in t_ss:
                    net.compute_lin_transition_matrices(lamda=lam, t_s=t_s, reverse_time=rev,
                                                        save_intermediate=inter)
    before = state_of(net)
    d = os.path.join(ctx.scratch, "d")
    os.makedirs(d)
    names = [str(v) for v in rng.permutation(NAMES)]
    if "." in names[0]:
        ctx.feature("dotted-name")
    ops = []
    delta_cached = False
    if sparse:
        ctx.feature("sparse-stoch")

    def unchanged(op):
        ctx.equal(state_of(net), before, "saving-changes-nothing",
                  f"{op} changed the network or its results")

    for step in range(int(rng.integers(1, 4))):
        kinds = ["net", "inter"] + (["lin"] if have_lin else []) + \
            (["T"] if have_T and not inter else []) + \
            (["T_lin"] if have_T and have_lin and not inter else [])
        kind = str(rng.choice(kinds))
        path = os.path.join(d, f"{step}_{kind}_{names[step % len(names)]}")
        ops.append(kind)
        if kind == "net":
            save_net(rng, ctx, net, path, inst, ev, scale, sparse)
            unchanged("save")
            continue
        kw = {}
        lam_sel = None
        if rng.random() < 0.4:
            lam_sel = lams[0]
            kw["lamda"] = lam_sel
        sel = lams if lam_sel is None else [lam_sel]
        tol = float(rng.choice([1e-12, 1e-8, 1e-5, 0.02]))
        if rng.random() < 0.5:
            kw["round_zeros"] = False
            ctx.feature("no-round")
            atol = 1e-14
        else:
            kw["tol"] = tol
            ctx.feature("round-zeros")
            atol = 1.1 * tol + 1e-14
        if rng.random() < 0.4:
            kw["compressed"] = True
            ctx.feature("compressed")
        if kind in ("inter", "lin") and not sparse:
            kw["save_delta"] = True
            ctx.feature("delta")
            nmat = max(len(net.inter_T[lams[0]]), 1)
            if kw.get("round_zeros", True):
                # differences larger than one add up
                atol = (2.2 * tol + 1e-13) * nmat
            else:
                atol = 1e-13 * nmat
        attr = {"inter": "inter_T", "lin": "inter_T_lin", "T": "T", "T_lin": "T_lin"}[kind]
        src = getattr(net, attr)
        want = {l: values(src[l]) for l in sel}
        fn = {"inter": net.save_inter_T, "lin": net.save_inter_T_lin, "T": net.save_T,
              "T_lin": net.save_T_lin}[kind]
        mon = {"inter": "inter-roundtrip", "lin": "lin-roundtrip", "T": "T-roundtrip",
               "T_lin": "T-lin-roundtrip"}[kind]
        # the delta matrices are cached: what was rounded before stays rounded
        if kw.get("save_delta") and delta_cached:
            for a in ("delta_inter_T", "delta_inter_T_lin"):
                if hasattr(net, a):
                    delattr(net, a)
        delta_cached = delta_cached or bool(kw.get("save_delta"))
        ext = ".gz" if kw.get("compressed") else ".pickle"
        give = path + (ext if rng.random() < 0.3 else "")
        fn(give, **kw)
        ops.append(tuple(sorted(kw.items(), key=str)))
        unchanged(f"save of {kind} {kw}")
        ctx.check(os.path.exists(path + ext), mon, f"no file {os.path.basename(path + ext)}: "
                  f"{os.listdir(d)}")
        load = ContTempNetwork.load_inter_T if kind in ("inter", "lin") else \
            ContTempNetwork.load_T
        got = load(path if rng.random() < 0.5 else path + ext)
        compare(ctx, got[attr], want, mon, f"{kind} saved with {kw}", atol)
        if "tol" in kw and not sparse and not kw.get("save_delta"):
            for M in leaves(got[attr]):
                M = dense(M)
                left = M[(M != 0) & (M <= 0.99 * tol * np.abs(M).max())]
                ctx.check(left.size == 0, "round-zeros-rounds",
                          f"{kind} saved with {kw} keeps values {left[:3]}")
        ctx.equal(got["num_nodes"], net.num_nodes, mon, "num_nodes")
        keys = [f"_{a}_{b}_laplacians" for a in "kt" for b in ("start", "stop")]
        ctx.equal([got[a] for a in keys], [getattr(net, a, got[a]) for a in keys], mon, "window")
        k0, k1 = got[keys[0]], got[keys[1]]
        ctx.equal(np.asarray(got["times_k_start_to_k_stop+1"]).tolist(),
                  np.asarray(net.times)[k0:k1 + 1].tolist(), mon, "times of the window")
        if kind in ("inter", "lin"):
            # an existing file is kept or replaced as asked
            with open(path + ext, "rb") as f:
                raw = f.read()
            with open(path + ext, "wb") as f:
                f.write(b"sentinel")
            rep = bool(rng.random() < 0.5)
            if rep or kind != "inter" or rng.random() < 0.5:
                fn(give, replace_existing=rep, **kw)
            else:
                fn(give, **kw)              # the documented default
            with open(path + ext, "rb") as f:
                now = f.read()
            if rep:
                ctx.check(now != b"sentinel", "existing-file", "existing file not replaced")
                compare(ctx, load(path + ext)[attr], want, "existing-file", "replaced file", atol)
            else:
                ctx.check(now == b"sentinel", "existing-file",
                          "existing file overwritten although replace_existing=False")
            with open(path + ext, "wb") as f:
                f.write(raw)
        # files under other names are what they were
        ctx.check(len(os.listdir(d)) >= 1, "separate-names")
    if not sparse and rng.random() < 0.5:
        grown(rng, ctx, net, d, lams, t_ss, have_lin, scale)
    if have_T and have_lin and not inter and rng.random() < 0.5:
        # products of both storage formats in one file
        net.compute_lin_inter_transition_matrices(lamda=lams[0], t_s=5,
                                                  use_sparse_stoch=not sparse)
        net.compute_lin_transition_matrices(lamda=lams[0], t_s=5, save_intermediate=False)
        f = os.path.join(d, "mixed")
        want = values(net.T_lin)
        net.save_T_lin(f, round_zeros=False)
        compare(ctx, ContTempNetwork.load_T(f)["T_lin"], want, "mixed-formats",
                "products of both storage formats", 1e-14)
    ctx.nontrivial(ev.rows(), ops, sparse, lams)


def grown(rng, ctx, net, d, lams, t_ss, have_lin, scale):
    """differences saved, further rates or snapshots computed, and saved again"""
    lin = have_lin and rng.random() < 0.6
    attr, fn = ("inter_T_lin", net.save_inter_T_lin) if lin else ("inter_T", net.save_inter_T)
    for a in ("delta_inter_T", "delta_inter_T_lin"):
        if hasattr(net, a):
            delattr(net, a)
    tol = float(rng.choice([1e-12, 1e-8, 1e-5]))
    fn(os.path.join(d, "g0"), save_delta=True, tol=tol, lamda=lams[0] if rng.random() < 0.4
       else None)
    new_lam = rng.random() < 0.5
    ls = [0.55 / scale] if new_lam else lams
    if lin:
        for lam in ls:
            net.compute_lin_inter_transition_matrices(
                lamda=lam, t_s=t_ss[0] if new_lam else 5, use_sparse_stoch=False)
    else:
        ls = [0.55 / scale]
        net.compute_inter_transition_matrices(lamda=ls[0], use_sparse_stoch=False)
    want = {lam: values(m) for lam, m in getattr(net, attr).items()}
    fn(os.path.join(d, "g1"), save_delta=True, tol=tol)
    got = ContTempNetwork.load_inter_T(os.path.join(d, "g1"))
    n = max([len(m) for v in want.values() for m in (v.values() if lin else [v])] + [1])
    compare(ctx, got[attr], want, "saved-again", f"{attr} saved, extended and saved again",
            (2.2 * tol + 1e-13) * n)


def save_net(rng, ctx, net, path, inst, ev, scale, sparse):
    cls = ContTempInstNetwork if inst else ContTempNetwork
    u = rng.random()
    kw, lkw = {}, {}
    mlist = [a for a in ("laplacians", "adjacencies", "inter_T", "inter_T_lin", "T", "T_lin")]
    expect = set(mlist)
    if u < 0.25:
        pick = [a for a in mlist if rng.random() < 0.5]
        kw["matrices_list"] = pick
        expect = set(pick)
        ctx.feature("selected")
    elif u < 0.5:
        pick = [a for a in mlist if rng.random() < 0.5]
        lkw["matrices_list"] = pick
        expect = set(pick)
        ctx.feature("selected")
    net.save(path, **kw)
    # a second network under a name that differs only after the last dot
    other = path + ".2"
    ev2 = gen.events(rng, nmax=4, emax=5)
    n2 = build(ev2)
    n2.save(other)
    l2 = ContTempNetwork.load(other)
    ctx.equal(snap(l2.events_table[["source_nodes", "target_nodes", "starting_times",
                                    "ending_times"]]),
              snap(n2.events_table[["source_nodes", "target_nodes", "starting_times",
                                    "ending_times"]]), "separate-names", "second network")
    got = cls.load(path if rng.random() < 0.5 else path + ".pickle", **lkw)
    ctx.check(type(got) is cls, "network-roundtrip", "class of the loaded network")
    for a in ("num_nodes", "num_events", "start_time", "end_time", "is_directed",
              "instantaneous_events"):
        ctx.equal(getattr(got, a), getattr(net, a), "network-roundtrip", a)
    cols = ["source_nodes", "target_nodes", "starting_times", "ending_times", "durations"]
    ctx.equal(snap(got.events_table[cols]), snap(net.events_table[cols]), "network-roundtrip",
              "events")
    ctx.equal(got.node_to_label_dict, net.node_to_label_dict, "labels", "node labels")
    ctx.equal(np.asarray(got.times).tolist(), np.asarray(net.times).tolist(),
              "network-roundtrip", "times")
    for a in mlist:
        if a in expect and hasattr(net, a):
            ctx.check(hasattr(got, a), "network-roundtrip", f"{a} lost")
            compare(ctx, getattr(got, a), values(getattr(net, a)), "network-roundtrip", a, 0)
        else:
            ctx.check(not hasattr(got, a), "selected", f"{a} came back although not selected")
    part = ["node_to_label_dict", "events_table", "times", "num_nodes"]
    some = cls.load(path, matrices_list=[], attributes_list=part)
    ctx.equal([a for a in mlist + ["_k_start_laplacians", "_t_stop_laplacians"]
               if hasattr(some, a)], [], "load-selected", f"loaded besides {part}")
    ctx.equal(np.asarray(some.times).tolist(), np.asarray(net.times).tolist(),
              "load-selected", "times")
    # the loaded network can be used like the saved one
    lam = 0.77 / scale
    k0 = getattr(net, "_k_start_laplacians", None)
    if "laplacians" in expect and k0 is not None:
        got.compute_inter_transition_matrices(lamda=lam, use_sparse_stoch=sparse)
        L = values(net.laplacians)
        ts = np.asarray(net.times)
        from scipy.linalg import expm
        want = [expm(-lam * (1.0 if inst else ts[k0 + i + 1] - ts[k0 + i]) * L[i])
                for i in range(len(L))] or [np.eye(net.num_nodes)]
        check_list(ctx, got.inter_T[lam], want, "network-continues",
                   "interval matrices computed after loading", atol=1e-8)
    t0, t1 = gen.draw_window(rng, np.asarray(net.times).tolist())
    got.compute_laplacian_matrices(t_start=t0, t_stop=t1)
    cold = cls(events_table=net.events_table[[c for c in cols if c != "durations"]],
               relabel_nodes=False)
    cold.compute_laplacian_matrices(t_start=t0, t_stop=t1)
    check_list(ctx, got.laplacians, mats(cold.laplacians), "network-continues",
               "Laplacians recomputed after loading", atol=1e-12)
