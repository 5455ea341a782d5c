"""C03: linear approximations interpolate identity, one step and the stationary walk"""
import numpy as np
import scipy.sparse as sp

from vf import gen
from vf.core import dense, snap
from vf.net import build, check_list

CASES = {"quick": 1500, "thorough": 40000}
RULE = ("a case is one history of linear-approximation computations over rates, "
        "stationarity times, windows and formats on one network, checked matrix by matrix "
        "against the piecewise definition; distinct by events and operations")
EXPECT = ["linear", "stochastic", "regime-below-1", "regime-between",
          "regime-stationary", "sparse-stoch", "new-window", "function", "several-t_s",
          "medium-size"]
ASSUMPTIONS = ["t_s > 1", "one storage format per network object (documented cache of the "
               "stationary matrices)"]


def function_case(rng, ctx):
    from flowstab.temporal_network import (compute_stationary_transition,
                                           lin_approx_trans_matrix, sparse_lin_approx,
                                           sparse_stationary_trans)
    n = int(rng.integers(2, 25))
    A = np.triu(rng.random((n, n)) < rng.choice([0.05, 0.15, 0.5]), 1).astype(float)
    A = A + A.T
    T = gen.discrete_T(A)
    t = float(rng.choice([0, 0.2, 1, 1.0001, 2, 5, 9.99, 10, 12, 40]))
    t_s = float(rng.choice([1.25, 2, 3.7, 5, 10, 30]))
    Pi = gen.stationary(A)
    ctx.close(compute_stationary_transition(sp.csr_matrix(T)), Pi, "function",
              "stationary transition", atol=1e-12)
    ctx.close(compute_stationary_transition(sp.csc_matrix(T)), Pi, "function",
              "stationary transition (csc)", atol=1e-12)
    ctx.close(sparse_stationary_trans(sp.csr_matrix(T)), Pi, "function",
              "sparse stationary transition", atol=1e-12)
    want = gen.lin_approx(A, t, t_s)
    give = bool(rng.random() < 0.5)
    ctx.close(lin_approx_trans_matrix(sp.csr_matrix(T), t, t_s=t_s,
                                      Pi=sp.csr_matrix(Pi) if give else None), want,
              "function", f"linear approximation t={t} t_s={t_s}", atol=1e-12)
    if A.any():
        nz = np.flatnonzero(A.sum(1) > 0).astype(np.int32)
        ctx.close(sparse_lin_approx(sp.csr_matrix(T), t, t_s=t_s,
                                    Pi=sp.csr_matrix(Pi) if give else None,
                                    nz_rowcols=nz if rng.random() < 0.7 else None), want,
                  "function", f"sparse linear approximation t={t} t_s={t_s}", atol=1e-12)
    ctx.raises(ValueError, "function", "negative time accepted",
               lin_approx_trans_matrix, sp.csr_matrix(T), -0.5)
    ctx.describe(n=n, t=t, t_s=t_s, kind="function")
    ctx.nontrivial("fn", n, t, t_s, A.tobytes())


def case(rng, ctx):
    if rng.random() < 0.25:
        return function_case(rng, ctx)
    ev = gen.sized_events(rng, ctx, long=0.004, nmax=8, emax=18)
    m = gen.Model(ev.rows(), ev.n)
    net = build(ev)
    ctx.describe(**ev.desc())
    scale = float(np.median(np.diff(m.times)))
    sparse = bool(rng.random() < 0.5)
    t0, t1 = gen.draw_window(rng, m.times)
    k0, k1 = m.window(t0, t1)
    first = bool(rng.random() < 0.6)
    if first:
        net.compute_laplacian_matrices(t_start=t0, t_stop=t1)
    ops = [("window", t0, t1)]
    model = {}
    graphs = set()
    for step in range(int(rng.integers(1, 6))):
        if step and rng.random() < 0.3:
            first = True
            t0, t1 = gen.draw_window(rng, m.times)
            k0, k1 = m.window(t0, t1)
            net.compute_laplacian_matrices(t_start=t0, t_stop=t1)
            model = {}
            sparse = bool(rng.random() < 0.5)
            ctx.feature("new-window")
            ops.append(("window", t0, t1))
        lam = float(rng.choice([1e-5, 0.05, 0.5, 1.0, 3.0, 12.0, 80.0])) / scale
        if rng.random() < 0.15:
            lam = None
        t_s = [2, 5.0, 10, 25, 1.5, 6.25][int(rng.integers(6))]
        fix = bool(rng.random() < 0.2)
        kw = dict(lamda=lam, t_s=t_s, use_sparse_stoch=sparse, fix_tau_k=fix)
        if lam is None:
            del kw["lamda"]
        if not first and not step:      # the window of the first computation
            kw.update(t_start=t0, t_stop=t1)
            ctx.feature("window-with-call")
        before = snap(net.laplacians) if first or step else None
        net.compute_lin_inter_transition_matrices(**kw)
        before = snap(net.laplacians) if before is None else before
        ops.append(tuple(sorted(kw.items())))
        ctx.equal(snap(net.laplacians), before, "laplacians-untouched",
                  "computing linear transition matrices changed the Laplacians")
        if sparse:
            ctx.feature("sparse-stoch")
        key = m.default_lamda() if lam is None else lam
        keys = [q for q in net.inter_T_lin if abs(q - key) <= 1e-12 * abs(key)]
        ctx.check(len(keys) == 1, "rate-key", f"no result for rate {key}")
        key = keys[0]
        if (key, t_s) not in model:
            model[(key, t_s)] = m.inter_T_lin(key, t_s, k0, k1, fix)
            for k in range(k0, k1):
                x = key * (1 if fix else m.tau(k))
                ctx.feature("regime-below-1" if x <= 1 else "regime-between" if x < t_s
                            else "regime-stationary")
        if len({q[1] for q in model if q[0] == key}) > 1:
            ctx.feature("several-t_s")
        for (q, ts), want in model.items():
            ctx.check(ts in net.inter_T_lin[q], "linear", f"no result for t_s {ts}")
            got = net.inter_T_lin[q][ts]
            check_list(ctx, got, want, "linear",
                       f"linear transition matrix rate {q} t_s {ts} ({kw}), interval", atol=1e-10)
        for T in net.inter_T_lin[key][t_s]:
            T = dense(T)
            ctx.close(T.sum(1), np.ones(ev.n), "stochastic", "row sums", atol=1e-10)
            ctx.check((T >= -1e-12).all(), "stochastic", "negative probability")
            graphs.add(T.tobytes())
        if hasattr(net, "_stationary_trans"):
            check_list(ctx, net._stationary_trans,
                       [gen.stationary(m.adjacency(k)) for k in range(k0, k1)],
                       "stationary", "stationary transition", atol=1e-12)
    if len(graphs) > 1:
        ctx.nontrivial(ev.rows(), ops)
