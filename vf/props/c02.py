"""C02: transition matrices between events are the random walk on the interval graph"""
import numpy as np
import scipy.sparse as sp

from vf import gen
from vf.core import dense, snap
from vf.net import build, check_list

CASES = {"quick": 1500, "thorough": 40000}
RULE = ("a case is one history of Laplacian and transition matrix computations (several "
        "rates, storage formats, windows) on one network object, or one large matrix "
        "exponential computed by components; distinct by events and operations")
EXPECT = ["expm", "stochastic", "laplacians-untouched", "new-window", "sparse-stoch",
          "sparse-expm", "fixed-tau", "default-rate", "empty-window", "subspace-expm",
          "cached-rate-unchanged", "thresh-ratio",
          "medium-size"]
ASSUMPTIONS = ["the walk of an interval is expm(-rate * duration * L), L the random walk "
               "Laplacian of the ongoing events"]


def subspace_case(rng, ctx):
    from flowstab.parallel_expm import compute_parallel_expm, compute_subspace_expm_parallel
    from flowstab.temporal_network import compute_subspace_expm, sparse_lapl_expm
    n = int(rng.integers(3, 40))
    A = np.triu(rng.random((n, n)) < rng.choice([0.03, 0.1, 0.3]), 1).astype(float)
    A = A + A.T
    t = float(rng.choice([1e-5, 0.1, 0.7, 3.0, 15.0, 80.0]))
    L = gen.walk_laplacian(A)
    want = gen.walk_expm(A, t)
    ctx.describe(n=n, t=t, edges=int(A.sum() // 2), kind="matrix exponential by components")
    which = int(rng.integers(0, 4))
    fmt = sp.csc_matrix if rng.random() < 0.6 else sp.csr_matrix
    X = fmt(-t * L)
    if which == 0:
        kw = {}
        if rng.random() < 0.3:
            from scipy.sparse.csgraph import connected_components
            kw["n_comp"], kw["comp_labels"] = connected_components(X, directed=False)
        ratio = float(rng.choice([2.0, 20.0, 1e3])) if rng.random() < 0.5 else None
        norm = bool(rng.random() < 0.5)
        if ratio is not None and (np.abs(want * ratio / want.max() - 1) > 1e-6).all():
            kw["thresh_ratio"] = ratio
            want = np.where(want < want.max() / ratio, 0, want)
            ctx.feature("thresh-ratio")
        if rng.random() < 0.7:
            kw["normalize_rows"] = norm
        if kw.get("normalize_rows", True):
            r = want.sum(1, keepdims=True)
            want = want / np.where(r == 0, 1, r)
        got = compute_subspace_expm(X, **kw)
    elif which == 1:
        got = compute_subspace_expm_parallel(X, nproc=int(rng.integers(1, 4)))
    elif which == 2:
        got = compute_parallel_expm(X, nproc=int(rng.integers(1, 4)), verbose=False)
    else:
        got = sparse_lapl_expm(fmt(L), t, dense_expm=bool(rng.random() < 0.5))
    ctx.feature(f"subspace-expm-{which}")
    ctx.close(got, want, "subspace-expm", f"matrix exponential, variant {which}", atol=1e-8)
    ctx.nontrivial("sub", which, n, t, A.tobytes())


def large_case(rng, ctx):
    """more than 1000 non-isolated nodes: the exponential is assembled from components"""
    from flowstab.temporal_network import sparse_lapl_expm
    n = 1000 + int(rng.integers(5, 60))
    perm = rng.permutation(n)
    A = sp.lil_matrix((n, n))
    i = 0
    one = bool(rng.random() < 0.5)
    if one:                     # one large component and small ones
        ctx.feature("large-component")
        i = 1000
        n = i + int(rng.integers(5, 40))
        perm = rng.permutation(n)
        A = sp.lil_matrix((n, n))
        for a in range(1, i):
            for b in {int(rng.integers(0, a)), a - 1}:
                A[perm[a], perm[b]] = A[perm[b], perm[a]] = 1
    while i + 1 < n:
        s = min(int(rng.integers(2, 9)), n - i)
        if s < 2:
            break
        ix = perm[i:i + s]
        for a in range(1, s):
            b = int(rng.integers(0, a))
            A[ix[a], ix[b]] = A[ix[b], ix[a]] = 1
        i += s
    A = dense(A)
    t = float(rng.choice([0.4, 2.0]))
    L = gen.walk_laplacian(A)
    nproc = int(rng.choice([1, 2]))
    got = sparse_lapl_expm(sp.csc_matrix(L), t, dense_expm=False, nproc=nproc)
    ctx.close(got, gen.walk_expm(A, t), "large-expm", f"{n} nodes, nproc {nproc}", atol=1e-8)
    ctx.describe(n=n, t=t, nproc=nproc, kind="large matrix exponential")
    ctx.nontrivial("large", n, t, nproc)


def case(rng, ctx):
    u = rng.random()
    if u < 0.12:
        return subspace_case(rng, ctx)
    if u < 0.128:
        return large_case(rng, ctx)
    ev = gen.sized_events(rng, ctx, long=0.004, nmax=8, emax=18)
    m = gen.Model(ev.rows(), ev.n)
    net = build(ev)
    ctx.describe(**ev.desc())
    scale = float(np.median(np.diff(m.times)))
    ops = []
    t0, t1 = gen.draw_window(rng, m.times)
    first = bool(rng.random() < 0.5)
    k0, k1 = m.window(t0, t1)
    if first:
        net.compute_laplacian_matrices(t_start=t0, t_stop=t1)
    model = {}
    graphs = set()
    for step in range(int(rng.integers(1, 5))):
        if step and rng.random() < 0.35:
            t0, t1 = gen.draw_window(rng, m.times)
            k0, k1 = m.window(t0, t1)
            net.compute_laplacian_matrices(t_start=t0, t_stop=t1)
            model = {}
            ctx.feature("new-window")
            ops.append(("window", t0, t1))
        kw = {}
        lam = None
        if rng.random() < 0.8:
            lam = float(rng.choice([1e-6, 1e-4, 0.01, 0.3, 1.0, 2.5, 8.0, 60.0])) / scale
            kw["lamda"] = lam
        else:
            ctx.feature("default-rate")
        kw["use_sparse_stoch"] = bool(rng.random() < 0.45)
        kw["dense_expm"] = bool(rng.random() < 0.6)
        kw["fix_tau_k"] = bool(rng.random() < 0.2)
        if not first and step == 0:
            kw.update(t_start=t0, t_stop=t1)
        before = snap(getattr(net, "laplacians", None)) if hasattr(net, "laplacians") else None
        net.compute_inter_transition_matrices(**kw)
        ops.append(tuple(sorted(kw.items(), key=str)))
        if before is not None:
            ctx.equal(snap(net.laplacians), before, "laplacians-untouched",
                      "computing transition matrices changed the Laplacians")
        key = lam if lam is not None else m.default_lamda()
        keys = [q for q in net.inter_T if abs(q - key) <= 1e-12 * abs(key)]
        ctx.check(len(keys) == 1, "rate-key", f"no result for rate {key}: {list(net.inter_T)}")
        if not any(abs(q - key) <= 1e-12 * abs(key) for q in model):
            # a rate that was computed before is kept as it is
            want = m.inter_T(key, k0, k1, kw["fix_tau_k"])
            model[keys[0]] = want
            got = net.inter_T[keys[0]]
            check_list(ctx, got, want, "expm", f"transition matrix at rate {key}, {kw}, interval",
                       atol=2e-8)
            if kw["use_sparse_stoch"]:
                ctx.feature("sparse-stoch")
            if not kw["dense_expm"]:
                ctx.feature("sparse-expm")
            if kw["fix_tau_k"]:
                ctx.feature("fixed-tau")
            if k1 <= k0:
                ctx.feature("empty-window")
            for T in got:
                T = dense(T)
                ctx.close(T.sum(1), np.ones(ev.n), "stochastic", "row sums", atol=1e-8)
                ctx.check((T >= -1e-10).all(), "stochastic", "negative probability")
                graphs.add(T.tobytes())
        for q, want in model.items():
            check_list(ctx, net.inter_T[q], want, "cached-rate-unchanged",
                       f"matrix kept for rate {q}", atol=2e-8)
        ctx.equal(sorted(net.inter_T), sorted(model), "rates", "rates of the current window")
    if len(graphs) > 1:
        ctx.nontrivial(ev.rows(), ops)
