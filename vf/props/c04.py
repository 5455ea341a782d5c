"""C04: cumulative transition matrices are the ordered products of the interval walks"""
import numpy as np

from vf import gen
from vf.core import dense, snap
from vf.net import build, check_list, mats

CASES = {"quick": 900, "thorough": 25000}
RULE = ("a case is one history of cumulative products (forward, reversed, several rates, "
        "exponential and linear, all or only the last product) on one network; every "
        "product is compared with the dense product of the interval matrices of the model; "
        "distinct by events and operations")
EXPECT = ["product", "product-lin", "reverse", "forward", "last-only", "force-csr", "tol",
          "inter-untouched", "stochastic", "requires-inter", "new-window", "sparse-stoch", "second-setting",
          "earlier-untouched",
          "medium-size"]
ASSUMPTIONS = ["results are kept per rate until they are deleted or new Laplacians are "
               "computed (documented cache): a direction change is preceded by deleting "
               "them, as the command line tools do"]


def trim(M, tol):
    """values not above tol * largest value dropped, rows normalised"""
    M = M.copy()
    M[M <= tol * np.abs(M).max()] = 0
    s = M.sum(1, keepdims=True)
    return np.divide(M, s, out=M, where=s != 0)


def products(seq, reverse, tol=None):
    order = list(reversed(seq)) if reverse else list(seq)
    if tol is not None:
        order = [trim(M, tol) for M in order]
    res = [order[0]]
    for M in order[1:]:
        P = res[-1] @ M
        if tol is not None:
            P = trim(P, tol)
        res.append(P)
    return res


def near_threshold(seq, reverse, tol):
    """is a value so close to the trimming threshold that rounding decides?"""
    order = list(reversed(seq)) if reverse else list(seq)

    def amb(M):
        x = np.abs(M) / np.abs(M).max()
        return ((x > tol * 0.999) & (x < tol * 1.001)).any() or \
            (M < 0).any()
    P = None
    for M in order:
        if amb(M):
            return True
        M = trim(M, tol)
        P = M if P is None else P @ M
        if amb(P):
            return True
        P = trim(P, tol)
    return False


def case(rng, ctx):
    ev = gen.sized_events(rng, ctx, long=0.004, nmax=8, emax=14)
    m = gen.Model(ev.rows(), ev.n)
    net = build(ev)
    ctx.describe(**ev.desc())
    scale = float(np.median(np.diff(m.times)))
    ops = []
    state = {}

    def window():
        t0, t1 = gen.draw_window(rng, m.times)
        net.compute_laplacian_matrices(t_start=t0, t_stop=t1)
        state["k"] = m.window(t0, t1)
        state["sparse"] = bool(rng.random() < 0.45)
        ops.append(("window", t0, t1, state["sparse"]))
    window()
    lam0 = float(rng.choice([1e-4, 0.1, 0.6, 1.5, 30.0])) / scale
    ctx.raises(Exception, "requires-inter", "product without interval matrices",
               net.compute_transition_matrices, lamda=lam0)
    graphs = set()
    kept = {}
    done = set()        # settings computed for the current Laplacians
    for step in range(int(rng.integers(1, 7))):
        if step and rng.random() < 0.3:
            window()
            ctx.feature("new-window")
            kept.clear()
            done.clear()
        k0, k1 = state["k"]
        sparse = state["sparse"]
        if sparse:
            ctx.feature("sparse-stoch")
        lam = float(rng.choice([1e-4, 0.1, 0.6, 1.5, 4.0, 30.0])) / scale
        rev = bool(rng.random() < 0.5)
        inter = bool(rng.random() < 0.7)
        # all products are the default
        opt = {} if inter and rng.random() < 0.4 else {"save_intermediate": inter}
        ctx.feature("reverse" if rev else "forward")
        if not inter:
            ctx.feature("last-only")
        if rng.random() < 0.4:
            t_s = [3, 10, 4.5][int(rng.integers(3))]
            net.compute_lin_inter_transition_matrices(lamda=lam, t_s=t_s,
                                                      use_sparse_stoch=sparse)
            # results of other settings stay, those of the same ones are computed anew
            if hasattr(net, "T_lin"):
                if rng.random() < 0.2:
                    del net.T_lin
                    kept.clear()
                    done -= {q for q in done if q[0] == "lin"}
                elif ("lin", lam, t_s) in done:
                    del net.T_lin[lam][t_s]
                    kept.pop(("lin", lam, t_s), None)
                else:
                    ctx.feature("second-setting")
            before = [M.tobytes() for M in mats(net.inter_T_lin[lam][t_s])]
            net.compute_lin_transition_matrices(lamda=lam, t_s=t_s, reverse_time=rev,
                                                **opt)
            want = products(m.inter_T_lin(lam, t_s, k0, k1), rev)
            got = net.T_lin[lam][t_s]
            after = [M.tobytes() for M in mats(net.inter_T_lin[lam][t_s])]
            mon, slack = "product-lin", 0
            ops.append(("lin", lam, t_s, rev, inter))
        else:
            net.compute_inter_transition_matrices(lamda=lam, use_sparse_stoch=sparse)
            if hasattr(net, "T"):
                if rng.random() < 0.2:
                    del net.T
                    kept.clear()
                    done -= {q for q in done if q[0] == "exp"}
                elif ("exp", lam) in done:
                    del net.T[lam]
                    kept.pop(("exp", lam), None)
                else:
                    ctx.feature("second-setting")
            before = [M.tobytes() for M in mats(net.inter_T[lam])]
            force = bool(rng.random() < 0.25)
            model = m.inter_T(lam, k0, k1)
            tol = float(rng.choice([1e-6, 1e-3, 2e-2])) if rng.random() < 0.25 else None
            if tol is not None and near_threshold(model, rev, tol):
                tol = None
            if force:
                ctx.feature("force-csr")
            if tol is not None:
                ctx.feature("tol")
            net.compute_transition_matrices(lamda=lam, reverse_time=rev, force_csr=force,
                                            tol=tol, **opt)
            exact = tol is None or not sparse
            # the reference value of the threshold of a SparseStochMat is that of its
            # stored part: only the size of the error is specified
            slack = 0 if exact else 4 * ev.n * tol * (len(model) + 1)
            want = products(model, rev, tol if exact else None)
            got = net.T[lam]
            after = [M.tobytes() for M in mats(net.inter_T[lam])]
            mon = "product"
            ops.append(("exp", lam, rev, inter, force, tol))
        ctx.equal(after, before, "inter-untouched",
                  f"computing products changed the interval matrices ({ops[-1]})")
        if inter:
            check_list(ctx, got, want, mon, f"product ({ops[-1]})", atol=5e-8 + slack)
        else:
            got = [got]
            ctx.close(got[0], want[-1], mon, f"last product ({ops[-1]})", atol=5e-8 + slack)
        for key, (obj, old) in kept.items():
            ctx.equal([M.tobytes() for M in mats(obj)], old, "earlier-untouched",
                      f"products of {key} changed by {ops[-1]}")
        key = ops[-1][:3] if ops[-1][0] == "lin" else ops[-1][:2]
        kept[key] = (got, [M.tobytes() for M in mats(got)])
        done.add(key)
        for T in got:
            T = dense(T)
            ctx.close(T.sum(1), np.ones(ev.n), "stochastic", "row sums", atol=1e-9)
            ctx.check((T >= -1e-10).all(), "stochastic", "negative probability")
            graphs.add(T.tobytes())
    if len(graphs) > 1:
        ctx.nontrivial(ev.rows(), ops)
