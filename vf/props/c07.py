"""C07: the sparse covariance matrix answers like the dense covariance"""
import numpy as np
import scipy.sparse as sp

from vf import gen
from vf.core import dense, snap

from flowstab.sparse_stoch_mat import SparseAutocovMat

CASES = {"quick": 10000, "thorough": 80000}
RULE = ("a case is one covariance built from a drawn transition matrix and probabilities and "
        "queried, moved and aggregated through a drawn history, every answer compared with "
        "the dense matrix; distinct by matrix and constructor")
EXPECT = ["value", "submat-sum", "element", "row-sum", "col-sum", "aggregate", "moveto",
          "moveout", "copy", "sources-untouched", "from_T", "from_T_forward", "direct",
          "zero-covariance", "scalar-p", "array-p", "empty-row", "dense-branch", "sparse-branch", "singletons",
          "large", "large-300"]
ASSUMPTIONS = ["p1 and p2 are probability vectors (aggregation renormalises them)",
               "PT is symmetric where the caller says so"]


def build(rng, ctx, n):
    T = gen.stochastic(rng, n, float(rng.choice([0.15, 0.4, 1.0])))
    u = rng.random()
    zeros = bool(rng.random() < 0.3)
    p1 = gen.prob(rng, n, zeros) if rng.random() < 0.7 else None
    p2 = None
    if u < 0.4:
        ctx.feature("from_T")
        Tc = sp.csr_matrix(T)
        if rng.random() < 0.3:
            p2 = gen.prob(rng, n)
        a1 = np.full(n, 1 / n) if p1 is None else p1
        a2 = a1 @ T if p2 is None else p2
        S = SparseAutocovMat.from_T(Tc, p1=p1, p2=p2)
        want = np.diag(a1) @ T - np.outer(a1, a2)
        ctx.close(Tc, T, "sources-untouched", "T", atol=0)
        kind = "from_T"
    elif u < 0.75:
        ctx.feature("from_T_forward")
        Tc = sp.csr_matrix(T)
        a1 = np.full(n, 1 / n) if p1 is None else p1
        if rng.random() < 0.3:
            p2 = gen.prob(rng, n)
        a2 = a1 @ T if p2 is None else p2
        inv = np.divide(1, a2, out=np.ones(n), where=a2 != 0)
        S = SparseAutocovMat.from_T_forward(Tc, p1=p1, p2=p2)
        want = np.diag(a1) @ T @ np.diag(inv) @ T.T @ np.diag(a1) - np.outer(a1, a1)
        ctx.close(Tc, T, "sources-untouched", "T", atol=0)
        ctx.feature("scalar-p" if p1 is None else "array-p")
        kind = "from_T_forward"
    else:
        ctx.feature("direct")
        PT = T * gen.prob(rng, n)[:, None]
        sym = bool(rng.random() < 0.5)
        if rng.random() < 0.4 and n > 1:
            PT[int(rng.integers(n))] = 0
            ctx.feature("empty-row")
        if sym:
            PT = (PT + PT.T) / 2
        if rng.random() < 0.3:
            S = SparseAutocovMat(sp.csr_matrix(PT), 1 / n, 1 / n, PT_symmetric=sym)
            want = PT - 1 / n ** 2
            ctx.feature("scalar-p")
        else:
            a1, a2 = gen.prob(rng, n), gen.prob(rng, n)
            S = SparseAutocovMat(sp.csr_matrix(PT), a1, a2, PT_symmetric=sym)
            want = PT - np.outer(a1, a2)
            ctx.feature("array-p")
        kind = "direct"
    if p1 is not None and kind != "direct":
        ctx.close(p1, a1, "sources-untouched", "p1", atol=0)
    return S, want, kind


def idx(rng, n, empty=False):
    k = int(rng.integers(0 if empty else 1, n + 1))
    return rng.choice(n, k, replace=False).astype(np.int32)


def large(rng, ctx):
    """many nodes, few stored values: the answers come from the formula PT - p1 p2^T"""
    n = int(rng.choice([300, 1500, 40000, 70000]))
    ctx.feature("large-300" if n < 1000 else "large")
    # a chain over all nodes and some values anywhere
    m = int(rng.integers(5, 200))
    r = np.concatenate([np.arange(n), rng.integers(0, n, m)])
    c = np.concatenate([np.roll(np.arange(n), 1), rng.integers(0, n, m)])
    T = sp.csr_matrix((rng.random(r.size) + 0.1, (r, c)), shape=(n, n))
    T = sp.csr_matrix(sp.diags(1 / np.asarray(T.sum(1)).ravel()) @ T)
    p1 = gen.prob(rng, n)
    if rng.random() < 0.6:
        p2 = p1 @ T
        S = SparseAutocovMat.from_T(T.copy(), p1=p1.copy())
        PT, q1, q2 = sp.csr_matrix(sp.diags(p1) @ T), p1, p2
        kind = "from_T"
    else:
        p2 = p1 @ T
        S = SparseAutocovMat.from_T_forward(T.copy(), p1=p1.copy())
        PT = sp.csr_matrix(sp.diags(p1) @ T @ sp.diags(1 / p2) @ T.T @ sp.diags(p1))
        q1 = q2 = p1
        kind = "from_T_forward"
    ctx.describe(n=n, kind=kind)

    def idx():
        k = int(rng.choice([1, 5, 300, n // 2]))
        return rng.choice(n, min(k, n), replace=False).astype(np.int32)
    cols = PT.tocsc()
    for step in range(6):
        a, b = idx(), idx()
        want = PT[a][:, b].sum() - q1[a].sum() * q2[b].sum()
        # ends and dense spots, not only the middle
        i = int(rng.choice([0, n - 1, int(rng.integers(n))]))
        j = int(PT.indices[PT.indptr[i]]) if rng.random() < 0.7 else int(rng.integers(n))
        op = int(rng.integers(4))
        if op == 0:
            ctx.close(S.get_submat_sum(a, b), want, "submat-sum", f"{a.size} x {b.size} of {n}",
                      atol=1e-11)
        elif op == 1:
            ctx.close(S.get_element(i, j), PT[i, j] - q1[i] * q2[j], "element", f"({i}, {j})",
                      atol=1e-13)
        elif op == 2:
            ctx.close(S.get_row_idx_sum(i, a), PT[i][:, a].sum() - q1[i] * q2[a].sum(),
                      "row-sum", f"row {i} of {n}", atol=1e-12)
            ctx.close(S.get_col_idx_sum(i, a), cols[:, i][a].sum() - q1[a].sum() * q2[i],
                      "col-sum", f"column {i} of {n}", atol=1e-12)
        elif hasattr(S, "_compute_delta_S_moveto"):
            o = np.sort(a[a != i]).astype(np.int32)
            if o.size:
                got = S._compute_delta_S_moveto(i, o)
                w = (PT[i][:, o].sum() + cols[:, i][o].sum() + PT[i, i]
                     - q1[i] * q2[o].sum() - q1[o].sum() * q2[i] - q1[i] * q2[i])
                ctx.close(got, w, "moveto", f"node {i} of {n}", atol=1e-12)
    lab = rng.integers(0, int(rng.choice([2, 40, 290])), n)
    lab = np.unique(lab, return_inverse=True)[1].ravel()
    k = int(lab.max()) + 1
    o = np.argsort(lab, kind="stable")
    cl = [x.tolist() for x in np.split(o, np.cumsum(np.bincount(lab))[:-1])]
    H = sp.csr_matrix((np.ones(n), (np.arange(n), lab)), shape=(n, k))
    want = (H.T @ PT @ H).toarray() - np.outer(H.T @ q1, H.T @ q2)
    ctx.close(S.aggregate(cl), want, "aggregate", f"{n} nodes in {k} clusters", atol=1e-11)
    ctx.nontrivial(kind, n, p1[:5].tobytes())


def case(rng, ctx):
    if rng.random() < 0.005:
        return large(rng, ctx)
    n = int(rng.integers(2, 12))
    if rng.random() < 0.03:
        n = int(rng.integers(25, 60))
    S, want, kind = build(rng, ctx, n)
    ctx.describe(n=n, kind=kind)
    ctx.close(S, want, "value", kind, atol=1e-12)
    if rng.random() < 0.3:
        # no covariance at all: the two ends of the walk are independent
        a1, a2 = gen.prob(rng, n), gen.prob(rng, n)
        if rng.random() < 0.3:
            Z = SparseAutocovMat(sp.csr_matrix(np.full((n, n), n ** -2.)), 1 / n, 1 / n)
        else:
            Z = SparseAutocovMat.from_T(sp.csr_matrix(np.tile(a2, (n, 1))), p1=a1)
        ctx.check(bool(Z.is_all_zeros()), "zero-covariance", "independent ends, not all zero")
        if np.abs(want[dense(S.PT) != 0]).max(initial=0) > 3e-6 / n ** 2:
            ctx.check(not S.is_all_zeros(), "zero-covariance",
                      f"said to be all zero: {want}")
        # little covariance: the walk almost forgets its start
        eps = float(rng.choice([1e-10, 1e-5, 1e-4, 1e-3]))
        T = (1 - eps) * np.tile(a2, (n, 1)) + eps * gen.stochastic(rng, n)
        W = np.diag(a1) @ T - np.outer(a1, a1 @ T)
        Z = SparseAutocovMat.from_T(sp.csr_matrix(T), p1=a1)
        if np.abs(W).max() > 3e-6 / n ** 2:
            ctx.check(not Z.is_all_zeros(), "zero-covariance", f"said to be all zero: {W}")
        elif np.abs(W).max() < 1e-7 / n ** 2:
            ctx.check(bool(Z.is_all_zeros()), "zero-covariance", f"not said to be zero: {W}")
    for step in range(int(rng.integers(2, 8))):
        n = want.shape[0]
        op = int(rng.integers(0, 7))
        if op == 0:
            r, c = idx(rng, n), idx(rng, n)
            ctx.close(S.get_submat_sum(r, c), want[np.ix_(r, c)].sum(), "submat-sum",
                      f"rows {r}, columns {c}", atol=1e-11)
        elif op == 1:
            for _ in range(4):
                i, j = (int(v) for v in rng.integers(0, n, 2))
                ctx.close(S.get_element(i, j), want[i, j], "element", f"({i}, {j})", atol=1e-12)
        elif op == 2:
            i, c = int(rng.integers(n)), idx(rng, n, True)
            ctx.close(S.get_row_idx_sum(i, c.tolist() if rng.random() < .5 and c.size else c),
                      want[i, c].sum(), "row-sum", f"row {i}, {c}", atol=1e-11)
            ctx.close(S.get_col_idx_sum(i, c), want[c, i].sum(), "col-sum", f"col {i}, {c}",
                      atol=1e-11)
        elif op in (3, 4) and hasattr(S, "_compute_delta_S_moveto"):
            k = int(rng.integers(n))
            c = idx(rng, n)
            out = c[c != k].astype(np.int32)
            got = S._compute_delta_S_moveto(k, out)
            ctx.close(got, want[k, out].sum() + want[out, k].sum() + want[k, k], "moveto",
                      f"node {k} to {out}", atol=1e-11)
            inn = np.append(out, k).astype(np.int32)
            rng.shuffle(inn)
            got = S._compute_delta_S_moveout(k, inn)
            ctx.close(got, -want[k, inn].sum() - want[inn, k].sum() + want[k, k], "moveout",
                      f"node {k} out of {inn}", atol=1e-11)
        elif op == 5:
            C = S.copy()
            ctx.close(C, want, "copy", "copy", atol=1e-12)
            C.PT.data *= 3
            ctx.close(S, want, "copy", "a copy shares its values with the original", atol=1e-12)
        elif op == 6:
            cl = [sorted(c) for c in gen.partition(rng, n)]
            if rng.random() < 0.2:
                cl = [[i] for i in rng.permutation(n).tolist()]
                ctx.feature("singletons")
            PT = getattr(S, "PT", None)
            if PT is not None:
                ctx.feature("dense-branch" if len(cl) ** 2 < PT.nnz else "sparse-branch")
            A = S.aggregate(cl)
            agg = np.array([[want[np.ix_(a, b)].sum() for b in cl] for a in cl])
            ctx.close(A, agg, "aggregate", f"aggregated by {cl}", atol=1e-11)
            ctx.close(S, want, "sources-untouched", "the aggregated matrix", atol=1e-12)
            if rng.random() < 0.7:
                S, want = A, agg
    ctx.nontrivial(kind, want.tobytes())
