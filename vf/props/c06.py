"""C06: the compressed stochastic matrix behaves like the full matrix it stands for"""
import pickle

import numpy as np
import scipy.sparse as sp

from vf import gen
from vf.core import dense

from flowstab.sparse_stoch_mat import SparseStochMat, inplace_csr_row_normalize

CASES = {"quick": 6000, "thorough": 60000}
RULE = ("a case is one history of constructions and operations on a pool of compressed "
        "matrices, each shadowed by its dense value; after every operation the result and "
        "all pool members are compared with their shadows; distinct by initial matrices "
        "and operations")
EXPECT = ["value", "operands-untouched", "op-add", "op-sub", "op-matmul", "op-scale", "op-rscale",
          "op-transpose", "op-copy", "op-dict", "op-add_diag", "op-sub_diag", "op-normalize",
          "op-zeroes", "op-dense-left", "op-dense-right", "op-csr-right", "op-csr-left",
          "new-full", "new-small", "new-diag", "disjoint-supports", "empty-support",
          "full-support", "unsorted-rowcols", "diag-not-one", "in-place", "large", "large-300",
          "near-diagonal"]


def new(rng, ctx, n):
    """a compressed matrix and its dense value"""
    k = int(rng.choice([0, 1, 2, n // 2, n - 1, n])) if rng.random() < 0.6 else \
        int(rng.integers(0, n + 1))
    k = max(0, min(k, n))
    d = 1.0 if rng.random() < 0.6 else float(rng.choice([0.0, -1.0, 0.5, 2.0, 1 + 1e-6]))
    if d != 1.0:
        ctx.feature("diag-not-one")
    rows = np.sort(rng.choice(n, k, replace=False)).astype(np.int64)
    small = gen.stochastic(rng, k, float(rng.choice([0.1, 0.5, 1.0]))) if k else np.zeros((0, 0))
    if k and rng.random() < 0.3:
        small = small * rng.choice([-1, 1, 1], small.shape)
    if k and rng.random() < 0.3:
        small[int(rng.integers(k))] = 0     # an empty row
    if k > 1 and rng.random() < 0.08:
        # hardly anything off the diagonal: a very short interval or a very slow rate
        ctx.feature("near-diagonal")
        small = np.eye(k) * d + (small - np.diag(small.sum(1))) * 10.0 ** -int(rng.integers(6, 12))
    full = np.eye(n) * d
    if k:
        full[np.ix_(rows, rows)] = small
    if k == 0:
        ctx.feature("empty-support")
    if k == n:
        ctx.feature("full-support")
    u = rng.random()
    if k == 0 and u < 0.5:
        ctx.feature("new-diag")
        return SparseStochMat.create_diag(n, diag_val=d), full
    if u < 0.5:
        ctx.feature("new-full")
        S = sp.csr_matrix(full)
        return SparseStochMat.from_full_csr_matrix(
            S, nz_rowcols=rows if rng.random() < 0.5 else None, diag_val=d), full
    perm = np.arange(k)
    if rng.random() < 0.4 and k > 1:
        perm = rng.permutation(k)
        ctx.feature("unsorted-rowcols")
    Ts = sp.csr_matrix(small[np.ix_(perm, perm)]) if k else sp.csr_matrix((0, 0))
    ctx.feature("new-small")
    if rng.random() < 0.5:
        return SparseStochMat.from_small_csr_matrix(n, Ts, rows[perm], diag_val=d), full
    return SparseStochMat(n, Ts.data, Ts.indices, Ts.indptr, rows[perm], diag_val=d), full


def same(ctx, got, want, monitor, message):
    """like ctx.close, without the full matrices"""
    G = sp.csr_matrix(got.tocsr() if hasattr(got, "tocsr") else got)
    if G.shape != want.shape:
        ctx.fail(monitor, f"{message}: shape {G.shape}, expected {want.shape}")
    d = abs(G - want).tocoo()
    bad = ~(d.data <= 1e-9)
    ctx.check(not bad.any(), monitor,
              lambda: f"{message}: {int(bad.sum())} values differ, first at "
              f"({d.row[bad][0]}, {d.col[bad][0]})")


def large(rng, ctx):
    """many nodes, few of them stored: indices and counts beyond one and two bytes"""
    n = int(rng.choice([300, 1500, 40000, 70000]))
    ctx.feature("large-300" if n < 1000 else "large")
    pool = []
    for _ in range(3):
        k = int(rng.integers(1, 60)) if n > 1000 or rng.random() < 0.5 else \
            int(rng.integers(200, n + 1))
        rows = rng.choice(n, k, replace=False).astype(np.int64)
        if rng.random() < 0.7:
            rows.sort()
        small = gen.stochastic(rng, k, float(rng.choice([0.1, 0.5, 1.0])))
        d = float(rng.choice([1.0, 1.0, 0.5]))
        rest = np.ones(n) * d
        rest[rows] = 0
        M = sp.coo_matrix(small)
        full = (sp.csr_matrix((M.data, (rows[M.row], rows[M.col])), shape=(n, n))
                + sp.diags(rest, format="csr")).tocsr()
        if rng.random() < 0.5:
            S = SparseStochMat.from_full_csr_matrix(full.copy(), diag_val=d)
        else:
            S = SparseStochMat.from_small_csr_matrix(n, sp.csr_matrix(small), rows, diag_val=d)
        same(ctx, S, full, "value", f"constructed, {n} nodes, {k} stored")
        pool.append((S, full))
    ops = []
    for _ in range(int(rng.integers(2, 6))):
        op = str(rng.choice(["add", "sub", "matmul", "scale", "transpose", "copy", "pickle",
                             "add_diag", "csr-right", "vector", "full"]))
        i, j = (int(v) for v in rng.integers(0, len(pool), 2))
        (A, a), (B, b) = pool[i], pool[j]
        ops.append((op, i, j))
        out = None
        if op == "add":
            out = A + B, a + b
        elif op == "sub":
            out = A - B, a - b
        elif op == "matmul":
            out = A @ B, a @ b
        elif op == "scale":
            out = A * 0.5, a * 0.5
        elif op == "transpose":
            out = A.transpose(copy=True), sp.csr_matrix(a.T)
        elif op == "copy":
            out = A.copy(), a.copy()
        elif op == "pickle":
            out = pickle.loads(pickle.dumps(A)), a.copy()
        elif op == "add_diag":
            out = A.add_diag(0.5), a + 0.5 * sp.identity(n, format="csr")
        elif op == "csr-right":
            same(ctx, sp.csr_matrix(A @ b), a @ b, "value", "product with a csr matrix")
        elif op == "vector":
            x = rng.random(n)
            ctx.close(np.asarray(A @ x).ravel(), a @ x, "value", "product with a vector")
            ctx.close(np.asarray(x @ A).ravel(), a.T @ x, "value", "product with a vector")
        else:
            same(ctx, A.to_full_mat(), a, "value", "full matrix")
            same(ctx, A.tocsr(), a, "value", "csr matrix")
        if out is not None:
            same(ctx, out[0], sp.csr_matrix(out[1]), "value", f"{op} ({i}, {j}), {n} nodes")
            pool.append((out[0], sp.csr_matrix(out[1])))
        for q, (S, v) in enumerate(pool):
            same(ctx, S, v, "operands-untouched", f"pool member {q} after {op} ({i}, {j})")
    ctx.describe(size=n, operations=ops)
    ctx.nontrivial(n, pool[0][1].indices.tobytes(), ops)


def case(rng, ctx):
    if rng.random() < 0.01:
        return large(rng, ctx)
    n = int(rng.integers(1, 13))
    if rng.random() < 0.03:
        n = int(rng.integers(30, 80))
    pool = [new(rng, ctx, n) for _ in range(int(rng.integers(2, 5)))]
    start = [v.tobytes() for _, v in pool]
    for i, (S, v) in enumerate(pool):
        ctx.close(S, v, "value", f"constructed matrix {i}", atol=1e-15)
    ops, shared, keep = [], set(), []
    names = ["add", "sub", "matmul", "scale", "rscale", "transpose", "copy", "dict", "add_diag",
             "sub_diag", "normalize", "zeroes", "dense-left", "dense-right", "csr-right",
             "csr-left", "full", "new", "pickle"]
    for step in range(int(rng.integers(2, 10))):
        op = str(rng.choice(names))
        i, j = (int(v) for v in rng.integers(0, len(pool), 2))
        (A, a), (B, b) = pool[i], pool[j]
        ctx.feature("op-" + op)
        ops.append((op, i, j))
        scal = float(rng.choice([0.0, -1.0, 0.5, 3.0, 1 - 1e-6]))
        out = None
        # in place on the member itself, unless it may share memory with another one
        here = bool(op in ("normalize", "zeroes") and rng.random() < 0.5
                    and id(A) not in shared)
        if op == "add":
            out = A + B, a + b
        elif op == "sub":
            out = A - B, a - b
        elif op == "matmul":
            out = A @ B, a @ b
        elif op == "scale":
            out = A * scal, a * scal
        elif op == "rscale":
            s = int(scal) if rng.random() < 0.5 else scal
            out = s * A, s * a
        elif op == "transpose":
            out = (A.T if rng.random() < 0.5 else A.transpose(copy=True)), a.T.copy()
        elif op == "copy":
            out = A.copy(), a.copy()
        elif op == "dict":
            out = SparseStochMat(**A.to_dict()), a.copy()
        elif op == "pickle":
            out = pickle.loads(pickle.dumps(A)), a.copy()
        elif op == "add_diag":
            out = A.add_diag(scal), a + scal * np.eye(n)
        elif op == "sub_diag":
            out = A.sub_diag(scal), a - scal * np.eye(n)
        elif op == "normalize":
            # a copy is normalised; rows that sum to 0 are left alone, the rows outside
            # the stored part become row_sum on the diagonal
            s = float(rng.choice([1.0, 0.5, 2.0]))
            C = A if here else A.copy()
            stored = set(int(v) for v in C.nz_rowcols)
            c = a.copy()
            amb = False
            for r in range(n):
                if r not in stored:
                    c[r] = 0
                    c[r, r] = s
                else:
                    t = c[r].sum()
                    if t != 0 and abs(t) < 1e-9 * max(1, np.abs(c[r]).sum()):
                        amb = True      # rounding decides whether the sum is 0
                    if t != 0:
                        c[r] = c[r] / (t / s)
            if amb or any(abs(a[r].sum()) < 1e-9 for r in stored):
                continue
            if rng.random() < 0.5:
                C.inplace_row_normalize(row_sum=s)
            else:
                inplace_csr_row_normalize(C, row_sum=s)
            out = C, c
        elif op == "zeroes":
            C = A if here else A.copy()
            use_abs = bool(rng.random() < 0.5)
            tol = float(rng.choice([1e-8, 0.05, 0.3]))
            ix = np.asarray(C.nz_rowcols, dtype=int)
            sub = a[np.ix_(ix, ix)]
            vals = sub[sub != 0]
            if vals.size == 0:
                continue
            # a stored explicit zero does not move the largest absolute value
            thr = tol * np.abs(sub).max()
            if (np.abs(np.abs(vals) - thr) < 1e-9).any():
                continue
            C.set_to_zeroes(tol, relative=True, use_absolute_value=use_abs)
            new_sub = sub.copy()
            new_sub[(np.abs(sub) if use_abs else sub) <= thr] = 0
            c = a.copy()
            c[np.ix_(ix, ix)] = new_sub
            out = C, c
        elif op in ("dense-left", "dense-right", "csr-right", "csr-left"):
            o = np.round(rng.normal(size=(n, n)), 2)
            X = o.copy() if op.startswith("dense") else sp.csr_matrix(o)
            left = op.endswith("left")
            f = ["+", "-", "@"][int(rng.integers(3))]
            vec = op.startswith("dense") and f == "@" and rng.random() < 0.3
            if vec:
                X = o = o[0].copy()
            if op == "csr-left" and f != "@":
                f = "@"
            l, r = (X, A) if left else (A, X)
            lv, rv = (o, a) if left else (a, o)
            got = l + r if f == "+" else l - r if f == "-" else l @ r
            want = lv + rv if f == "+" else lv - rv if f == "-" else lv @ rv
            ctx.close(np.asarray(dense(got)), want, "value", f"{f} with {op}", atol=1e-9)
            ctx.close(X, o, "operands-untouched", "the other operand", atol=0)
        elif op == "full":
            for F in (A.to_full_mat(), A.tocsr()):
                ctx.close(F, a, "value", "full matrix", atol=1e-9)
                ctx.equal(tuple(F.shape), (n, n), "value", "shape of the full matrix")
        elif op == "new":
            out = new(rng, ctx, n)
        if op in ("add", "sub", "matmul") and \
                not set(map(int, A.nz_rowcols)) & set(map(int, B.nz_rowcols)):
            ctx.feature("disjoint-supports")
        if op in ("transpose", "dict"):
            keep.append((A, out[0]))
            shared.update((id(A), id(out[0])))
        if here and out is not None:
            ctx.feature("in-place")
            pool[i] = out
            out = None
        if out is not None:
            big = np.abs(out[1]).max() if n else 0
            if not np.isfinite(big) or big > 1e6:
                continue
            ctx.close(out[0], out[1], "value", f"result of {op} (operands {i}, {j})",
                      atol=1e-9 * max(1.0, big))
            ctx.equal(tuple(out[0].shape), (n, n), "value", f"shape of {op}")
            if len(pool) < 8:
                pool.append(out)
            else:
                pool[int(rng.integers(len(pool)))] = out
        for q, (S, v) in enumerate(pool):
            ctx.close(S, v, "operands-untouched", f"pool member {q} after {op} ({i}, {j})",
                      atol=1e-9 * max(1.0, np.abs(v).max()))
    ctx.describe(size=n, operations=ops)
    ctx.nontrivial(n, start, ops)
