"""C21: matrix helpers compute what they state, in place where stated"""
import numpy as np
import scipy.sparse as sp

from vf import gen
from vf.core import Skip, dense, snap

from flowstab import sparse_stoch_mat as ssm
from flowstab import temporal_network as tn
from flowstab.sparse_stoch_mat import SparseStochMat

CASES = {"quick": 9000, "thorough": 150000}
RULE = ("a case is one helper applied to one drawn matrix (format, index type, shape, empty rows, "
        "signs), compared with its dense definition; distinct by helper, options and matrix")
EXPECT = ["normalize", "normalize-array", "normalize-zero", "normalize-csc", "normalize-ssm",
          "normalize-type", "normalize-scaled", "set_to_zeroes", "set_to_zeroes-abs", "set_to_zeroes-absolute-tol",
          "set_to_zeroes-none", "set_to_zeroes-ssm", "set_to_ones", "csc_row_normalize",
          "spectral-gap", "remove", "rebuild", "numpy-rebuild", "round-trip", "outer-triu",
          "outer-full", "matmul", "gram", "gram-transposed", "scale-columns", "scale-rows",
          "pruned", "in-place", "int64-indices", "csc", "csr", "empty-rows", "explicit-zeros",
          "unsorted", "rectangular", "covariance-kernel", "covariance-kernel-forward",
          "triu-normalize", "inverted-iterator", "large", "large-sparse"]
ASSUMPTIONS = ["row normalisation is specified for rows whose sum is not lost in rounding",
               "values within one part in 10^9 of a threshold may fall on either side"]


def draw(rng, ctx, n=None, m=None, signed=False, fmt=None, square=True):
    big = rng.random() < 0.01
    if n is None:
        n = int(rng.integers(1, 12)) if not big else int(rng.integers(260, 330))
    if m is None:
        m = n if square or rng.random() < 0.5 else int(rng.integers(1, 12))
    if n > 255:
        ctx.feature("large")
    if m != n:
        ctx.feature("rectangular")
    dens = float(rng.choice([0.1, 0.3, 0.7, 1.0]))
    D = np.where(rng.random((n, m)) < dens, rng.random((n, m)) + 0.01, 0)
    if signed:
        D *= rng.choice([-1, 1], (n, m))
    if rng.random() < 0.3:
        D *= 10.0 ** rng.integers(-6, 3)
    if rng.random() < 0.4:
        D[int(rng.integers(n))] = 0
        ctx.feature("empty-rows")
    fmt = str(rng.choice(["csr", "csc"])) if fmt is None else fmt
    M = sp.csr_matrix(D) if fmt == "csr" else sp.csc_matrix(D)
    ctx.feature(fmt)
    if rng.random() < 0.25 and M.nnz:
        # stored zeros
        k = int(rng.integers(M.nnz))
        M.data[k] = 0
        D = M.toarray()
        ctx.feature("explicit-zeros")
    if rng.random() < 0.25 and M.nnz:
        for i in range(M.indptr.size - 1):
            s = slice(M.indptr[i], M.indptr[i + 1])
            p = rng.permutation(s.stop - s.start)
            M.indices[s], M.data[s] = M.indices[s][p], M.data[s][p]
        M.has_sorted_indices = False
        ctx.feature("unsorted")
    if rng.random() < 0.25:
        M.indices, M.indptr = M.indices.astype(np.int64), M.indptr.astype(np.int64)
        ctx.feature("int64-indices")
    return M, D


def rows_to(D, want, stored=None):
    """rows scaled to the sums `want`; a sum of 0: the mean of the stored values removed"""
    D = D.copy()
    for i in range(D.shape[0]):
        s = D[i].sum()
        if s == 0:
            continue
        if want[i] == 0:
            k = stored[i]
            D[i, k] -= s / len(k)
        else:
            D[i] *= want[i] / s
    return D


def normalize(rng, ctx):
    signed = bool(rng.random() < 0.3)
    fmt = "csr" if rng.random() < 0.8 else "csc"
    M, D = draw(rng, ctx, signed=signed, fmt=fmt, square=False)
    X, W = (M, D) if fmt == "csr" else (M.T, D.T)     # a CSC matrix: its columns
    s = np.array([sum(D[i]) if fmt == "csr" else sum(D[:, i]) for i in range(W.shape[0])])
    if (np.abs(s) < 1e-6 * np.abs(W).sum(1)).any() and signed:
        raise Skip
    if rng.random() < 0.1:
        f = float(rng.choice([1e-15, 1e-11, 1e-6, 1e8]))       # a small sum is not an empty row
        M.data *= f
        D, W = D * f, W * f
        ctx.feature("normalize-scaled")
    stored = [M.indices[M.indptr[i]:M.indptr[i + 1]] for i in range(W.shape[0])]
    u = rng.random()
    data = M.data
    if fmt == "csr" and u < 0.35:
        w = rng.random(W.shape[0]) + 0.1
        w[rng.random(w.size) < 0.2] = 0
        ssm.inplace_csr_row_normalize(M, w)
        ctx.feature("normalize-array")
    else:
        w0 = float(rng.choice([1.0, 1.0, 0.0, 2.5, -1.0]))
        w = np.full(W.shape[0], w0)
        if w0 == 0:
            ctx.feature("normalize-zero")
        ssm.inplace_csr_row_normalize(M, w0)
    want = rows_to(W, w, stored)
    got = dense(M) if fmt == "csr" else dense(M).T
    sc = max(1.0, np.abs(W).max() if W.size else 1)
    ctx.close(got, want, "normalize" if fmt == "csr" else "normalize-csc",
              f"rows of {D.tolist()} normalised to {w.tolist()} ({fmt})", atol=1e-10 * sc)
    ctx.check(M.data is data, "in-place", "the values are another array than before")


def normalize_other(rng, ctx):
    if rng.random() < 0.3:
        M, D = draw(rng, ctx)
        for bad, w in ((M.tocoo(), 1.0), (M.tocsr(), "1"), (D, 1.0)):
            ctx.raises((TypeError,), "normalize-type", "unusable argument",
                       ssm.inplace_csr_row_normalize, bad, w)
        return
    n = int(rng.integers(1, 10))
    k = int(rng.integers(0, n + 1))
    rows = np.sort(rng.choice(n, k, replace=False))
    Ts = gen.stochastic(rng, k, 0.5) * float(rng.choice([1, 0.3])) if k else np.zeros((0, 0))
    S = SparseStochMat.from_small_csr_matrix(n, sp.csr_matrix(Ts), rows, diag_val=0.7)
    full = np.eye(n) * 0.7
    full[np.ix_(rows, rows)] = Ts
    w = float(rng.choice([1.0, 0.4]))
    ssm.inplace_csr_row_normalize(S, w)
    ctx.close(S, rows_to(full, np.full(n, w)), "normalize-ssm", "compressed matrix", atol=1e-10)


def zeroes(rng, ctx):
    signed = bool(rng.random() < 0.5)
    M, D = draw(rng, ctx, signed=signed, square=False)
    if M.nnz and rng.random() < 0.7:
        M.data *= 10.0 ** rng.integers(-9, 1, M.data.size)
        D = dense(M).copy()
    tol = [None, 0.0, 1e-8, 1e-3, 0.2][int(rng.integers(5))]
    rel, ab = bool(rng.random() < 0.6), bool(rng.random() < 0.5)
    kw = dict(relative=rel, use_absolute_value=ab)
    ssm_ = M.shape[0] == M.shape[1] and rng.random() < 0.25
    if ssm_:
        n = M.shape[0] + int(rng.integers(0, 3))
        rows = np.sort(rng.choice(n, M.shape[0], replace=False))
        X = SparseStochMat.from_small_csr_matrix(n, M.tocsr(), rows)
        ctx.feature("set_to_zeroes-ssm")
    else:
        X = M
    tn.set_to_zeroes(X, tol, **kw)
    got = dense(X.T_small) if ssm_ else dense(X)
    want = D.copy()
    if tol is not None and M.nnz + np.count_nonzero(D):
        t = tol * np.abs(D).max() if rel else tol
        key = np.abs(D) if ab else D
        edge = np.abs(key - t) <= 1e-9 * abs(t)
        stored_only = (D != 0)
        want[(key <= t) & stored_only] = 0
        if t > 0 and edge.any():
            raise Skip
    else:
        ctx.feature("set_to_zeroes-none")
    name = "set_to_zeroes-abs" if ab else "set_to_zeroes"
    ctx.close(got, want, name, f"values not above {tol} ({kw}) of {D.tolist()}", atol=0, rtol=0)
    if not rel:
        ctx.feature("set_to_zeroes-absolute-tol")
    if tol is not None:
        s = X.T_small if ssm_ else X
        ctx.check((s.data != 0).all(), "pruned", "zeros are still stored")


def ones(rng, ctx):
    M, D = draw(rng, ctx, square=False)
    M.data[rng.random(M.data.size) < 0.6] = 1
    M.data += 10.0 ** rng.integers(-12, -1, M.data.size) * rng.choice([-1, 1, 0], M.data.size)
    D = dense(M).copy()
    tol = float(rng.choice([1e-8, 1e-4, 1e-2]))
    if (np.abs(np.abs(D - 1) - tol) < 1e-6 * tol).any():
        raise Skip
    tn.set_to_ones(M, tol)
    want = np.where((np.abs(D - 1) <= tol), 1.0, D)
    ctx.close(M, want, "set_to_ones", f"tolerance {tol} of {D.tolist()}", atol=0, rtol=0)


def csc_norm(rng, ctx):
    signed = bool(rng.random() < 0.4)
    M, D = draw(rng, ctx, square=False, signed=signed)
    if signed and (np.abs(D.sum(1)) < 1e-6 * np.abs(D).sum(1)).any():
        raise Skip
    if rng.random() < 0.2:
        f = float(rng.choice([1e-15, 1e-11, 1e8]))
        M.data *= f
        D = D * f
        ctx.feature("csc-normalize-scaled")
    before = snap(M)
    R = tn.csc_row_normalize(M)
    ctx.close(R, rows_to(D, np.ones(D.shape[0])), "csc_row_normalize", "rows", atol=1e-12)
    ctx.check(sp.issparse(R) and R.format == "csc", "csc_row_normalize", "not in CSC format")
    ctx.equal(snap(M), before, "csc_row_normalize", "the argument was modified")


def gap(rng, ctx):
    n = int(rng.integers(3, 12))
    A = np.zeros((n, n))
    for i in range(1, n):
        j = int(rng.integers(i))
        A[i, j] = A[j, i] = 1
    extra = rng.random((n, n)) < rng.choice([0.0, 0.2, 0.8])
    A = np.maximum(A, np.triu(extra, 1) + np.triu(extra, 1).T)
    if n == A.shape[0] and (A.sum(1) == n - 1).all() and n < 3:
        raise Skip
    d = A.sum(1)
    L = np.eye(n) - A / d[:, None]
    Ls = sp.csr_matrix(L) if rng.random() < 0.5 else sp.csc_matrix(L)
    ev = np.sort(np.linalg.eigvals(L).real)
    g = tn.find_spectral_gap(Ls)
    ctx.close(np.ravel(g)[0], ev[1], "spectral-gap", f"gap of {A.tolist()}", atol=1e-7)


def rebuild(rng, ctx):
    n = int(rng.integers(1, 12))
    k = int(rng.integers(0, n + 1))
    rows = np.sort(rng.choice(n, k, replace=False)).astype(np.int64)
    Ts = sp.csr_matrix(np.where(rng.random((k, k)) < 0.5, rng.random((k, k)), 0))
    d = float(rng.choice([1.0, 0.0, -0.5]))
    want = np.eye(n) * d
    want[np.ix_(rows, rows)] = Ts.toarray()
    if k:
        ctx.close(ssm.rebuild_nnz_rowcol(Ts, rows, n, d), want, "rebuild",
                  f"rows {rows} of {n}, diagonal {d}", atol=0)
    zero = np.setdiff1d(np.arange(n), rows)
    data, ind, ptr, nr = tn.numpy_rebuild_nnz_rowcol(Ts.data, Ts.indices, Ts.indptr, zero)
    want1 = np.eye(n)
    want1[np.ix_(rows, rows)] = Ts.toarray()
    ctx.equal(nr, n, "numpy-rebuild", "number of rows")
    ctx.close(sp.csr_matrix((data, ind, ptr), shape=(n, n)), want1, "numpy-rebuild",
              f"rows {rows} of {n}", atol=0)
    # removal and reinsertion
    F = np.zeros((n, n))
    F[np.ix_(rows, rows)] = Ts.toarray()
    M = sp.csr_matrix(F) if rng.random() < 0.5 else sp.csc_matrix(F)
    small, nz, size = tn.remove_nnz_rowcol(M)
    keep = np.flatnonzero((F != 0).any(0) | (F != 0).any(1))
    ctx.equal(list(map(int, nz)), keep.tolist(), "remove", "kept rows")
    ctx.equal(size, n, "remove", "size")
    ctx.close(small, F[np.ix_(keep, keep)], "remove", "values", atol=0)
    if len(keep):
        B = F + np.diag([0.0 if i in keep else 1.0 for i in range(n)])
        ctx.close(ssm.rebuild_nnz_rowcol(sp.csr_matrix(small), nz, size, 1.0), B, "round-trip",
                  "removed and reinserted", atol=0)


def outer(rng, ctx):
    n = int(rng.integers(2, 14))
    p = rng.random(n)
    p[rng.random(n) < 0.4] = 0
    if not p.any():
        p[int(rng.integers(n))] = 0.5
    P = sp.csr_matrix(p[None, :])
    full = np.outer(p, p)
    triu = bool(rng.random() < 0.5)
    mkl = bool(rng.random() < 0.5)
    O = ssm.sparse_outer(P, use_mkl=mkl, triu=triu)
    if triu:
        ctx.close(np.triu(dense(O)), np.triu(full), "outer-triu", f"p={p.tolist()}", atol=1e-12)
        ctx.close(np.tril(dense(O), -1), np.zeros((n, n)), "outer-triu", "lower part", atol=0)
    elif mkl and ssm.USE_SPARSE_DOT_MKL:
        # only the upper triangle is specified
        ctx.close(np.triu(dense(O)), np.triu(full), "outer-full", f"p={p.tolist()}", atol=1e-12)
    else:
        ctx.close(O, full, "outer-full", f"p={p.tolist()}", atol=1e-12)


def products(rng, ctx):
    n, m, q = (int(v) for v in rng.integers(1, 10, 3))
    if rng.random() < 0.03:
        m = int(rng.integers(260, 400))
    A, a = draw(rng, ctx, n, m, fmt="csr", signed=True)
    B, b = draw(rng, ctx, m, q, fmt="csr", signed=True)
    for X in (A, B):
        X.indices, X.indptr = X.indices.astype(np.int32), X.indptr.astype(np.int32)
    before = snap((A, B))
    sc = 1 + np.abs(a).max() * np.abs(b).max()
    ctx.close(ssm.sparse_matmul(A, B), a @ b, "matmul", "product", atol=1e-11 * sc)
    sc = 1 + np.abs(a).max() ** 2
    for t, want in ((True, a @ a.T), (False, a.T @ a)):
        if A.nnz == 0:
            continue
        G = dense(ssm.sparse_gram_matrix(A, transpose=t))
        name = "gram-transposed" if t else "gram"
        if ssm.USE_SPARSE_DOT_MKL:
            G, want = np.triu(G), np.triu(want)
        ctx.close(G, want, name, "Gram matrix", atol=1e-11 * sc)
    ctx.equal(snap((A, B)), before, "matmul", "the factors were modified")


def scale(rng, ctx):
    M, D = draw(rng, ctx, signed=True, square=False)
    col = bool(rng.random() < 0.5)
    k = D.shape[1] if col else D.shape[0]
    if k < 2:
        raise Skip
    v = rng.random(k) - 0.3
    data = M.data
    if rng.random() < 0.3:
        v = v[None, :] if rng.random() < 0.5 else v[:, None]
    x = v.ravel()
    if col:
        ssm.inplace_csr_matmul_diag(M, v)
        ctx.close(M, D * x[None, :], "scale-columns", f"{M.format} {D.shape}", atol=1e-12)
    else:
        ssm.inplace_diag_matmul_csr(M, v)
        ctx.close(M, D * x[:, None], "scale-rows", f"{M.format} {D.shape}", atol=1e-12)
    ctx.check(M.data is data, "in-place", "the values are another array than before")


def covariance(rng, ctx):
    """the native covariance kernels"""
    try:
        import _cython_fast_funcs as ff
    except ImportError:
        raise Skip
    n = int(rng.integers(1, 9))
    T = gen.stochastic(rng, n, 0.7)
    p, q = gen.prob(rng, n), gen.prob(rng, n)
    f, g = getattr(ff, "compute_S", None), getattr(ff, "compute_S_0t0", None)
    if f is not None:
        ctx.close(f(p, q, T), p[:, None] * T - np.outer(p, q), "covariance-kernel", "", atol=1e-13)
    if g is not None:
        pt = p @ T
        if (pt > 0).all():
            ctx.close(g(p, pt, T), np.diag(p) @ T @ np.diag(1 / pt) @ T.T @ np.diag(p)
                      - np.outer(p, p), "covariance-kernel-forward", "", atol=1e-12)


def triu(rng, ctx):
    """upper triangle of a symmetric matrix scaled to given row sums"""
    try:
        import _cython_sparse_stoch as ss
    except ImportError:
        raise Skip
    f = getattr(ss, "cython_inplace_csr_row_normalize_triu", None)
    if f is None:
        raise Skip
    n = int(rng.integers(1, 8))
    p = gen.prob(rng, n)
    # diagonally dominant: the scaled values stay positive
    A = np.diag(rng.random(n) + 3) + (lambda m: m + m.T)(np.triu(rng.random((n, n)), 1) * 0.1)
    U = sp.csr_matrix(np.triu(A))
    want = np.triu(A)
    f(U.data, U.indptr.astype(np.int64), U.indices.astype(np.int64), n, n, p)
    R = U.toarray()
    F = R + R.T - np.diag(np.diag(R))
    ctx.close(F.sum(1), p, "triu-normalize", "row sums of the symmetric matrix", atol=1e-9)
    ctx.check((np.tril(R, -1) == 0).all() and ((R != 0) == (want != 0)).all(), "triu-normalize",
              "other elements than before")


def inverted(rng, ctx):
    from flowstab.helpers import inverted_iterator
    v = [None if rng.random() < 0.3 else float(rng.random() + 0.01) for _ in range(6)]
    ctx.equal(list(inverted_iterator(iter(v))), [None if x is None else 1. / x for x in v],
              "inverted-iterator", f"{v}")


def large(rng, ctx):
    """few values among many rows"""
    n = int(rng.choice([300, 1500, 40000, 70000]))
    ctx.feature("large-sparse")
    k = int(rng.integers(1, min(n, 400)))
    rows = np.sort(rng.choice(n, k, replace=False)).astype(np.int64)
    Ts = sp.csr_matrix(sp.random(k, k, 0.1, random_state=int(rng.integers(2 ** 31)))
                       + sp.identity(k) * 0.3)
    C = Ts.tocoo()
    F = sp.csr_matrix((C.data, (rows[C.row], rows[C.col])), shape=(n, n))
    rest = np.ones(n)
    rest[rows] = 0

    def same(got, want, mon, what):
        got = sp.csr_matrix(got)
        ctx.check(got.shape == want.shape and not abs(got - want).max() > 1e-12, mon,
                  f"{what}: {k} of {n} rows")
    same(ssm.rebuild_nnz_rowcol(Ts, rows, n, 1.0), F + sp.diags(rest), "rebuild", "rebuilt")
    same(ssm.rebuild_nnz_rowcol(Ts, rows, n, 0.5), F + sp.diags(rest) * 0.5, "rebuild",
         "rebuilt, other diagonal")
    data, ind, ptr, nr = tn.numpy_rebuild_nnz_rowcol(Ts.data, Ts.indices, Ts.indptr,
                                                     np.flatnonzero(rest))
    ctx.equal(nr, n, "numpy-rebuild", "number of rows")
    same(sp.csr_matrix((data, ind, ptr), shape=(n, n)), F + sp.diags(rest), "numpy-rebuild",
         "rebuilt")
    M = F.copy() if rng.random() < 0.5 else F.tocsc()
    small, nz, size = tn.remove_nnz_rowcol(M)
    ctx.equal((list(map(int, nz)), int(size)), (rows.tolist(), n), "remove", "kept rows")
    same(small, Ts, "remove", "kept values")
    G = F.copy()
    ssm.inplace_csr_row_normalize(G)
    s = np.asarray(F.sum(1)).ravel()
    same(G, sp.diags(np.divide(1, s, out=np.zeros(n), where=s > 0)) @ F, "normalize", "rows")
    v = rng.random(n)
    G = F.copy()
    ssm.inplace_csr_matmul_diag(G, v)
    same(G, F @ sp.diags(v), "scale-columns", "columns")
    G = F.copy()
    ssm.inplace_diag_matmul_csr(G, v)
    same(G, sp.diags(v) @ F, "scale-rows", "rows")
    G = F.copy()
    tn.set_to_zeroes(G, 0.5, relative=False)
    W = F.copy()
    W.data[W.data <= 0.5] = 0
    same(G, W, "set_to_zeroes", "small values")
    same(ssm.sparse_matmul(F, F), sp.csr_matrix(F @ F), "matmul", "product")


PICK = [(large, 0.15), (normalize, 5), (normalize_other, 1), (zeroes, 5), (ones, 1), (csc_norm, 1), (gap, 1),
        (rebuild, 4), (outer, 2), (products, 2), (scale, 3), (covariance, 1), (triu, 1),
        (inverted, 0.3)]


def case(rng, ctx):
    w = np.array([x for _, x in PICK], dtype=float)
    f = PICK[int(rng.choice(len(PICK), p=w / w.sum()))][0]
    state = rng.bit_generator.state["state"]["state"]
    ctx.describe(helper=f.__name__)
    f(rng, ctx)
    ctx.nontrivial(f.__name__, state)
