"""Workloads: temporal networks, matrices, partitions.

Everything is drawn from the generator of the case. The shapes are chosen to be
hostile to the code: ties, back-to-back events, nested and opposite overlapping
events of one pair, isolated nodes, unsorted input, awkward labels, windows that
fall between events or outside of them.
"""
import numpy as np
import scipy.sparse as sp

LABELS = ["range", "gaps", "negative", "strings", "numeric-strings", "floats", "tuples"]


def labels(rng, n, kind):
    """n distinct sortable labels in random order of appearance"""
    if kind == "range":
        lab = list(range(n))
    elif kind == "gaps":
        lab = [int(v) for v in rng.choice(50 * n, n, replace=False)]
    elif kind == "negative":
        lab = [int(v) - 10 * n for v in rng.choice(20 * n, n, replace=False)]
    elif kind == "strings":
        lab = [f"node {chr(97 + i % 26)}{'x' * (i // 26)}" for i in range(n)]
    elif kind == "numeric-strings":
        lab = [str(v) for v in rng.choice(200, n, replace=False)]
    elif kind == "floats":
        lab = [float(v) / 4 for v in rng.choice(50 * n, n, replace=False)]
    elif kind == "tuples":
        lab = [(int(v) % 3, int(v)) for v in rng.choice(50 * n, n, replace=False)]
    rng.shuffle(lab) if not isinstance(lab[0], tuple) else None
    return [x for x in lab]


class Events:
    """Events on nodes 0..n-1 (every node appears), in the order handed in"""

    def __init__(self, n, src, dst, start, end, kind):
        self.n, self.kind = n, kind
        self.src, self.dst, self.start, self.end = src, dst, start, end

    def __len__(self):
        return len(self.src)

    def rows(self):
        return list(zip(self.src, self.dst, self.start, self.end))

    def lists(self):
        return dict(source_nodes=list(self.src), target_nodes=list(self.dst),
                    starting_times=list(self.start), ending_times=list(self.end))

    def desc(self):
        return {"nodes": self.n, "events": len(self), "time_kind": self.kind,
                "first_rows": self.rows()[:12]}


TIME_KINDS = ["small-int", "wide-int", "float", "quarter", "epoch", "negative"]


def draw_times(rng, kind, m):
    """m (start, end) pairs, durations positive"""
    if kind == "small-int":
        s = rng.integers(0, 8, m)
        d = rng.integers(1, 5, m)
    elif kind == "wide-int":
        s = rng.integers(0, 300, m)
        d = rng.integers(1, 100, m)
    elif kind == "float":
        s = rng.random(m) * 10
        d = rng.random(m) * 3 + 1e-3
    elif kind == "quarter":
        s = rng.integers(0, 40, m) / 4
        d = rng.integers(1, 12, m) / 4
    elif kind == "epoch":
        s = 1_500_000_000 + 20 * rng.integers(0, 200, m)
        d = 20 * rng.integers(1, 20, m)
    elif kind == "negative":
        s = rng.integers(-12, 4, m) / 2
        d = rng.integers(1, 8, m) / 2
    conv = int if np.issubdtype(np.asarray(s).dtype, np.integer) else float
    return [conv(v) for v in s], [conv(a + b) for a, b in zip(s, d)]


def events(rng, nmax=9, emax=28, kinds=TIME_KINDS, disjoint=False, nmin=2):
    """Random events. disjoint: no two events of one pair overlap (also not in
    opposite directions)."""
    n = int(rng.integers(nmin, nmax + 1))
    m = int(rng.integers(max(1, n // 2), emax + 1))
    kind = str(rng.choice(kinds))
    few_pairs = rng.random() < 0.4
    pairs = None
    if few_pairs:
        pairs = [tuple(int(v) for v in rng.choice(n, 2, replace=False))
                 for _ in range(int(rng.integers(1, 4)))]
    src, dst = [], []
    for i in range(m):
        if pairs and rng.random() < 0.7:
            a, b = pairs[int(rng.integers(len(pairs)))]
            if rng.random() < 0.5:
                a, b = b, a
        else:
            a, b = (int(v) for v in rng.choice(n, 2, replace=False))
        src.append(a)
        dst.append(b)
    # every node takes part in an event
    missing = [v for v in range(n) if v not in set(src) | set(dst)]
    for v in missing:
        o = int(rng.integers(0, n - 1))
        o = o if o < v else o + 1
        if rng.random() < 0.5:
            src.append(v), dst.append(o)
        else:
            src.append(o), dst.append(v)
    m = len(src)
    start, end = draw_times(rng, kind, m)
    # back-to-back events, equal starts, nested events of the same pair
    for i in range(1, m):
        u = rng.random()
        j = int(rng.integers(0, i))
        d = end[i] - start[i]
        if u < 0.12:
            src[i], dst[i] = src[j], dst[j]
            start[i], end[i] = end[j], end[j] + d
        elif u < 0.2:
            start[i], end[i] = start[j], end[j]
        elif u < 0.26:
            start[i], end[i] = start[j], start[j] + d
    # the rewritten pairs may have lost a node
    for v in range(n):
        if v not in set(src) | set(dst):
            o = (v + 1) % n
            src.append(v), dst.append(o)
            s, e = draw_times(rng, kind, 1)
            start += s
            end += e
    if disjoint:
        last = {}
        keep = []
        order = sorted(range(len(src)), key=lambda i: (start[i], end[i]))
        for i in order:
            p = frozenset((src[i], dst[i]))
            if p in last and start[i] < last[p]:
                d = end[i] - start[i]
                start[i], end[i] = last[p], last[p] + d
            last[p] = max(end[i], last.get(p, end[i]))
            keep.append(i)
    mode = rng.random()
    order = list(range(len(src)))
    if mode < 0.5:
        order.sort(key=lambda i: (start[i], end[i]))
    elif mode < 0.8:
        rng.shuffle(order)
    return Events(n, [src[i] for i in order], [dst[i] for i in order],
                  [start[i] for i in order], [end[i] for i in order], kind)


def long_events(rng):
    """Few nodes, more than a thousand intervals"""
    n = int(rng.integers(2, 5))
    m = int(rng.integers(650, 700))
    src = rng.integers(0, n, m)
    dst = (src + rng.integers(1, n, m)) % n
    start = np.cumsum(rng.integers(1, 4, m)) / 4
    end = start + (2 * rng.integers(0, 20, m) + 1) / 8
    return Events(n, src.tolist(), dst.tolist(), start.tolist(), end.tolist(), "quarter")


def sized_events(rng, ctx, share=0.03, long=0., **kw):
    """events; now and then more nodes and events than the small cases have,
    or more times"""
    if rng.random() < long:
        ctx.feature("long")
        return long_events(rng)
    if rng.random() < share:
        ctx.feature("medium-size")
        kw.update(nmin=12, nmax=40, emax=60)
    return events(rng, **kw)


def big_events(rng, n, m, span=50):
    """A larger contact network with communities"""
    half = n // 2
    src, dst, start, end = [], [], [], []
    for i in range(m):
        if i < n:
            a, b = i, (i + 1) % n
        else:
            g = int(rng.integers(0, 2))
            if rng.random() < 0.9:
                lo, hi = (0, half) if g == 0 else (half, n)
                a, b = (int(v) for v in rng.choice(np.arange(lo, hi), 2, replace=False))
            else:
                a, b = (int(v) for v in rng.choice(n, 2, replace=False))
        s = float(rng.random() * span)
        src.append(a), dst.append(b), start.append(s)
        end.append(s + float(rng.random()) * 3 + 1e-2)
    return Events(n, src, dst, start, end, "float")


def crowd(rng, n, m=None, times=6):
    """Events among many nodes at few times: a matching covers them all"""
    o = rng.permutation(n)
    src, dst = o[:n // 2].tolist(), o[n // 2:2 * (n // 2)].tolist()
    if n % 2:
        src.append(int(o[-1]))
        dst.append(int(o[0]))
    for _ in range(m or n // 10):
        a, b = (int(v) for v in rng.integers(0, n, 2))
        if a != b:
            src.append(a)
            dst.append(b)
    start = [int(v) for v in rng.integers(0, times, len(src))]
    end = [s + int(d) for s, d in zip(start, rng.integers(1, 3, len(src)))]
    return Events(n, src, dst, start, end, "small-int")


def sparse_laplacian(rows, n, t):
    """random walk Laplacian of the events active at t"""
    p = {(min(a, b), max(a, b)) for a, b, s, e in rows if s <= t < e}
    r = np.array([a for a, _ in p] + [b for _, b in p], dtype=np.int64)
    c = np.array([b for _, b in p] + [a for a, _ in p], dtype=np.int64)
    A = sp.csr_matrix((np.ones(r.size), (r, c)), shape=(n, n))
    d = np.bincount(r, minlength=n).astype(float)
    inv = np.divide(1, d, out=np.zeros(n), where=d > 0)
    return sp.csr_matrix(sp.diags((d > 0).astype(float)) - sp.diags(inv) @ A), A


# ------------------------------------------------------------------ oracle
class Model:
    """What the events say, computed densely from the definitions"""

    def __init__(self, rows, n):
        self.rows, self.n = rows, n
        self.times = sorted(set([r[2] for r in rows] + [r[3] for r in rows]))

    def snap(self, t):
        """index of the largest event time <= t (0 when t is before all)"""
        k = 0
        for i, v in enumerate(self.times):
            if v <= t:
                k = i
        return k

    def window(self, t_start=None, t_stop=None):
        k0 = 0 if t_start is None else self.snap(t_start)
        k1 = len(self.times) - 1 if t_stop is None else self.snap(t_stop)
        return k0, k1

    def adjacency(self, k):
        A = np.zeros((self.n, self.n))
        t = self.times[k]
        for a, b, s, e in self.rows:
            if s <= t < e:
                A[a, b] = A[b, a] = 1
        return A

    def laplacian(self, k):
        return walk_laplacian(self.adjacency(k))

    def tau(self, k):
        return self.times[k + 1] - self.times[k]

    def inter_T(self, lam, k0, k1, fix_tau=False):
        if k1 <= k0:
            return [np.eye(self.n)]
        return [walk_expm(self.adjacency(k), lam * (1.0 if fix_tau else self.tau(k)))
                for k in range(k0, k1)]

    def inter_T_lin(self, lam, t_s, k0, k1, fix_tau=False):
        if k1 <= k0:
            return [np.eye(self.n)]
        res = []
        for k in range(k0, k1):
            A = self.adjacency(k)
            t = lam * (1.0 if fix_tau else self.tau(k))
            res.append(lin_approx(A, t, t_s))
        return res

    def default_lamda(self):
        return 1 / np.median(np.diff(self.times))


class InstModel(Model):
    """Instantaneous events: (a, b, t)"""

    def __init__(self, rows, n):
        ut = sorted(set(r[2] for r in rows))
        self.rows, self.n = rows, n
        self.times = ut + [ut[-1] + 1]

    def adjacency(self, k):
        A = np.zeros((self.n, self.n))
        for a, b, s in self.rows:
            if s == self.times[k]:
                A[a, b] = A[b, a] = 1
        return A


def walk_laplacian(A):
    d = A.sum(1)
    L = np.zeros_like(A)
    for i in range(A.shape[0]):
        if d[i] > 0:
            L[i] = -A[i] / d[i]
            L[i, i] += 1
    return L


def walk_expm(A, t):
    """expm(-t (I - D^-1 A)) through the eigenvectors of the symmetric form"""
    d = A.sum(1)
    on = d > 0
    n = A.shape[0]
    T = np.eye(n)
    if on.any():
        ix = np.flatnonzero(on)
        dd = np.sqrt(d[ix])
        Ls = np.eye(ix.size) - A[np.ix_(ix, ix)] / np.outer(dd, dd)
        w, v = np.linalg.eigh(Ls)
        E = (v * np.exp(-t * w)) @ v.T
        T[np.ix_(ix, ix)] = E * dd[None, :] / dd[:, None]
    return T


def components(A):
    """labels of the connected components of the undirected support of A"""
    n = A.shape[0]
    S = (A != 0) | (A.T != 0)
    lab = -np.ones(n, int)
    c = 0
    for i in range(n):
        if lab[i] < 0:
            stack = [i]
            lab[i] = c
            while stack:
                v = stack.pop()
                for w in np.flatnonzero(S[v]):
                    if lab[w] < 0:
                        lab[w] = c
                        stack.append(w)
            c += 1
    return lab


def stationary(A):
    """rows = degree / total degree within the component; isolated: itself"""
    n = A.shape[0]
    lab = components(A)
    Pi = np.zeros((n, n))
    deg = (A != 0).sum(1)
    for c in range(lab.max() + 1):
        ix = np.flatnonzero(lab == c)
        if ix.size == 1:
            Pi[ix[0], ix[0]] = 1
        else:
            Pi[np.ix_(ix, ix)] = deg[ix] / deg[ix].sum()
    return Pi


def discrete_T(A):
    return np.eye(A.shape[0]) - walk_laplacian(A)


def lin_approx(A, t, t_s):
    T = discrete_T(A)
    if t <= 1:
        return (1 - t) * np.eye(A.shape[0]) + t * T
    Pi = stationary(A)
    if t < t_s:
        return (T * (t - t_s) + Pi * (1 - t)) / (1 - t_s)
    return Pi


def draw_window(rng, times):
    """t_start, t_stop: unset, on an event time, between two, outside"""
    def one(allow_none=True):
        u = rng.random()
        if u < 0.3 and allow_none:
            return None
        i = int(rng.integers(0, len(times)))
        if u < 0.6:
            return times[i]
        if u < 0.8 and i + 1 < len(times):
            return (times[i] + times[i + 1]) / 2
        if u < 0.9:
            return times[0] - 1.5
        return times[-1] + 1.5
    a, b = one(), one()
    if a is not None and b is not None and a > b and rng.random() < 0.8:
        a, b = b, a
    return a, b


# ------------------------------------------------------------------ matrices
def stochastic(rng, n, density=0.5, sparse_rows=True):
    """dense row stochastic matrix with zeros"""
    M = rng.random((n, n)) * (rng.random((n, n)) < density)
    for i in range(n):
        if M[i].sum() == 0:
            M[i, i if rng.random() < 0.5 else int(rng.integers(n))] = 1
    if sparse_rows:
        for i in range(n):
            if rng.random() < 0.25:
                M[i] = 0
                M[i, i] = 1
    return M / M.sum(1, keepdims=True)


def prob(rng, n, zeros=False):
    p = rng.random(n) + 0.05
    if rng.random() < 0.08:     # many orders of magnitude
        p = 10 ** -(rng.random(n) * 7)
    if zeros and n > 2:
        p[rng.random(n) < 0.2] = 0
        if p.sum() == 0:
            p[0] = 1
    return p / p.sum()


def partition(rng, n, most=None):
    """list of sets covering 0..n-1"""
    k = int(rng.integers(1, min(n, most or n) + 1))
    lab = rng.integers(0, k, n)
    o = np.argsort(lab, kind="stable")
    cl = [set(x.tolist()) for x in np.split(o, np.cumsum(np.bincount(lab, minlength=k))[:-1])]
    cl = [c for c in cl if c]
    rng.shuffle(cl)
    return cl


def csr(M):
    return sp.csr_matrix(M)


def merged(rows):
    """union of the overlapping activity of every pair (touching events stay apart)"""
    by = {}
    for a, b, s, e in rows:
        by.setdefault((min(a, b), max(a, b)), []).append((s, e))
    res = []
    for (a, b), iv in by.items():
        iv.sort()
        cur = list(iv[0])
        for s, e in iv[1:]:
            if s < cur[1]:
                cur[1] = max(cur[1], e)
            else:
                res.append((a, b, *cur))
                cur = [s, e]
        res.append((a, b, *cur))
    return res


class Passes(np.random.RandomState):
    """counts the passes over the nodes (each one is in a new order)"""
    n = 0

    def shuffle(self, x):
        Passes.n += 1
        return super().shuffle(x)

    def permutation(self, x):
        n = Passes.n
        r = super().permutation(x)          # may shuffle in turn
        Passes.n = n + 1
        return r
