"""C12: partition comparison measures obey their definition"""
from itertools import combinations

import numpy as np

from vf import gen
from vf.core import snap

from flowstab.network_clustering import Partition, avg_norm_var_information, \
    jaccard_distance, norm_mutual_information, norm_var_information, sort_clusters

CASES = {"quick": 14000, "thorough": 300000}
RULE = ("a case is two to five partitions of one set of nodes (random, refinements, equal up to "
        "order, extreme), each in a drawn representation; measures are recomputed from a "
        "contingency table and the metric laws are checked; distinct by partitions")
EXPECT = ["nvi", "nmi", "jaccard", "symmetric", "in-range", "identity", "triangle",
          "representation", "average", "average-sample", "sorting-permutes", "sorting-matches",
          "inputs-untouched", "refinement", "permuted-clusters", "labels", "unused-numbers", "N-given", "lists-of-lists",
          "large", "exchanged"]
ASSUMPTIONS = ["at least two nodes; mutual information of two one-cluster partitions (0/0) is "
               "outside the domain"]


def entropy(p):
    p = np.asarray(p, float)
    p = p[p > 0]
    return float(-(p * np.log2(p)).sum())


def table(a, b, nodes):
    n = len(nodes)
    la = {v: i for i, c in enumerate(a) for v in c}
    lb = {v: i for i, c in enumerate(b) for v in c}
    M = np.zeros((len(a), len(b)))
    for v in nodes:
        M[la[v], lb[v]] += 1
    return M / n


def nvi(a, b, nodes):
    M = table(a, b, nodes)
    h1, h2, h = entropy(M.sum(1)), entropy(M.sum(0)), entropy(M.ravel())
    return (2 * h - h1 - h2) / np.log2(len(nodes))


def nmi(a, b, nodes):
    M = table(a, b, nodes)
    h1, h2, h = entropy(M.sum(1)), entropy(M.sum(0)), entropy(M.ravel())
    if max(h1, h2) < 1e-12:
        return None
    return (h1 + h2 - h) / max(h1, h2)


def jacc(a, b, nodes):
    la = {v: i for i, c in enumerate(a) for v in c}
    lb = {v: i for i, c in enumerate(b) for v in c}
    s = d = 0
    for x, y in combinations(nodes, 2):
        p, q = la[x] == la[y], lb[x] == lb[y]
        s += p and q
        d += p != q
    return d / (s + d) if s + d else 0.0


def rep(rng, ctx, cl, nodes, allowed):
    """one representation of the partition"""
    cl = [set(c) for c in cl]
    rng.shuffle(cl)
    kind = str(rng.choice(allowed))
    if kind == "sets":
        return cl
    if kind == "lists":
        ctx.feature("lists-of-lists")
        return [list(c) for c in cl]
    if kind == "dict":
        num = list(range(len(cl)))
        if rng.random() < 0.4:
            num = [int(v) for v in rng.choice(3 * len(cl) + 2, len(cl), replace=False)]
            ctx.feature("unused-numbers")
        d = {v: num[i] for i, c in enumerate(cl) for v in c}
        ks = list(d)
        rng.shuffle(ks)
        return {k: d[k] for k in ks}
    return Partition(len(nodes), cluster_list=cl)


def draw(rng, ctx, n, base):
    u = rng.random()
    if base is None or u < 0.4:
        return gen.partition(rng, n)
    if u < 0.55:
        ctx.feature("permuted-clusters")
        cl = [set(c) for c in base]
        rng.shuffle(cl)
        return cl
    if u < 0.7:
        ctx.feature("refinement")
        out = []
        for c in base:
            c = sorted(c)
            k = int(rng.integers(1, len(c) + 1))
            lab = rng.integers(0, k, len(c))
            out += [set(v for v, l in zip(c, lab) if l == q) for q in range(k)]
        return [c for c in out if c]
    if u < 0.75 and len(base) > 1:
        # two nodes exchanged: the same sizes, nearly the same clusters
        ctx.feature("exchanged")
        cl = [set(c) for c in base]
        i, j = (int(v) for v in rng.choice(len(cl), 2, replace=False))
        x, y = int(rng.choice(sorted(cl[i]))), int(rng.choice(sorted(cl[j])))
        cl[i] ^= {x, y}
        cl[j] ^= {x, y}
        return cl
    if u < 0.85:
        cl = [set(c) for c in base]
        v = int(rng.integers(n))
        for c in cl:
            c.discard(v)
        j = int(rng.integers(len(cl) + 1))
        if j == len(cl):
            cl.append({v})
        else:
            cl[j].add(v)
        return [c for c in cl if c]
    if u < 0.92:
        return [set(range(n))]
    return [{i} for i in range(n)]


def kernels(rng, ctx, a, b, n, want):
    """the native variants of the same measure"""
    try:
        import _cython_fast_funcs as native
    except ImportError:
        return
    l1, l2 = [set(q) for q in a], [set(q) for q in b]
    v1, v2 = ([np.array(rng.permutation(sorted(q)), dtype=np.int32) for q in x] for x in (a, b))
    for name, args in (("cython_nvi_vectors", (v1, v2, n)), ("cython_nvi_mat", (l1, l2, n)),
                       ("cython_nvi_parallel", (l1, l2, n, int(rng.integers(1, 4))))):
        f = getattr(native, name, None)
        if f is not None:
            ctx.close(f(*args), want, "native-variants", f"{name} of {l1} and {l2}", atol=1e-9)


def large(rng, ctx):
    """more nodes and clusters than one or two bytes count"""
    n = int(rng.choice([300, 550, 1500, 40000, 70000]))
    ctx.feature("large")
    most = int(rng.choice([3, 40, 290]))
    la, lb = (np.unique(rng.integers(0, most, n), return_inverse=True)[1].ravel()
              for _ in range(2))
    if rng.random() < 0.3:
        lb = la * 2 + rng.integers(0, 2, n)         # a refinement
        lb = np.unique(lb, return_inverse=True)[1].ravel()

    def sets(lab):
        o = np.argsort(lab, kind="stable")
        return [set(x.tolist()) for x in np.split(o, np.cumsum(np.bincount(lab))[:-1])]
    a, b = sets(la), sets(lb)
    M = np.zeros((len(a), len(b)))
    np.add.at(M, (la, lb), 1)
    h1, h2, h = entropy(M.sum(1) / n), entropy(M.sum(0) / n), entropy(M.ravel() / n)
    kinds = ["sets", "dict", "partition"]
    nodes = range(n)
    got = norm_var_information(rep(rng, ctx, a, nodes, kinds), rep(rng, ctx, b, nodes, kinds))
    ctx.close(got, (2 * h - h1 - h2) / np.log2(n), "nvi", f"{n} nodes, {len(a)} and {len(b)} "
              "clusters", atol=1e-9)
    if len(a) * len(b) < 2000:
        m = norm_mutual_information(rep(rng, ctx, a, nodes, kinds),
                                    rep(rng, ctx, b, nodes, kinds))
        if max(h1, h2) > 1e-9:
            ctx.close(m, (h1 + h2 - h) / max(h1, h2), "nmi", f"{n} nodes", atol=1e-9)
    if n < 1000:
        both = (M * (M - 1)).sum()
        one = (M.sum(1) * (M.sum(1) - 1)).sum() + (M.sum(0) * (M.sum(0) - 1)).sum() - both
        ctx.close(jaccard_distance(a, b), 1 - both / one, "jaccard", f"{n} nodes", atol=1e-12)
    out = sort_clusters([set(q) for q in a], [set(q) for q in b])
    ctx.equal(sorted(map(sorted, out)), sorted(map(sorted, a)), "sorting-permutes",
              f"{len(a)} clusters of {n} nodes")
    ctx.describe(n=n, a=len(a), b=len(b), nvi=got)
    ctx.nontrivial(n, la.tobytes()[:200], lb.tobytes()[:200])


def case(rng, ctx):
    if rng.random() < 0.003:
        return large(rng, ctx)
    n = int(rng.integers(2, 16)) if rng.random() < 0.9 else int(rng.integers(16, 80))
    a = draw(rng, ctx, n, None)
    b = draw(rng, ctx, n, a)
    c = draw(rng, ctx, n, b)
    nodes = list(range(n))
    ren = None
    if rng.random() < 0.3:
        ren = gen.labels(rng, n, str(rng.choice(["gaps", "strings", "negative"])))
        ctx.feature("labels")
        a, b, c = ([{ren[v] for v in q} for q in x] for x in (a, b, c))
        nodes = ren
    same = sorted(map(sorted, a)) == sorted(map(sorted, b))
    full = ["sets", "lists", "dict"] + ([] if ren else ["partition"])
    x, y = rep(rng, ctx, a, nodes, full), rep(rng, ctx, b, nodes, full)
    bx, by = snap(x), snap(y)
    want = nvi(a, b, nodes)
    kw = {}
    if rng.random() < 0.4:
        kw["N"] = n
        ctx.feature("N-given")
    got = norm_var_information(x, y, **kw)
    ctx.close(got, want, "nvi", f"variation of information of {x} and {y}", atol=1e-9)
    ctx.close(norm_var_information(y, x, **kw), got, "symmetric", "variation of information",
              atol=1e-9)
    ctx.check(-1e-12 <= got <= 1 + 1e-9, "in-range", f"variation of information {got}")
    ctx.check((abs(got) < 1e-9) == same, "identity", f"variation of information of "
              f"{'equal' if same else 'different'} partitions is {got}")
    z = rep(rng, ctx, c, nodes, full)
    ctx.check(norm_var_information(x, z) <= got + norm_var_information(y, z) + 1e-9, "triangle",
              "variation of information breaks the triangle inequality")
    l1, l2 = [set(q) for q in a], [set(q) for q in b]
    ctx.close(norm_var_information(l1, l2, n, use_clust_list=True), want, "representation",
              "cluster lists", atol=1e-9)
    if ren is None:
        kernels(rng, ctx, a, b, n, want)
    w = nmi(a, b, nodes)
    if w is not None:
        m = norm_mutual_information(x, y)
        ctx.close(m, w, "nmi", f"mutual information of {x} and {y}", atol=1e-9)
        ctx.close(norm_mutual_information(y, x), m, "symmetric", "mutual information", atol=1e-9)
        ctx.check(-1e-9 <= m <= 1 + 1e-9, "in-range", f"mutual information {m}")
        if same:
            ctx.close(m, 1.0, "identity", "mutual information of equal partitions", atol=1e-9)
    p = [q for q in ("sets", "lists", "dict")]
    xj, yj = rep(rng, ctx, a, nodes, p), rep(rng, ctx, b, nodes, p)
    j = jaccard_distance(xj, yj)
    ctx.close(j, jacc(a, b, nodes), "jaccard", f"Jaccard distance of {xj} and {yj}", atol=1e-12)
    ctx.close(jaccard_distance(yj, xj), j, "symmetric", "Jaccard distance", atol=1e-12)
    ctx.check(0 <= j <= 1, "in-range", f"Jaccard distance {j}")
    if same:
        ctx.close(j, 0.0, "identity", "Jaccard distance of equal partitions", atol=1e-12)
    if n > 2:
        ctx.check(jaccard_distance(xj, [set(q) for q in c])
                  <= j + jaccard_distance(yj, [set(q) for q in c]) + 1e-12, "triangle",
                  "Jaccard distance breaks the triangle inequality")
    ctx.equal((snap(x), snap(y)), (bx, by), "inputs-untouched", "compared partitions")
    # average over pairs
    many = [[set(q) for q in r] for r in (a, b, c)]
    if rng.random() < 0.4:
        many += [[set(q) for q in a]]
    vals = [nvi(p1, p2, nodes) for p1, p2 in combinations(many, 2)]
    ctx.close(avg_norm_var_information(many), np.mean(vals), "average", "average over all pairs",
              atol=1e-9)
    k = int(rng.integers(1, len(vals) + 3))
    av = avg_norm_var_information(many, num_samples=k)
    if k >= len(vals):
        ctx.close(av, np.mean(vals), "average", f"{k} samples of {len(vals)} pairs", atol=1e-9)
    else:
        means = [np.mean(s) for s in combinations(vals, k)]
        ctx.check(min(abs(av - m) for m in means) < 1e-9, "average-sample",
                  f"{av} is not the mean of {k} different pairs of {vals}")
    # sorting
    L = [set(q) for q in a]
    rng.shuffle(L)
    model = [set(q) for q in b]
    bl = snap((L, model))
    out = sort_clusters(L, model, **({} if rng.random() < 0.7 else
                                     {"thresh_ratio": float(rng.choice([0.05, 0.5, 1.0]))}))
    ctx.equal(sorted(map(sorted, out)), sorted(map(sorted, L)), "sorting-permutes",
              f"clusters {L} sorted after {model}")
    ctx.equal(snap((L, model)), bl, "inputs-untouched", "sorted clusters")
    if same:
        ctx.equal([sorted(q) for q in out], [sorted(q) for q in model], "sorting-matches",
                  "order of the model")
    if rng.random() < 0.2 and len(model) > 1:
        # a model that covers only part of the nodes: clusters without overlap are kept
        out = sort_clusters(L, model[:1])
        ctx.equal(sorted(map(sorted, out)), sorted(map(sorted, L)), "sorting-permutes",
                  f"clusters {L} sorted after {model[:1]}")
    ctx.describe(n=n, a=[sorted(q) for q in a], b=[sorted(q) for q in b], nvi=got, jaccard=j)
    ctx.nontrivial(sorted(map(sorted, a)), sorted(map(sorted, b)))
