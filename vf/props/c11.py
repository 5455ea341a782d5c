"""C11: a partition always assigns each node to exactly one cluster"""
import numpy as np

from vf import gen
from vf.core import dense, short, snap

from flowstab.network_clustering import Partition

CASES = {"quick": 16000, "thorough": 400000}
RULE = ("a case is one initial partition (default, sets, dictionary; with empty clusters or "
        "unused numbers) and a history of moves, removals of empty clusters and queries, checked "
        "against a dictionary model after every step; distinct by start and history")
EXPECT = ["assignment", "clusters", "indicator-sparse", "indicator-dense", "iteration", "counts",
          "integrity-passes", "integrity-overlap", "integrity-missing", "both-forms-rejected",
          "numbers-consecutive", "order-kept", "move-to-same", "emptied", "refilled-empty",
          "start-default", "start-sets", "start-dict", "tuple-of-sets", "caller-dict-kept", "large"]


def observe(ctx, p, model, n, what):
    """model: list of sets"""
    got = [set(int(v) for v in c) for c in p.cluster_list]
    ctx.equal(got, model, "clusters", f"clusters after {what}")
    ctx.equal({int(k): int(v) for k, v in p.node_to_cluster_dict.items()},
              {v: i for i, c in enumerate(model) for v in c}, "assignment",
              f"node assignment after {what}")


def query(rng, ctx, p, model, n, what):
    k = len(model)
    q = int(rng.integers(6))
    if q == 0 and n * k > 10 ** 6:
        H = p.get_indicator(sparse=True).tocoo()
        ctx.equal(H.shape, (n, k), "indicator-sparse", f"shape after {what}")
        ctx.check(set(zip(H.row.tolist(), H.col.tolist()))
                  == {(v, i) for i, c in enumerate(model) for v in c} and H.nnz == n
                  and (H.data == 1).all(), "indicator-sparse", f"indicator matrix after {what}")
    elif q == 0:
        want = np.zeros((n, k), int)
        for i, c in enumerate(model):
            want[sorted(c), i] = 1
        sparse = bool(rng.random() < 0.5)
        H = p.get_indicator(sparse=sparse) if rng.random() < 0.7 or not sparse else \
            p.get_indicator()
        ctx.close(dense(H), want, "indicator-sparse" if sparse else "indicator-dense",
                  f"indicator matrix after {what}", atol=0)
        if not sparse:
            ctx.check(isinstance(H, np.ndarray), "indicator-dense", "type")
    elif q == 1:
        ctx.equal([sorted(int(v) for v in c) for c in p.iter_cluster_node_index()],
                  [sorted(c) for c in model], "iteration", f"iteration after {what}")
    elif q == 2:
        ctx.equal(p.get_num_clusters(), k, "counts", f"number of clusters after {what}")
        ctx.equal(p.get_num_clusters(non_empty=True), sum(1 for c in model if c), "counts",
                  f"number of non-empty clusters after {what}")
    elif q == 3:
        ctx.no_raise("integrity-passes", f"integrity check of {short(model)}", p.check_integrity)
    elif q == 4:
        ctx.check(str(n) in repr(p) and str(k) in repr(p), "counts", f"repr {p!r}")
    else:
        ctx.equal(p.num_nodes, n, "counts", "number of nodes")


def case(rng, ctx):
    n, steps = int(rng.integers(1, 13)), 25
    u = rng.random()
    if u > 0.997:
        # numbers beyond one and two bytes
        n, steps = int(rng.choice([300, 700, 35000])), 6
        ctx.feature("large")
    if u < 0.06:
        cl = gen.partition(rng, n)
        d = {v: i for i, c in enumerate(cl) for v in c}
        ctx.raises(ValueError, "both-forms-rejected", "clusters and dictionary given together",
                   Partition, n, cluster_list=cl, node_to_cluster_dict=d)
        return
    if u < 0.2 and n > 1:
        # invalid partitions are detected
        cl = [set(c) for c in gen.partition(rng, n)]
        if rng.random() < 0.5 and len(cl) > 1:
            # overlap; sometimes the sizes still add up
            i, j = (int(v) for v in rng.choice(len(cl), 2, replace=False))
            v = int(rng.choice(sorted(cl[i])))
            cl[j].add(v)
            if rng.random() < 0.5:
                other = [w for c in cl for w in c if w != v]
                if other:
                    w = int(rng.choice(other))
                    for c in cl:
                        c.discard(w)
            mon = "integrity-overlap"
        else:
            i = int(rng.integers(len(cl)))
            cl[i].discard(int(rng.choice(sorted(cl[i]))))
            mon = "integrity-missing"
        bad = [set(c) for c in cl]
        if rng.random() < 0.5:
            ctx.raises(ValueError, mon, f"partition {bad} of {n} nodes", Partition, n,
                       cluster_list=cl, check_integrity=True)
        else:
            p = Partition(n, cluster_list=cl)
            ctx.raises(ValueError, mon, f"partition {bad} of {n} nodes", p.check_integrity)
        return
    v = rng.random()
    if n > 1000:
        v = 0.3 + 0.7 * v
    integ = bool(rng.random() < 0.5)
    if v < 0.25:
        ctx.feature("start-default")
        p = Partition(n, check_integrity=integ)
        model = [{i} for i in range(n)]
    elif v < 0.65:
        ctx.feature("start-sets")
        model = gen.partition(rng, n, 300)
        given = [set(c) for c in model]
        for _ in range(int(rng.integers(0, 3))):
            given.insert(int(rng.integers(len(given) + 1)), set())
        if rng.random() < 0.3:
            given = tuple(given)
            ctx.feature("tuple-of-sets")
        p = Partition(n, cluster_list=given, check_integrity=integ)
    else:
        ctx.feature("start-dict")
        k = int(rng.integers(1, min(n + 3, 300)))
        d = {int(i): int(rng.integers(k)) for i in rng.permutation(n)}
        b = snap(d)
        p = Partition(n, node_to_cluster_dict=d, check_integrity=integ)
        model = [set() for c in range(k)]
        for i in d:
            model[d[i]].add(i)
        model = [c for c in model if c]
        observe(ctx, p, model, n, "construction from a dictionary")
        for _ in range(3):
            if len(model) > 1:
                node = int(rng.integers(n))
                c = int(rng.integers(len(model)))
                if node not in model[c]:
                    p.move_node(node, c)
                    for q in model:
                        q.discard(node)
                    model[c].add(node)
        ctx.equal(snap(d), b, "caller-dict-kept", "dictionary of the caller")
    observe(ctx, p, model, n, "construction")
    start = [sorted(c) for c in model] if n < 100 else f"{len(model)} clusters of {n}"
    hist = []
    for _ in range(int(rng.integers(1, steps))):
        if rng.random() < 0.2:
            p.remove_empty_clusters()
            model = [c for c in model if c]
            hist.append("remove-empty")
            ctx.equal(sorted(set(p.node_to_cluster_dict.values())), list(range(len(model))),
                      "numbers-consecutive", f"after {hist}")
            ctx.check([set(c) for c in p.cluster_list] == model, "order-kept",
                      f"order of clusters after {hist}")
        else:
            node, c = int(rng.integers(n)), int(rng.integers(len(model)))
            if node in model[c]:
                ctx.feature("move-to-same")
            elif not model[c]:
                ctx.feature("refilled-empty")
            p.move_node(node, c)
            for q in model:
                q.discard(node)
            model[c].add(node)
            if any(not q for q in model):
                ctx.feature("emptied")
            hist.append((node, c))
        observe(ctx, p, model, n, f"{hist} from {start}")
        query(rng, ctx, p, model, n, f"{hist} from {start}")
    ctx.describe(n=n, start=start, history=hist)
    ctx.nontrivial(start, hist)
