"""C20: the command line pipeline computes what the library computes"""
import glob
import hashlib
import itertools
import os
import re
import pickle
import shutil

import numpy as np
import pandas as pd
from scipy.linalg import expm
from scipy.sparse import csr_matrix

from vf import gen
from vf.cli import run, tail
from vf.core import Skip, Violation, dense
from vf.net import check_list

import flowstab.network_clustering  # noqa: F401  (loaded before the scripts are forked)
from flowstab.temporal_network import ContTempNetwork
import hickle  # noqa: F401

CASES = {"quick": 135, "thorough": 2600}
RULE = ("a case is one drawn network taken through the three scripts with drawn options and "
        "numbers of processes in a scratch directory; every written file is compared with the "
        "dense model of its content, and one step is run again on the files of a cut of its "
        "recorded write order (an interruption) or on all of them; a part of the cases give the "
        "clustering step larger integrals, with or without their own initial distribution; "
        "distinct by events and options")
EXPECT = ["step1-files", "inter", "inter-lin", "slice-T", "slice-T-lin", "slice-times", "tiling",
          "flow-int", "static-adjacency", "step2-files", "integral", "integration-time",
          "triangular", "step3-files", "partition", "stability", "best", "nvi", "counter",
          "averages", "components", "resume1", "resume2", "resume3", "repeat", "batches",
          "sparse-stoch", "plain", "compressed", "delta", "dense-expm", "skip-intervals",
          "net-slices", "tmp-results", "only-largest", "separate", "nproc-clustering",
          "from-start", "from-finish", "start-finish", "one-interval", "int-list",
          "save-intermediate", "num-points", "odd-tau", "rtol", "rtol-step2", "no-normalize", "static-given",
          "several-taus", "empty-slice", "unconnected",
          "extended", "other-net", "static-own", "given-integral", "init-p1", "init-backward",
          "merge-optimal", "zero-probability", "more-than-ten-nodes"]
ASSUMPTIONS = ["an interruption falls between two writes of files (a cut of the recorded write "
               "order); a file is never half written",
               "waiting times of one run differ in their first four digits (file names)"]

NAMES = ["tempnet", "tempnet", "net_1", "my_work", "a.b", "x_intra"]


def files(d):
    return sorted(os.listdir(d))


def digest(d):
    res = {}
    for f in files(d):
        with open(os.path.join(d, f), "rb") as fh:
            res[f] = hashlib.sha1(fh.read()).hexdigest()
    return res


def cut(rng, src, dst, gaps=False):
    """an interruption: the first files in the order in which they were written"""
    order = sorted(files(src), key=lambda f: os.stat(os.path.join(src, f)).st_mtime_ns)
    if len(order) < 2:
        return None
    k = int(rng.integers(1, len(order)))
    # rather between two files that belong together, or with partial results at the end
    half = [i + 1 for i, f in enumerate(order[:-1])
            if "temp_integration" in f or ("_trans_mat" in f and "inter_trans_mat" not in f
                                           and "reversed" not in f)]
    u = rng.random()
    if half and u < 0.4:
        k = int(rng.choice(half))
    kept = order[:k]
    slices = sorted({m.group() for m in (re.search(r"_int\d{6}_", f) for f in order) if m})
    if slices and (u > 0.6 or gaps):
        # one of several workers did not finish its slice
        s = str(rng.choice(slices))
        own = [f for f in order if s in f]
        j = 1 if rng.random() < 0.6 else int(rng.integers(1, len(own) + 1))
        gone = own[len(own) - j:]
        if gaps or rng.random() < 0.4:  # or some of its files were removed
            # (a flow integral is not looked for, it comes before its transition matrix)
            own = [f for f in own if "_flow_int" not in f]
            gone = [own[i] for i in rng.choice(len(own), min(j, len(own)), replace=False)]
        kept = [f for f in order if f not in gone]
    os.makedirs(dst)
    for f in kept:
        shutil.copy2(os.path.join(src, f), dst)
    return kept


def cut_group(rng, src, dst):
    """the integrals from one start were not finished"""
    groups = {}
    for f in files(src):
        m = re.match(r"(.*_PT_(?:lin_)?)(\d{6})_to_(\d{6})\.pickle", f)
        if m:
            a, b = int(m.group(2)), int(m.group(3))
            groups.setdefault((m.group(1), a, b > a), []).append((abs(b - a), f))
    groups = {k: sorted(v) for k, v in groups.items() if len(v) > 1}
    if not groups:
        return None
    # rather those that start in the middle
    last = max(k[1] for k in groups)
    mid = [k for k in groups if 0 < k[1] < last]
    pool = mid if mid and rng.random() < 0.7 else list(groups)
    own = groups[pool[int(rng.integers(len(pool)))]]
    gone = {f for _, f in own[int(rng.integers(1, len(own))):]}
    kept = [f for f in files(src) if f not in gone]
    os.makedirs(dst)
    for f in kept:
        shutil.copy2(os.path.join(src, f), dst)
    return kept


def content(x):
    """comparable value of what a file holds"""
    if hasattr(x, "toarray"):
        return dense(x)
    if isinstance(x, dict):
        return {str(k): content(v) for k, v in x.items() if "compute_time" not in str(k)}
    if isinstance(x, (list, tuple)):
        return [content(v) for v in x]
    return x


def same(ctx, a, b, mon, what, atol=1e-9):
    if isinstance(a, dict):
        ctx.equal(sorted(a), sorted(b), mon, what + ": keys")
        for k in a:
            same(ctx, a[k], b[k], mon, f"{what}[{k}]", atol)
    elif isinstance(a, list):
        ctx.equal(len(a), len(b), mon, what + ": length")
        for i, (x, y) in enumerate(zip(a, b)):
            same(ctx, x, y, mon, f"{what}[{i}]", atol)
    elif isinstance(a, (np.ndarray, float, np.floating)):
        ctx.close(np.asarray(b, float), np.asarray(a, float), mon, what, atol=atol, rtol=1e-7)
    elif isinstance(a, (int, str, bool, type(None), np.integer)):
        ctx.equal(b, a, mon, what)


def read(path):
    try:
        return pd.read_pickle(path, compression="gzip" if path.endswith(".gz") else None)
    except (EOFError, OSError, pickle.UnpicklingError) as e:
        raise Violation("readable", f"{os.path.basename(path)} cannot be read: {e!r}") from e


def one(ctx, pattern, mon, why=""):
    got = glob.glob(glob.escape(pattern) + "*")
    ctx.equal(len(got), 1, mon, f"files for {os.path.basename(pattern)} ({got}); {why}")
    return got[0]


class Pipe:
    def __init__(self, rng, ctx):
        self.rng, self.ctx = rng, ctx
        self.root = ctx.scratch
        self.d1, self.d2, self.d3 = (os.path.join(self.root, d) for d in ("lap", "int", "clu"))
        for d in (self.d1, self.d2, self.d3):
            os.makedirs(d)
        self.name = str(rng.choice(NAMES))
        self.nlog = 0
        self.init = None                # direction of given integrals with their own p
        self.generic = False            # a covariance without ties

    def sh(self, script, args, mon, what=""):
        self.nlog += 1
        log = os.path.join(self.root, f"log{self.nlog}")
        rc = run(script, args, log)
        self.ctx.check(rc == 0, mon, f"{script} {' '.join(map(str, args))} ended with {rc} "
                       f"{what}: {tail(log)}")
        self.log = log

    def why(self):
        return tail(self.log)

    # ---------------------------------------------------------------- step 1
    def draw(self):
        rng, ctx = self.rng, self.ctx
        n = int(rng.integers(3, 8))
        m = int(rng.integers(4, 13))
        span = int(rng.choice([8, 16, 24]))
        blocks = rng.random() < 0.45 and n >= 4
        rows = []
        for _ in range(m):
            if blocks:                      # two groups that never meet
                h = n // 2
                lo, hi = ((0, h), (h, n))[int(rng.integers(2))]
                if hi - lo < 2:
                    lo, hi = h, n
                a, b = rng.choice(np.arange(lo, hi), 2, replace=False)
            else:
                a, b = rng.choice(n, 2, replace=False)
            s = int(rng.integers(0, span))
            rows.append((int(a), int(b), s, min(s + int(rng.integers(1, 7)), span)))
        if rng.random() < 0.35:             # a silent stretch
            lo = span // 4
            rows = [r for r in rows if r[3] <= lo or r[2] >= 3 * lo] or rows
        self.n_all = n
        ids = sorted({r[0] for r in rows} | {r[1] for r in rows})
        idx = {v: i for i, v in enumerate(ids)}
        rows = [(idx[a], idx[b], s, e) for a, b, s, e in rows]
        self.n = len(ids)
        if self.n < 3:
            raise Skip()
        self.rows = rows
        net = ContTempNetwork(source_nodes=[r[0] for r in rows], target_nodes=[r[1] for r in rows],
                              starting_times=[r[2] for r in rows], ending_times=[r[3] for r in rows],
                              relabel_nodes=False)
        net._compute_time_grid() if hasattr(net, "_compute_time_grid") else None
        self.model = gen.Model(rows, self.n)
        self.times = self.model.times
        self.net = net

    def step1(self):
        rng, ctx = self.rng, self.ctx
        t0, t1 = self.times[0], self.times[-1]
        args = ["--datadir", self.root, "--net_filename", "network", "--savedir", self.d1]
        if self.name != "tempnet" or rng.random() < 0.3:
            args += ["--net_name", self.name]
        # slices
        u = rng.random()
        exact = True
        if u < 0.15:
            ctx.feature("net-slices")
            b = sorted(set([float(t0)] + [float(v) for v in rng.integers(t0, t1 + 1, 3)] +
                           [float(t1)]))
            self.net.time_slices_bounds = b
            self.net.save(os.path.join(self.root, "network"),
                          attributes_list=["node_to_label_dict", "events_table", "times",
                                           "time_grid", "num_nodes", "time_slices_bounds"])
            args += ["--time_slices_from_net_file"]
            bounds = b
        else:
            self.net.save(os.path.join(self.root, "network"))
            a, z = float(t0), float(t1)
            if rng.random() < 0.35:
                a = float(min(rng.integers(t0 - 1, t0 + 3), t1 - 1))
                args += ["--t0", a]
            if rng.random() < 0.35:
                z = float(max(rng.integers(t1 - 2, t1 + 3), a + 1))
                args += ["--tend", z]
            if u < 0.45:
                ln = float(rng.choice([1.5, 2.0, 4.0, 5.0]))
                while (z - a) / ln > 8:
                    ln *= 2
                args += ["--slice_length", ln]
                k = int(np.ceil((z - a) / ln))
                bounds = [a + i * ln for i in range(k + 1)]
            else:
                k = int(rng.choice([1, 2, 4, 4, 8, 3, 5, 6, 7, 10]))
                args += ["--num_slices", k]
                bounds = [a + (z - a) * i / k for i in range(k + 1)]
                exact = k in (1, 2, 4, 8)
        self.bounds = bounds
        self.nsl = len(bounds) - 1
        # matrices
        taus = [float(v) for v in rng.choice([0.5, 1.0, 2.0, 4.0, 20.0], int(rng.integers(1, 3)),
                                             replace=False)]
        if rng.random() < 0.3:
            taus[0] = float(rng.choice([1 / 3, 1.2345678, 12.3456]))
            ctx.feature("odd-tau")
        if len(taus) > 1:
            ctx.feature("several-taus")
        self.taus = taus
        if taus != [1.0]:
            args += ["--tau_w_list"] + [repr(t) for t in taus]
        kind = str(rng.choice(["both", "both", "expm", "lin"]))
        self.expm, self.lin = kind != "lin", kind != "expm"
        if not self.lin:
            args += ["--not_lin_transmat"]
        if not self.expm:
            args += ["--not_expm_transmat"]
        self.t_s = 10.0
        if self.lin and rng.random() < 0.5:
            self.t_s = float(rng.choice([2, 5, 2.5]))
            args += ["--t_s", self.t_s]
        self.slice_T = bool(rng.random() < 0.6)
        self.flow_int = self.slice_T and bool(rng.random() < 0.35)
        self.static = bool(rng.random() < 0.3)
        self.tol = 1e-8
        if rng.random() < 0.5:
            self.tol = 1e-13
            args += ["--tol", "1e-13"]
        if self.slice_T:
            args += ["--save_slice_trans"]
            if rng.random() < 0.3:
                args += ["--compress_slice_trans"]
            if rng.random() < 0.3:
                args += ["--force_csr"]
        if self.flow_int:
            args += ["--save_flow_int"]
        if self.static:
            args += ["--save_static_adjacencies"]
        args += ["--save_inter_T"]
        if rng.random() < 0.35:
            args += ["--compress_inter_T"]
            ctx.feature("compressed")
        if rng.random() < 0.5:
            args += ["--not_use_sparse_stoch"]
            ctx.feature("plain")
            if rng.random() < 0.5:
                args += ["--use_dense_expm"]
                ctx.feature("dense-expm")
            args += ["--save_delta_inter_T"]
            ctx.feature("delta")
        else:
            ctx.feature("sparse-stoch")
            if rng.random() < 0.2:
                args += ["--use_dense_expm"]
        self.skip = []
        if rng.random() < 0.12 and self.nsl > 1:
            self.skip = sorted(int(v) for v in rng.choice(self.nsl, 1))
            args += ["--intervals_to_skip"] + self.skip
            ctx.feature("skip-intervals")
        self.args1 = args
        ctx.describe(step1=" ".join(map(str, args)), bounds=bounds)
        nb = 1
        if rng.random() < 0.15:
            nb = int(rng.integers(2, 4))
            ctx.feature("batches")
        if self.slice_T and rng.random() < 0.25:
            # a first run that does not save everything
            ctx.feature("extended")
            drop = {"--save_inter_T", "--compress_inter_T", "--save_delta_inter_T"}
            if rng.random() < 0.5:
                drop = {"--save_slice_trans", "--compress_slice_trans", "--save_flow_int"}
            self.sh("run_laplacians_transmats", [a for a in args if a not in drop], "step1")
        if rng.random() < 0.25:
            # another network in the same folder
            ctx.feature("other-net")
            pd.to_pickle({"num_nodes": self.n + 3}, os.path.join(
                self.d1, "other_tau_w7.000e+00_int000019__inter_trans_mat.pickle"))
        order = [int(v) for v in rng.permutation(nb)]
        for b in order:
            extra = ["--ncpu", int(rng.integers(1, 4))]
            if nb > 1:
                extra += ["--batch_num", b, "--total_num_batches", nb]
            self.sh("run_laplacians_transmats", args + extra, "step1")
        self.check1(self.d1, exact, "")

    def prefix(self, d, tau, i):
        return os.path.join(d, f"{self.name}_tau_w{tau:.3e}_int{i:06d}_")

    def check1(self, d, exact, what):
        ctx, M = self.ctx, self.model
        live = [i for i in range(self.nsl) if i not in self.skip]
        kinds = (["inter"] if self.expm else []) + (["lin"] if self.lin else [])
        suffix = {"inter": "_inter_trans_mat", "lin": "_lin_inter_trans_mat"}
        prev = None
        self.win = {}
        for i in live:
            k0, k1 = M.window(self.bounds[i], self.bounds[i + 1])
            if k1 <= k0:
                ctx.feature("empty-slice")
            for tau in self.taus:
                lam = 1 / tau
                for kind in kinds:
                    path = self.prefix(d, tau, i) + suffix[kind]
                    one(ctx, path, "step1-files", self.why())
                    data = ContTempNetwork.load_inter_T(path)
                    ts, te = data["_t_start_laplacians"], data["_t_stop_laplacians"]
                    if not exact:
                        # the boundaries are no exact numbers: the slices have to tile
                        k0, k1 = M.times.index(ts), M.times.index(te)
                        for t, b in ((ts, self.bounds[i]), (te, self.bounds[i + 1])):
                            near = {M.times[M.snap(b + e)] for e in (-1e-9, 0, 1e-9)}
                            ctx.check(t in near, "slice-times",
                                      f"slice {i}: window time {t} for the boundary {b}{what}")
                    else:
                        ctx.equal((float(ts), float(te)),
                                  (float(M.times[k0]), float(M.times[k1])), "slice-times",
                                  f"window of slice {i}{what}")
                    self.win[i] = (k0, k1)
                    if kind == "inter":
                        ctx.equal([float(v) for v in data["inter_T"]], [lam], "inter",
                                  f"waiting times in the file of slice {i}")
                        check_list(ctx, data["inter_T"][lam], M.inter_T(lam, k0, k1), "inter",
                                   f"inter_T of slice {i}, tau {tau}{what}", atol=1e-7)
                    else:
                        check_list(ctx, data["inter_T_lin"][lam][self.t_s],
                                   M.inter_T_lin(lam, self.t_s, k0, k1), "inter-lin",
                                   f"inter_T_lin of slice {i}, tau {tau}{what}", atol=1e-7)
            if prev is not None and i - 1 in self.win:
                ctx.equal(self.win[i][0], prev, "tiling", f"start of slice {i} and end of the one "
                          f"before{what}")
            prev = self.win[i][1]
            if self.slice_T:
                self.check_slice(d, i, kinds, what)
            if self.static:
                self.check_static(d, i, what)
        want = len(live) * len(self.taus) * len(kinds)
        want += 2 * want if self.slice_T else 0
        if self.flow_int:                   # none for a slice without time
            want += 2 * sum(k1 > k0 for k0, k1 in self.win.values()) * len(self.taus) * len(kinds)
        want += len(live) if self.static else 0
        got = [f for f in files(d) if not f.startswith("other")]
        ctx.equal(len(got), want, "step1-files", f"number of files{what}: {got}; {self.why()}")

    def products(self, tau, lin, k0, k1, reverse):
        seq = self.model.inter_T_lin(1 / tau, self.t_s, k0, k1) if lin else \
            self.model.inter_T(1 / tau, k0, k1)
        if reverse:
            seq = seq[::-1]
        res = [seq[0]]
        for T in seq[1:]:
            res.append(res[-1] @ T)
        return res

    def check_slice(self, d, i, kinds, what):
        ctx = self.ctx
        k0, k1 = self.win[i]
        for tau in self.taus:
            for kind in kinds:
                for rev in (False, True):
                    base = self.prefix(d, tau, i) + ("_reversed" if rev else "")
                    sfx = "_lin" if kind == "lin" else ""
                    prods = self.products(tau, kind == "lin", k0, k1, rev)
                    one(ctx, base + sfx + "_trans_mat", "step1-files", self.why())
                    data = ContTempNetwork.load_T(base + sfx + "_trans_mat")
                    if kind == "lin":
                        ctx.close(data["T_lin"][1 / tau][self.t_s], prods[-1], "slice-T-lin",
                                  f"T_lin of slice {i}, tau {tau}, reversed {rev}{what}", atol=1e-6)
                    else:
                        ctx.close(data["T"][1 / tau], prods[-1], "slice-T",
                                  f"T of slice {i}, tau {tau}, reversed {rev}{what}", atol=1e-6)
                    if self.flow_int and k1 > k0:
                        path = one(ctx, base + sfx + "_flow_int", "step1-files")
                        I, T = self.integral(prods, k0, k1, rev)
                        p = 1 / self.n
                        ctx.close(dense(read(path)), I * p * p / T - p * p, "flow-int",
                                  f"flow integral of slice {i}, tau {tau}, reversed {rev}, "
                                  f"{kind}{what}", atol=1e-6)

    def integral(self, prods, k0, k1, rev, drop=None):
        """time integral; values not above `drop` times the largest are left out at each step
        (`unclear`: a value is too close to that limit to decide)"""
        def cut(X):
            if drop is not None and X.max() > 0:
                t = drop * X.max()
                self.unclear |= bool((np.abs(X - t) < 1e-4 * t).any())
                X[X <= t] = 0
            return X
        self.unclear = False
        t = np.array(self.times[k0:k1 + 1], float)
        dts = np.diff(t)
        if rev:
            dts = dts[::-1]
        acc = np.zeros((self.n, self.n))
        for T, dt in zip(prods, dts):
            pt = T.mean(0)
            inv = np.divide(1, pt, out=np.ones(self.n), where=pt != 0)
            acc = cut(acc + cut(dt * (T * inv) @ T.T))
        return acc, t[-1] - t[0]

    def check_static(self, d, i, what):
        path = one(self.ctx, os.path.join(d, f"{self.name}_static_adjacency_int{i:06d}"),
                   "step1-files")
        net = ContTempNetwork(events_table=self.net.events_table)
        A = net.compute_static_adjacency_matrix(start_time=self.bounds[i],
                                                end_time=self.bounds[i + 1])
        self.ctx.close(read(path), A, "static-adjacency",
                       f"static adjacency of slice {i}{what}", atol=1e-9)

    # ---------------------------------------------------------------- step 2
    def step2(self):
        rng, ctx = self.rng, self.ctx
        args = ["--datadir", self.d1, "--savedir", self.d2]
        if self.name != "tempnet":
            args += ["--net_name", self.name]
        if self.expm and self.lin:
            kind = str(rng.choice(["both", "expm", "lin", "lin"]))
        else:
            kind = "expm" if self.expm else "lin"
        self.k2 = (["expm"] if kind != "lin" else []) + (["lin"] if kind != "expm" else [])
        if kind != "both":
            args += [f"--only_{kind}_transmats"]
        if self.t_s != 10:
            args += ["--t_s", self.t_s]
        u = rng.random()
        if u < 0.2 and self.nsl > 1:
            ctx.feature("int-list")
            grid = sorted(int(v) for v in rng.choice(self.nsl + 1, int(rng.integers(2, 4)),
                                                     replace=False))
            args += ["--int_list"] + grid
        elif u < 0.4:
            ctx.feature("num-points")
            npt = None if rng.random() < 0.4 else int(rng.integers(1, 5))
            if npt is not None:
                args += ["--num_points", npt]
            step = max(self.nsl // (50 if npt is None else npt), 1)
            grid = list(range(0, self.nsl + 1, step))
        else:
            step = int(rng.choice([1, 1, 2, 3]))
            args += ["--int_length", step]
            grid = list(range(0, self.nsl + 1, step))
        while len(grid) > 5 and "--int_length" in args:     # keeps the case short
            step += 1
            args[args.index("--int_length") + 1] = step
            grid = list(range(0, self.nsl + 1, step))
        pairs = [(a, b) for a in grid for b in grid if a != b]
        mode = str(rng.choice(["all", "all", "forward", "backward", "from-start", "from-finish",
                               "start-finish", "one-interval"]))
        if mode == "forward" or mode == "backward":
            args += ["--time_direction", mode]
            pairs = [(a, b) for a, b in pairs if (a < b) == (mode == "forward")]
        elif mode == "from-start":
            args += ["--only_from_start"]
            pairs = [(a, b) for a, b in pairs if a == grid[0]]
        elif mode == "from-finish":
            args += ["--only_from_finish"]
            pairs = [(a, b) for a, b in pairs if a == grid[-1]]
        elif mode == "start-finish":
            args += ["--only_from_start_and_finish"]
            pairs = [(a, b) for a, b in pairs
                     if (a == grid[0] and b > a) or (a == grid[-1] and b < a)]
        elif mode == "one-interval":
            args += ["--only_one_interval"]
            pairs = [(a, b) for a, b in pairs if abs(grid.index(a) - grid.index(b)) == 1]
        ctx.feature(mode)
        if mode == "one-interval" or rng.random() < 0.8:
            pass
        self.rtol2 = None
        if rng.random() < 0.4:
            self.rtol2 = float(rng.choice([1e-12, 0.01, 0.1]))
            args += ["--integral_rtol", self.rtol2]
            if self.rtol2 > 1e-6:
                ctx.feature("rtol-step2")
        if self.tol != 1e-8 or rng.random() < 0.2:
            args += ["--tol", self.tol]
        self.inter2 = bool(rng.random() < 0.3)
        if self.inter2:
            args += ["--save_intermediate"]
            ctx.feature("save-intermediate")
        if rng.random() < 0.2:
            args += ["--verbose", "--print_mem_usage", "--print_interval", 1,
                     "--verbose_sparse_matmul"]
        self.args2, self.pairs = args, pairs
        ctx.describe(step2=" ".join(map(str, args)))
        self.sh("run_cov_integrals", args + ["--ncpu", int(rng.integers(1, 4))], "step2")
        self.check2(self.d2, "")

    def span(self, a, b):
        """event indices between the starts of two slices"""
        lo, hi = min(a, b), max(a, b)
        return self.win[lo][0], self.win[hi - 1][1]

    def check2(self, d, what):
        ctx = self.ctx
        want = {}
        for tau in self.taus:
            for a, b in self.pairs:
                k0, k1 = self.span(a, b)
                if k1 > k0:
                    for kind in self.k2:
                        f = f"{self.name}_tau_w{tau:.3e}_PT_{'lin_' if kind == 'lin' else ''}" \
                            f"{a:06d}_to_{b:06d}.pickle"
                        want[f] = (tau, kind, a, b, k0, k1)
        got = [f for f in files(d) if "temp_integration" not in f]
        steps = [f for f in files(d) if "temp_integration" in f]
        for f in steps:
            read(os.path.join(d, f))
        if self.inter2 and not what and any("_lin_" not in f for f in got):
            self.ctx.check(steps, "intermediate",
                           f"no intermediate steps were saved to restart from{what}")
        ctx.equal(got, sorted(want), "step2-files", f"files of the integrals{what}; {self.why()}")
        self.I2 = {}
        for f, (tau, kind, a, b, k0, k1) in want.items():
            data = read(os.path.join(d, f))
            ctx.close(float(data["integration_time"]), float(self.times[k1] - self.times[k0]),
                      "integration-time", f"integration time of {f}{what}")
            I, T = self.integral(self.products(tau, kind == "lin", k0, k1, b < a), k0, k1, b < a,
                                 self.rtol2 if self.rtol2 and self.rtol2 > 1e-6 else None)
            if self.unclear:
                continue
            g = dense(data["ITPT"])
            ctx.close(g, np.triu(g), "triangular", f"{f} is the upper triangle{what}", atol=0)
            ctx.close(g, np.triu(I), "integral", f"integral in {f}{what}",
                      atol=(1e-5 if self.tol > 1e-9 else 1e-8) * max(np.abs(I).max(), 1e-6), rtol=0)

    # ---------------------------------------------------------------- step 3
    def step3(self):
        rng, ctx = self.rng, self.ctx
        self.rep = int(rng.integers(2, 6))
        args = ["--datadir", self.d2, "--savedir", self.d3, "--net_name", self.name,
                "--num_repeat", self.rep]
        self.mode = str(rng.choice(["all", "all", "only-largest", "separate"]))
        if self.mode == "only-largest":
            args += ["--only_largest_comp"]
            ctx.feature("only-largest")
        elif self.mode == "separate":
            args += ["--separate_comps"]
            ctx.feature("separate")
        self.rtol3 = None
        if rng.random() < 0.35:
            self.rtol3 = float(rng.choice([1e-10, 1e-3, 0.05]))
            args += ["--integral_rtol", self.rtol3]
            ctx.feature("rtol")
        self.norm = True
        if rng.random() < 0.3:
            self.norm = False
            args += ["--not_normalize_cov_mat"]
            ctx.feature("no-normalize")
        self.niter = 10
        if self.norm and rng.random() < 0.3:
            self.niter = int(rng.integers(0, 4))
            args += ["--num_norm_iter", self.niter]
        self.nvi_n = None
        if rng.random() < 0.3:
            self.nvi_n = int(rng.integers(1, 4))
            args += ["--num_varinf_samples", self.nvi_n]
        self.few = bool(rng.random() < 0.12)
        if self.few:                    # ends before the first pass over the nodes
            args += ["--n_sub_iter_max", 1, "--n_meta_iter_max", int(rng.integers(1, 3))]
            ctx.feature("iteration-limit")
        self.tmp = bool(rng.random() < 0.4)
        if self.tmp:
            args += ["--save_clustering_before_nvarinf"]
            ctx.feature("tmp-results")
        if rng.random() < 0.2:
            args += ["--verbose", 1]
        self.static3 = bool(rng.random() < 0.2) and not self.init
        if self.init:
            args += ["--init_p1", "--direction", self.init]
        if self.static3:
            args += ["--compute_static_clustering"]
            ctx.feature("static-given")
            self.statA = {}
            for f in files(self.d2):
                a, b = sorted(self.pair_of(f))
                A = np.triu(rng.integers(0, 4, (self.n, self.n)) *
                            (rng.random((self.n, self.n)) < 0.6), 1).astype(float)
                A[0, 1] = 1
                pth = os.path.join(self.d2, f"{self.name}_static_A_{a:06d}_to_{b:06d}.pickle")
                self.statA[(a, b)] = A + A.T
                pd.to_pickle(csr_matrix(A + A.T), pth)
        self.args3 = args
        ctx.describe(step3=" ".join(map(str, args)))
        self.sh("run_clusterings", args + self.procs3(), "step3")
        self.check3(self.d3, "")

    @staticmethod
    def pair_of(f):
        x = f.rsplit(".", 1)[0].split("_")
        return int(x[-3]), int(x[-1])

    def procs3(self):
        rng = self.rng
        res = ["--nproc_files", int(rng.integers(1, 4))]
        if rng.random() < 0.3:
            res += ["--nproc_clustering", int(rng.integers(2, 4))]
            self.ctx.feature("nproc-clustering")
        return res

    def cov(self, f):
        """the covariance that a file of an integral stands for, and its components"""
        data = read(os.path.join(self.d2, f))
        U = dense(data["ITPTback" if self.init == "backward" else "ITPT"]).copy()
        if self.rtol3 is not None:
            U[U <= self.rtol3 * np.abs(U).max()] = 0
        n = self.n
        PT = (U + np.triu(U, 1).T) / data["integration_time"]
        if self.init:
            p = dense(data["p2" if self.init == "backward" else "p1"]).ravel()
        else:
            PT, p = PT / n / n, np.full(n, 1 / n)
        tot = PT.sum()
        diff = np.abs(PT.sum(0) - p).max()
        if self.norm:
            if self.init:
                for i in np.flatnonzero((p > 0) & (PT.sum(1) == 0)):
                    PT[i, i] = self.rtol3 * PT.max()
            for _ in range(self.niter):
                s = PT.sum(1)
                PT = PT * np.divide(p, s, out=np.ones(n), where=s != 0)[:, None]
                PT = (PT + PT.T) / 2
        self.p = p
        self.after = (PT.sum(), np.abs(PT.sum(0) - p).max()) if self.norm else (None, None)
        return PT, PT - np.outer(p, p), tot, diff

    def check3(self, d, what):
        ctx = self.ctx
        ints = [f for f in files(self.d2) if f.startswith(self.name + "_tau_w") and
                "temp_integration" not in f]
        got = [f for f in files(d) if not f.startswith("tmp")]
        ctx.equal(got, sorted("clusters_" + f for f in ints), "step3-files",
                  f"files of the clusterings{what}; {self.why()}")
        for f in ints:
            res = read(os.path.join(d, "clusters_" + f))
            self.check_clusters(f, res, what)

    def check_clusters(self, f, res, what):
        ctx, n = self.ctx, self.n
        PT, S, tot, diff = self.cov(f)
        w = f" in clusters_{f}{what}"
        ctx.close(res["ITPT_sum"], tot, "sums", "ITPT_sum" + w, atol=1e-9)
        ctx.close(res["max_S_row_diff"], diff, "sums", "max_S_row_diff" + w, atol=1e-9)
        for k, v in zip(("ITPT_sum_norm", "max_S_row_diff_norm"), self.after):
            if v is None:
                ctx.check(res[k] is None, "sums", f"{k} is {res[k]} without normalisation" + w)
            else:
                ctx.close(res[k], v, "sums", k + w, atol=1e-9)
        N = n
        labels = gen.components((PT != 0).astype(float))
        comps = [[int(v) for v in np.flatnonzero(labels == c)] for c in np.unique(labels)]
        if len(comps) > 1:
            ctx.feature("unconnected")
        if self.mode != "all":
            ctx.equal(int(res["ncomp"]), len(comps), "components", "number of components" + w)
            lab = res["comp_label"]
            ctx.check(lab is not None, "components", "component labels are missing" + w)
            ctx.equal(sorted(sorted(int(v) for v in np.where(np.asarray(lab) == c)[0])
                             for c in np.unique(lab)), sorted(sorted(c) for c in comps),
                      "components", "labels of the components" + w)
        if self.mode == "only-largest":
            lc = [int(v) for v in res["largest_comp_nodes"]]
            ctx.check(set(lc) in [set(c) for c in comps] and
                      len(lc) == max(len(c) for c in comps), "components",
                      f"nodes {lc} are no largest component of {comps}" + w)
            rest = [v for v in range(n) if v not in set(lc)]
            idx = [rest] + [[v] for v in lc]
            S = np.array([[S[np.ix_(a, b)].sum() for b in idx] for a in idx])
            N = len(idx)
        ctx.equal(int(res["num_repeat"]), self.rep, "counter", "num_repeat" + w)
        ctx.equal(len(res["stabilites"]), self.rep, "counter", "number of stabilities" + w)
        ctx.equal(len(res["seeds"]), self.rep, "counter", "number of seeds" + w)
        cnt = res["clust_counter"]
        ctx.equal(sum(cnt.values()), self.rep, "counter", "number of clusterings" + w)
        stabs = []
        tol = 1e-9
        nodes = list(range(N))
        if self.init and self.mode == "separate":
            # nodes without probability are left out
            nodes = [v for v in nodes if self.p[v] > 0]
        comp_of = {v: i for i, c in enumerate(comps) for v in c}
        for part, k in cnt.items():
            ctx.equal(sorted(int(v) for c in part for v in c), nodes, "partition",
                      f"nodes of {part}" + w)
            if self.few:
                if self.mode != "separate" and np.abs(S).max() > 1e-4 / n ** 2:
                    ctx.equal(len(part), N, "limit", f"clusters of {part}, no pass allowed" + w)
            elif self.generic and np.abs(S).max() > 1e-4 / n ** 2:
                for a, b in itertools.combinations(part, 2):
                    if self.mode == "separate" and comp_of[a[0]] != comp_of[b[0]]:
                        continue
                    gain = S[np.ix_(a, b)].sum() + S[np.ix_(b, a)].sum()
                    ctx.check(gain <= 1e-8, "merge-optimal",
                              f"merging {a} and {b} of {part} gains {gain}" + w)
            st = sum(S[np.ix_(c, c)].sum() for c in part)
            stabs += [st] * k
            if self.mode == "separate":
                for c in part:
                    ctx.check(any(set(c) <= set(q) for q in comps), "partition",
                              f"cluster {c} spans components" + w)
            # a covariance that is zero up to rounding gives one cluster
            if np.abs(S).max() > 1e-4 / n ** 2:
                ctx.check(st >= np.trace(S) - 1e-7, "stability", f"{part} is less stable ({st}) "
                          f"than single nodes ({np.trace(S)})" + w)
        ctx.close(np.sort(np.array(res["stabilites"], float)), np.sort(stabs), "stability",
                  "stabilities of the clusterings" + w, atol=tol)
        best = [sorted(int(v) for v in c) for c in res["best_cluster"]]
        ctx.check(tuple(sorted(tuple(c) for c in best)) in
                  {tuple(sorted(tuple(int(v) for v in sorted(c)) for c in p)) for p in cnt},
                  "best", "best_cluster is none of the clusterings" + w)
        ctx.close(sum(S[np.ix_(c, c)].sum() for c in best), max(stabs), "best",
                  "stability of best_cluster and the largest one" + w, atol=tol)
        ctx.close(res["best_stab"], max(stabs), "best", "best_stab" + w, atol=tol)
        ctx.close(res["avg_stab"], np.mean(stabs), "averages", "avg_stab" + w, atol=tol)
        ctx.close(res["avg_nclust"], sum(len(p) * k for p, k in cnt.items()) / self.rep,
                  "averages", "avg_nclust" + w)
        parts = [p for p, k in cnt.items() for _ in range(k)]
        vals = [nvi(a, b, N) for a, b in itertools.combinations(parts, 2)]
        got = float(res["nvarinf"])
        if len(nodes) < N:
            pass                        # partitions of a part of the nodes
        elif self.nvi_n is None or self.nvi_n >= len(vals):
            ctx.close(got, np.mean(vals), "nvi", "nvarinf" + w, atol=1e-9)
        else:
            v = sorted(vals)
            ctx.check(np.mean(v[:self.nvi_n]) - 1e-9 <= got <= np.mean(v[-self.nvi_n:]) + 1e-9,
                      "nvi", f"nvarinf {got} of {self.nvi_n} of the values {v}" + w)
        if self.static3:
            A = self.statA[tuple(sorted(self.pair_of(f)))]
            deg = A.sum(1) / A.sum()
            L = np.eye(n) - np.divide(A, A.sum(1)[:, None], out=np.eye(n),
                                      where=A.sum(1)[:, None] != 0)
            SA = deg[:, None] * expm(-L) - np.outer(deg, deg)
            cs = res["clust_counter_static"]
            ctx.equal(sum(cs.values()), self.rep, "counter", "number of static clusterings" + w)
            st = []
            for part, k in cs.items():
                ctx.equal(sorted(int(v) for c in part for v in c), list(range(n)), "partition",
                          f"nodes of the static {part}" + w)
                st += [sum(SA[np.ix_(c, c)].sum() for c in part)] * k
            ctx.close(np.sort(np.array(res["stabilites_static"], float)), np.sort(st),
                      "stability", "static stabilities" + w, atol=1e-9)
            ctx.close(res["best_stab_static"], max(st), "best", "best_stab_static" + w, atol=1e-9)

    def static_own(self):
        """the static clustering of the adjacencies that step 1 saved"""
        new = os.path.join(self.root, "static")
        os.makedirs(new)
        args = list(self.args3)
        args[args.index("--savedir") + 1] = new
        self.sh("run_clusterings", args + ["--compute_static_clustering"], "static-own")
        for f in files(new):
            if f.startswith("clusters_"):
                self.ctx.check("best_cluster_static" in read(os.path.join(new, f)), "static-own",
                               "no static clustering of the adjacencies saved by "
                               "run_laplacians_transmats")

    # ------------------------------------------------------- interruptions
    def again(self):
        first = int(self.rng.integers(3))
        steps = {1 + first, 1 + (first + 1) % 3}
        for step in sorted(steps, key=(1, 3, 2).index):     # 2 removes what step 3 was given
            self.once_more(step, os.path.join(self.root, f"again{step}"))

        if self.slice_T:                    # the products of the slices are there to go on with
            for i in range(3):
                self.once_more(2, os.path.join(self.root, f"cut{i}"), True)
        if self.slice_T and self.expm and self.lin:
            for i in range(4):
                self.once_more(1, os.path.join(self.root, f"gap{i}"), True)

    def once_more(self, step, new, gaps=False):
        """a step is interrupted and run again, or run again after it finished"""
        rng, ctx = self.rng, self.ctx
        d = (self.d1, self.d2, self.d3)[step - 1]
        script = ("run_laplacians_transmats", "run_cov_integrals", "run_clusterings")[step - 1]
        args = list((self.args1, self.args2, self.args3)[step - 1])
        proc = self.procs3() if step == 3 else ["--ncpu", int(rng.integers(1, 4))]
        if step == 2:                       # the adjacencies were put there for step 3
            for f in files(d):
                if "_static_A_" in f:
                    os.remove(os.path.join(d, f))
        before = {f: content(read(os.path.join(d, f))) for f in files(d)}
        if not gaps and rng.random() < 0.25:
            dg = digest(d)
            self.sh(script, args + proc, "repeat", "when repeated")
            now = digest(d)
            ctx.equal(sorted(now), sorted(dg), "repeat", f"files of step {step} after it was "
                      "repeated")
            for f in sorted(now):
                if now[f] != dg[f]:         # written again: only its bytes may differ
                    ctx.check(step < 3, "repeat", f"{f} of step {step} changed when repeated")
                    same(ctx, before[f], content(read(os.path.join(d, f))), "repeat",
                         f"{f} of step {step} after it was repeated", atol=1e-10)
            return
        if step == 3 and self.tmp and rng.random() < 0.7:
            os.makedirs(new)
            kept = [f for f in files(d) if f.startswith("tmp") or rng.random() < 0.3]
            for f in kept:
                shutil.copy2(os.path.join(d, f), new)
        else:
            kept = cut_group(rng, d, new) if gaps and step == 2 else cut(rng, d, new, gaps)
            if kept is None:
                return
        ctx.describe(interrupted=step, finished=kept)
        dg = digest(new)
        args[args.index("--savedir") + 1] = new
        self.sh(script, args + proc, f"resume{step}", "when resumed")
        now = digest(new)
        what = f" of step {step} resumed with {kept}"
        if step == 3:
            for f in kept:
                ctx.equal(now[f], dg[f], "resume3", f"{f} changed{what}")
            self.check3(new, what)
            for f in kept:
                if f.startswith("tmp") and f[3:] not in kept:
                    a, b = read(os.path.join(new, f[3:])), before[f[3:]]
                    same(ctx, b["stabilites"], content(a)["stabilites"], "resume3",
                         "stabilities of the saved clusterings" + what)
                    same(ctx, b["seeds"], content(a)["seeds"], "resume3",
                         "seeds of the saved clusterings" + what)
            return
        if step == 1:
            before = {f: v for f, v in before.items() if not f.startswith("other")}
            now = {f: v for f, v in now.items() if not f.startswith("other")}
        ctx.equal(sorted(now), sorted(before), f"resume{step}", f"files{what}; {self.why()}")
        for f in before:
            if "temp_integration" in f:
                continue
            same(ctx, before[f], content(read(os.path.join(new, f))), f"resume{step}",
                 f"content of {f}{what}", atol=1e-7 if self.tol > 1e-9 else 1e-10)


def nvi(a, b, n):
    H = 0.0
    for c in a:
        for e in b:
            k = len(set(c) & set(e))
            if k:
                H -= k / n * (np.log(k / len(c)) + np.log(k / len(e)))
    return H / np.log(n)


def given(rng, ctx):
    """clusterings of larger given integrals, of uniform or other initial distributions"""
    p = Pipe(rng, ctx)
    p.n = n = int(rng.integers(6, 26))
    ctx.feature("given-integral")
    if n > 10:
        ctx.feature("more-than-ten-nodes")
    p.init = [None, None, "forward", "backward"][int(rng.integers(4))]
    p.generic = True
    p.tol, p.static = 1e-10, False
    for k in range(int(rng.integers(1, 3))):
        group = rng.integers(0, int(rng.integers(1, 4)), n)      # groups never meet
        sub = rng.integers(0, 3, n)
        W = rng.random((n, n)) * np.where(sub[:, None] == sub, 1, 0.1)
        W = np.where(group[:, None] == group, W, 0)
        q = np.ones(n)
        if p.init:
            ctx.feature("init-p1")
            if p.init == "backward":
                ctx.feature("init-backward")
            q = rng.random(n) + 0.05
            if rng.random() < 0.5:
                q[rng.choice(n, int(rng.integers(1, n // 3 + 1)), replace=False)] = 0
                ctx.feature("zero-probability")
        q = q / q.sum()
        M = W + W.T + np.eye(n) * 0.5
        M = M * (q[:, None] > 0) * (q > 0)
        for _ in range(400):                                     # symmetric, row sums q
            s = M.sum(1)
            f = np.sqrt(np.divide(q, s, out=np.zeros(n), where=s > 0))
            M = M * f[:, None] * f
        t = float(rng.choice([0.5, 1.0, 7.0]))
        U = csr_matrix(np.triu(M * t if p.init else M * t * n * n))
        data = {"integration_time": t}
        other = csr_matrix(np.triu(rng.random((n, n))))          # of the other direction
        key, pk = ("ITPTback", "p2") if p.init == "backward" else ("ITPT", "p1")
        if p.init:
            data.update({"ITPT": other, "ITPTback": other, "p1": csr_matrix(np.ones(n) / n),
                         "p2": csr_matrix(np.ones(n) / n)})
            data[pk] = csr_matrix(q)
        data[key] = U
        tag = {None: "PT", "forward": "PTforw", "backward": "PTback"}[p.init]
        pd.to_pickle(data, os.path.join(
            p.d2, f"{p.name}_tau_w{1.5:.3e}_{tag}_{0:06d}_to_{k + 1:06d}.pickle"))
    ctx.describe(name=p.name, n=n, init=p.init)
    p.step3()
    ctx.nontrivial("given", n, p.init, p.args3[6:], M.tobytes())


def case(rng, ctx):
    if rng.random() < 0.2:
        return given(rng, ctx)
    p = Pipe(rng, ctx)
    p.draw()
    ctx.describe(name=p.name, rows=p.rows)
    p.step1()
    ctx.nontrivial(p.rows, p.args1[6:])
    if p.skip:
        return
    p.step2()
    if not p.pairs or not files(p.d2):
        return
    p.step3()
    p.again()
    if p.static and not p.static3 and rng.random() < 0.3:
        p.static_own()
