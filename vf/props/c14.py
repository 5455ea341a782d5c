"""C14: the analysis object never runs a step whose inputs are missing or stale"""
import contextlib
import io
import warnings

import numpy as np

from vf.core import snap

import flowstab.flow_stability as fsm
from flowstab.flow_stability import FlowStability, States
from flowstab.network_clustering import FlowIntegralClustering
from flowstab.temporal_network import ContTempNetwork

CASES = {"quick": 1600, "thorough": 40000}
RULE = ("a case is one history of up to 25 assignments and step calls on one analysis object, "
        "with valid, unset and invalid values; after each call the state, the set parameters, the "
        "reported next step, warnings, and the computations actually run are "
        "compared with a state model; distinct by history")
EXPECT = ["state", "refused-warns", "refused-no-effect", "allowed-runs", "next-step",
          "invalid-value-no-effect", "failed-step-no-progress", "inter-fresh",
          "clustering-fresh", "louvain-fresh", "help", "value-kept", "set-network",
          "set-network-object", "unset-network", "junk-network", "direction-1", "direction-0",
          "direction--1", "linear", "scale-list", "scale-iterator", "scale-logspace", "unset-scale",
          "scale-argument", "failed-clustering", "given-clustering", "reached-FINAL",
          "stepped-back", "two-objects"]
ASSUMPTIONS = ["windows contain at least one interval"]

LOG = []
METHODS = {   # name: (minimal state, next state)
    "set_temporal_network": (0, 1), "compute_laplacian_matrices": (1, 2),
    "compute_inter_transition_matrices": (2, 3), "set_flow_clustering": (3, 4),
    "find_louvain_clustering": (4, 5)}
PROPS = {"temporal_network": 1, "t_start": 1, "t_stop": 1, "time_scale": 2, "time_direction": 3,
         "flow_clustering_forward": 4, "flow_clustering_backward": 4}


def _log(cls, name, kind):
    orig = getattr(cls, name)

    def wrapped(self, *a, **kw):
        LOG.append(kind)
        return orig(self, *a, **kw)
    setattr(cls, name, wrapped)


def setup():
    _log(ContTempNetwork, "compute_laplacian_matrices", "laplacian")
    _log(ContTempNetwork, "compute_inter_transition_matrices", "inter")
    _log(ContTempNetwork, "compute_lin_inter_transition_matrices", "inter")
    _log(FlowIntegralClustering, "__init__", "clustering")
    _log(FlowIntegralClustering, "find_louvain_clustering", "louvain")


def network_kwargs(rng):
    n = int(rng.integers(3, 6))
    src, dst, st, en = [0, 1], [1, 2], [0, 5], [10, 10]
    for i in range(int(rng.integers(1, 6))):
        a, b = (int(v) for v in rng.choice(n, 2, replace=False))
        s = int(rng.integers(0, 9))
        src.append(a), dst.append(b), st.append(s), en.append(s + int(rng.integers(1, 10 - s + 1)))
    return dict(source_nodes=src, target_nodes=dst, starting_times=st, ending_times=en)


class M:
    """the model of one analysis"""

    def __init__(self):
        self.state = 0
        self.set = {k: False for k in PROPS}
        self.set["t_start"] = self.set["t_stop"] = True
        self.scale, self.direction, self.net = [None], 0, None
        self.window = [None, None]
        # what is up to date
        self.lap = self.inter = self.clust = False

    def assign(self, prop, is_set=True):
        self.set[prop] = is_set
        self.state = min(self.state, PROPS[prop])
        if PROPS[prop] <= 1:
            self.lap = self.inter = self.clust = False
        elif PROPS[prop] <= 2:
            self.inter = self.clust = False
        elif PROPS[prop] <= 3:
            self.clust = False

    def allowed(self, m):
        lo = METHODS[m][0]
        return self.state >= lo and all(self.set[p] for p in PROPS if PROPS[p] <= lo)


def case(rng, ctx):
    objs = []
    for _ in range(2 if rng.random() < 0.15 else 1):
        m = M()
        kw = {}
        if rng.random() < 0.4:
            m.net = kw["temporal_network"] = ContTempNetwork(**network_kwargs(rng))
            m.set["temporal_network"] = True
            m.state = 1
        if rng.random() < 0.4:
            m.scale = [2.5]
            kw["time_scale"] = 2.5
            m.set["time_scale"] = True
        if rng.random() < 0.3:
            kw["t_start"] = m.window[0] = 2
        if rng.random() < 0.4:
            m.direction = kw["time_direction"] = int(rng.integers(-1, 2))
            m.set["time_direction"] = True
        objs.append((FlowStability(**kw), m))
        verify(ctx, *objs[-1], f"construction with {sorted(kw)}")
    if len(objs) > 1:
        ctx.feature("two-objects")
    hist = []
    top = 0
    # a straight path between random deviations, so that late states are reached
    for step in range(int(rng.integers(8, 26))):
        i = int(rng.integers(len(objs)))
        fs, m = objs[i]
        before = m.state
        if rng.random() < 0.55:
            op = forward(rng, ctx, fs, m)
        else:
            op = deviate(rng, ctx, fs, m)
        hist.append((i, op) if len(objs) > 1 else op)
        for o in objs:
            verify(ctx, *o, f"history {hist}")
        top = max(top, m.state)
        if m.state < before:
            ctx.feature("stepped-back")
        if m.state == 5:
            ctx.feature("reached-FINAL")
    ctx.describe(history=[str(h) for h in hist], highest_state=top)
    ctx.nontrivial(hist)


def verify(ctx, fs, m, what):
    ctx.equal(fs.state.current, States(m.state), "state", f"state after {what}")
    ctx.equal(fs.t_start, m.window[0], "value-kept", f"t_start after {what}")
    ctx.equal(fs.t_stop, m.window[1], "value-kept", f"t_stop after {what}")
    ctx.equal(list(fs.time_scale), m.scale, "value-kept", f"time scales after {what}")
    ctx.equal(fs.time_direction, m.direction, "value-kept", f"direction after {what}")
    ctx.check(fs.temporal_network is m.net, "value-kept", f"network after {what}")
    missing, nxt = fs.state.next
    ctx.equal(sorted(missing), sorted(p for p in PROPS if PROPS[p] <= m.state and not m.set[p]),
              "next-step", f"missing parameters after {what}")
    ctx.equal(sorted(fs.state.missing_parameters), sorted(missing), "next-step",
              f"missing parameters after {what}")
    ctx.equal(nxt, list(METHODS)[min(m.state, 4)], "next-step", f"next method after {what}")


def step(rng, ctx, fs, m, name, kw, kinds):
    """call one step; kinds: computations that must be run when it is allowed"""
    ok = m.allowed(name)
    LOG.clear()
    res = results(fs)
    with warnings.catch_warnings(record=True) as caught:
        warnings.simplefilter("always")
        r = getattr(fs, name)(**kw)
    user = [w for w in caught if issubclass(w.category, UserWarning)]
    if not ok:
        ctx.check(len(user) > 0 and name in str(user[-1].message), "refused-warns",
                  f"{name} in state {m.state} without its inputs gave no warning: "
                  f"{[str(w.message) for w in user]}")
        ctx.check(r is None, "refused-no-effect", f"{name} refused but returned {r}")
        ctx.equal(list(LOG), [], "refused-no-effect", f"{name} refused but computed")
        ctx.equal(results(fs), res, "refused-no-effect", f"{name} refused but results changed")
        return False
    ctx.check(r is fs, "allowed-runs", f"{name} in state {m.state} with all inputs returned {r}, "
              f"warnings {[str(w.message) for w in user]}")
    ctx.equal([k for k in LOG], kinds, "allowed-runs", f"computations run by {name}")
    m.state = METHODS[name][1]
    return True


def results(fs):
    net = fs.temporal_network
    return (id(net), id(getattr(net, "laplacians", None)), id(getattr(net, "inter_T", None)),
            tuple(fs.flow_clustering_forward.items()), tuple(fs.flow_clustering_backward.items()))


def do(rng, ctx, fs, m, name):
    ns = len(m.scale)
    nd = 2 if m.direction == 0 else 1
    if name == "compute_laplacian_matrices":
        if step(rng, ctx, fs, m, name, {}, ["laplacian"]):
            m.lap, m.inter, m.clust = True, False, False
        return name
    if name == "compute_inter_transition_matrices":
        kw = {}
        u = rng.random()
        if u < 0.2:
            kw["linear_approx"] = True
            ctx.feature("linear")
        ok = m.allowed(name)
        if u > 0.85:
            t = float(rng.choice([0.5, 2.0, 4.0]))
            kw["time_scale" if rng.random() < 0.5 else "lamda"] = t
            ctx.feature("scale-argument")
            ns = 1
            if ok:
                m.scale = [t if "time_scale" in kw else 1 / t]
        if step(rng, ctx, fs, m, name, kw, ["inter"] * ns):
            ctx.check(m.lap, "inter-fresh", "interval matrices computed although the Laplacians "
                      "are not those of the current network and window")
            m.inter, m.clust = True, False
        return name, sorted(kw.items())
    if name == "set_flow_clustering":
        if step(rng, ctx, fs, m, name, {}, ["clustering"] * (ns * nd)):
            ctx.check(m.lap and m.inter, "clustering-fresh", "flow clustering created although "
                      "the interval matrices are not those of the current settings")
            m.clust = True
            m.set["flow_clustering_forward"] = m.set["flow_clustering_backward"] = True
            for d, want in (("forward", m.direction >= 0), ("backward", m.direction <= 0)):
                got = getattr(fs, "flow_clustering_" + d)
                if want:
                    ctx.check(all(isinstance(got.get(t), FlowIntegralClustering)
                                  for t in m.scale), "clustering-fresh", f"{d}: {got}")
        return name
    if name == "find_louvain_clustering":
        if step(rng, ctx, fs, m, name, {}, ["louvain"] * (ns * nd)):
            ctx.check(m.lap and m.inter and m.clust, "louvain-fresh", "clusters searched although "
                      "the flow clustering is not that of the current settings")
        return name
    kw = network_kwargs(rng)
    if step(rng, ctx, fs, m, name, kw, []):
        m.assign("temporal_network")
        m.state = 1
        m.net = fs.temporal_network
        ctx.check(isinstance(m.net, ContTempNetwork) and m.net.num_events == len(kw["source_nodes"]),
                  "set-network", "network set from events")
    return name


def forward(rng, ctx, fs, m):
    """whatever brings the analysis on"""
    missing = [p for p in PROPS if PROPS[p] <= m.state and not m.set[p]
               and not p.startswith("flow")]
    if missing and rng.random() < 0.9:
        return assign(rng, ctx, fs, m, str(rng.choice(missing)), valid=True)
    name = list(METHODS)[min(m.state, 4)]
    if m.state == 5 and rng.random() < 0.7:
        return deviate(rng, ctx, fs, m)
    return do(rng, ctx, fs, m, name)


def assign(rng, ctx, fs, m, prop, valid=False):
    u = rng.random()
    if prop == "temporal_network":
        if valid or u < 0.6:
            net = ContTempNetwork(**network_kwargs(rng))
            fs.temporal_network = net
            m.state = max(m.state, 1)
            m.assign(prop)
            m.net = net
            ctx.feature("set-network-object")
            return "network=object"
        m.net = None
        if u < 0.8:
            fs.temporal_network = None
            m.assign(prop, False)
            ctx.feature("unset-network")
            return "network=None"
        fs.temporal_network = [12345, "abc", {"a": 1}][int(rng.integers(3))]
        m.assign(prop)
        m.state = 0
        ctx.feature("junk-network")
        return "network=junk"
    if prop in ("t_start", "t_stop"):
        i = 0 if prop == "t_start" else 1
        v = None if u < 0.3 else ([0, 1, 2.5, 4] if i == 0 else [6, 7.5, 10, 12])[
            int(rng.integers(4))]
        setattr(fs, prop, v)
        m.window[i] = v
        m.assign(prop)
        return f"{prop}={v}"
    if prop == "time_scale":
        if not valid and u < 0.15:
            if rng.random() < 0.5:
                fs.time_scale = None
            else:
                fs.set_time_scale()
            m.scale = [None]
            m.assign(prop, False)
            ctx.feature("unset-scale")
            return "scale=None"
        if not valid and u < 0.3:
            bad = [0, -1.5, [1.0, -2.0], "abc"][int(rng.integers(4))]
            if rng.random() < 0.5:
                ctx.raises((TypeError, ValueError), "invalid-value-no-effect",
                           f"time scale {bad}", setattr, fs, "time_scale", bad)
            else:
                ctx.raises((TypeError, ValueError), "invalid-value-no-effect",
                           f"time scale {bad}", fs.set_time_scale, bad)
            return f"scale={bad}"
        if u < 0.5:
            v = [float(rng.choice([0.7, 3.0])), int(rng.integers(1, 5))][int(rng.integers(2))]
            if rng.random() < 0.5:
                fs.time_scale = v
            else:
                fs.set_time_scale(v)
            m.scale = [v]
        elif u < 0.65:
            m.scale = [0.5, 2.0]
            fs.time_scale = list(m.scale) if rng.random() < 0.5 else np.array(m.scale)
            ctx.feature("scale-list")
        elif u < 0.8:
            m.scale = [1.5, 4.0]
            fs.time_scale = iter(m.scale) if rng.random() < 0.5 else (v for v in m.scale)
            ctx.feature("scale-iterator")
        else:
            fs.set_time_scale(start=0, stop=1, num=3)
            m.scale = np.logspace(0, 1, 3).tolist()
            ctx.feature("scale-logspace")
        m.assign(prop)
        return f"scale={m.scale}"
    if prop == "time_direction":
        if not valid and u < 0.15:
            fs.time_direction = None
            m.direction = 0
            m.assign(prop, False)
            return "direction=None"
        if not valid and u < 0.3:
            ctx.raises(AssertionError, "invalid-value-no-effect", "direction 2", setattr, fs,
                       "time_direction", 2)
            return "direction=2"
        v = int(rng.integers(-1, 2))
        fs.time_direction = v
        m.direction = v
        m.assign(prop)
        ctx.feature(f"direction-{v}")
        return f"direction={v}"


def deviate(rng, ctx, fs, m):
    u = rng.random()
    if u < 0.45:
        p = ["temporal_network", "t_start", "t_stop", "time_scale", "time_direction"]
        return assign(rng, ctx, fs, m, str(rng.choice(p)))
    if u < 0.75:
        return do(rng, ctx, fs, m, str(rng.choice(list(METHODS))))
    if u < 0.82:
        with contextlib.redirect_stdout(io.StringIO()) as out:
            fs.help()
            fs.help("time_scale")
            fs.help("find_louvain_clustering", verbose=True)
        ctx.check(len(out.getvalue()) > 0, "help", "no help text")
        return "help"
    if u < 0.86:
        # a step that fails does not bring the analysis on
        if m.allowed("compute_laplacian_matrices"):
            ctx.raises(TypeError, "failed-step-no-progress", "unknown argument",
                       fs.compute_laplacian_matrices, no_such_argument=1)
        return "failed-laplacians"
    if u < 0.9:
        if m.allowed("set_temporal_network"):
            ctx.raises(Exception, "failed-step-no-progress", "events of different lengths",
                       fs.set_temporal_network, source_nodes=[1, 2], target_nodes=[2],
                       starting_times=[0], ending_times=[1])
        return "failed-network"
    if u < 0.95 and m.allowed("set_flow_clustering"):
        # a distribution of the wrong length: nothing to cluster afterwards
        n = m.net.num_nodes
        fs.set_flow_clustering(p1=np.full(n + 1, 1 / (n + 1)))
        m.state = 4
        m.set["flow_clustering_forward"] = m.direction < 0
        m.set["flow_clustering_backward"] = m.direction > 0
        m.clust = False
        for name, on in (("forward", m.direction >= 0), ("backward", m.direction <= 0)):
            left = getattr(fs, "flow_clustering_" + name)
            ctx.check(not on or not left or not any(q in left for q in fs.time_scale),
                      "failed-clustering-removed", f"a {name} clustering of earlier settings is "
                      "left after a failed one")
        ctx.feature("failed-clustering")
        return "failed-clustering"
    if m.state >= 4 and m.clust and m.direction >= 0:
        net = m.net
        T = [np.eye(net.num_nodes) * 0.5 + 0.5 / net.num_nodes] * 2
        rev = bool(rng.random() < 0.3)
        fic = FlowIntegralClustering(T_inter_list=T, reverse_time=rev)
        if rev:
            ctx.raises(AssertionError, "invalid-value-no-effect", "backward clustering set as "
                       "forward clustering", setattr, fs, "flow_clustering_forward",
                       (m.scale[0], fic))
            return "given-wrong-clustering"
        fs.flow_clustering_forward = (m.scale[0], fic)
        m.state = min(m.state, 4)
        ctx.check(fs.flow_clustering_forward[m.scale[0]] is fic, "value-kept", "given clustering")
        ctx.feature("given-clustering")
        return "given-clustering"
    return "nothing"
