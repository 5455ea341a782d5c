"""C16: simulated contact sequences obey the declared dynamics"""
import bisect
from collections import Counter, defaultdict

import numpy as np

from vf.core import Skip, dense

from flowstab.synth_temp_network import Individual, SynthTempNetwork

CASES = {"quick": 600, "thorough": 20000}
RULE = ("a case is one population, partner rule and time range, simulated under a trace checker: "
        "all draws of waiting times and durations are recorded at the individuals and every "
        "simulated event is accounted for; distinct by configuration and random seed")
EXPECT = ["in-range", "end-order", "no-self", "no-double", "group-rule", "durations-drawn",
          "exactly-once", "activation-chain", "interactions-per-activation", "own-rates",
          "rates-at-time", "deterministic", "order-of-individuals", "states", "dt-states",
          "pairs-reached", "group-frequency", "mean-duration", "rejected", "lists",
          "random_uniform", "random_uniform_within_group", "block_probs", "block_probs_mod",
          "zero-row", "unnormalised", "crowded", "several-per-activation", "negative-start",
          "shuffled-individuals", "silent-group-quiet", "every-activation",
          "partner-frequency"]
ASSUMPTIONS = ["waiting times and durations are drawn through the individuals' draw methods",
               "statistical monitors alarm at eight standard deviations"]


class Rec(Individual):
    """an individual whose draws are recorded"""

    def __init__(self, log, *a, **kw):
        super().__init__(*a, **kw)
        self._log = log

    def draw_inter_duration(self, time=None):
        d = super().draw_inter_duration(time)
        self._log.append(("inter", self.ID, time, float(d)))
        return d

    def draw_activ_time(self, time=None):
        d = super().draw_activ_time(time)
        self._log.append(("activ", self.ID, time, float(d)))
        return d


def rejected(rng, ctx):
    k = int(rng.integers(7))
    ok = [Individual(i, group=i % 2) for i in range(4)]
    if k == 0:
        ctx.raises(ValueError, "rejected", "text as ID", Individual, "a")
    elif k == 1:
        ctx.raises(ValueError, "rejected", "text as group", Individual, 0, group="a")
    elif k == 2:
        ctx.raises(ValueError, "rejected", "IDs with gaps", SynthTempNetwork,
                   [Individual(i) for i in (0, 1, 5)])
    elif k == 3:
        ctx.raises((AssertionError, ValueError), "rejected", "equal IDs", SynthTempNetwork,
                   [Individual(i) for i in (0, 1, 1)])
    elif k == 4:
        ctx.raises(ValueError, "rejected", "groups with gaps", SynthTempNetwork,
                   [Individual(i, group=2 * i) for i in range(3)])
    elif k == 5:
        ctx.raises(ValueError, "rejected", "probabilities of the wrong shape", SynthTempNetwork,
                   ok, next_event_method="block_probs", inter_group_probs=np.ones((3, 3)))
    else:
        ctx.raises(ValueError, "rejected", "missing probability function", SynthTempNetwork, ok,
                   next_event_method="block_probs_mod")


def frequencies(rng, ctx):
    """a long run with contacts so short that nobody is ever busy: how often each partner is chosen"""
    G = int(rng.integers(1, 3))
    N = int(rng.integers(3, 6))
    groups = [int(v) for v in rng.permutation((list(range(G)) * N)[:N])]
    method = str(rng.choice(["random_uniform", "random_uniform_within_group", "block_probs",
                             "block_probs_mod"]))
    q = rng.random((G, G)) + 0.2
    q /= q.sum(1, keepdims=True)
    kw = {}
    if method == "block_probs":
        kw["inter_group_probs"] = q * (3 if rng.random() < 0.5 else 1)
    elif method == "block_probs_mod":
        kw["block_prob_mod_func"] = lambda t: q
    seed = int(rng.integers(2**31))
    ctx.describe(kind="frequencies", groups=groups, method=method, probs=q.tolist(), seed=seed)
    people = [Individual(i, group=groups[i], activ_distro_scale=0.5, inter_distro_scale=1e-4)
              for i in range(N)]
    sim = SynthTempNetwork(people, t_start=0, t_end=500, next_event_method=method, **kw)
    np.random.seed(seed)
    sim.run()
    size = Counter(groups)
    C = np.zeros((N, N))
    np.add.at(C, (sim.indiv_sources, sim.indiv_targets), 1)
    for i in range(N):
        # chances of each partner; a drawn group without anyone else in it means no contact
        p = np.zeros(N)
        for j in range(N):
            if j != i:
                same = groups[i] == groups[j]
                if method == "random_uniform":
                    p[j] = 1
                elif method == "random_uniform_within_group":
                    p[j] = same
                else:
                    p[j] = q[groups[i], groups[j]] / (size[groups[j]] - same)
        if p.sum() == 0:
            ctx.equal(C[i].sum(), 0, "partner-frequency", f"contacts of {i}, who has no partner")
            continue
        p /= p.sum()
        m = C[i].sum()
        for j in range(N):
            sd = np.sqrt(max(m * p[j] * (1 - p[j]), 1e-12))
            ctx.check(abs(C[i, j] - m * p[j]) <= 8 * sd + 0.002 * m, "partner-frequency",
                      f"{i} chose {j} {C[i, j]:.0f} times of {m:.0f}, expected {m * p[j]:.1f} "
                      f"(method {method}, groups {groups})")
    ctx.nontrivial("frequencies", groups, method, seed)


def case(rng, ctx):
    if rng.random() < 0.05:
        return rejected(rng, ctx)
    if rng.random() < 0.04:
        return frequencies(rng, ctx)
    G = int(rng.integers(1, 4))
    N = int(rng.integers(max(2, G), 9))
    groups = list(range(G)) + [int(v) for v in rng.integers(0, G, N - G)]
    rng.shuffle(groups)
    method = str(rng.choice(["random_uniform", "random_uniform_within_group", "block_probs",
                             "block_probs_mod"]))
    ctx.feature(method)
    t0 = float(rng.choice([0, 0, 7.5, -20]))
    if t0 < 0:
        ctx.feature("negative-start")
    span = float(rng.choice([5, 12, 25]))
    per = int(rng.choice([1, 1, 2, 3]))
    if per > 1:
        ctx.feature("several-per-activation")
    crowded = rng.random() < 0.3
    if crowded:
        ctx.feature("crowded")
    stat = (not crowded) and rng.random() < 0.35
    own = rng.random() < 0.5 and not stat
    if stat:
        span = float(rng.choice([60, 100]))
    inter_scale = 5.0 if crowded else 0.02 if stat else float(rng.choice([0.1, 1.0]))
    modf = {}
    act = {}
    specs = []
    for i in range(N):
        kw = dict(group=groups[i], activ_distro_scale=float(rng.choice([0.5, 2.0])),
                  inter_distro_scale=inter_scale)
        if own:
            # durations that name the individual
            kw["inter_distro_loc"] = 0.05 * (i + 1)
            kw["inter_distro_scale"] = 1e-7
        if rng.random() < 0.2 and not stat:
            base = 0.05 * (i + 1)
            # a location of zero is a value like any other
            later = 0.0 if rng.random() < 0.4 else 2 * base
            f = (lambda b, c: lambda t: (b if t < t0 + span / 2 else c, 1e-6))(base, later)
            kw["inter_distro_mod_func"] = f
            modf[i] = base, later
        if rng.random() < 0.2 and not stat:
            # waiting times that name the individual and the time
            kw["activ_distro_mod_func"] = act[i] = (lambda b: lambda t: (
                b if t < t0 + span / 3 else 3 * b, 1e-7))(0.21 + 0.07 * i)
        specs.append(kw)
    kw = dict(t_start=t0, t_end=t0 + span, next_event_method=method,
              num_interactions_per_activation=per)
    rows = None
    probs = None
    if method == "block_probs":
        P = rng.random((G, G)) * (rng.random((G, G)) < 0.7)
        if rng.random() < 0.25:
            P[int(rng.integers(G))] = 0
        if not (P.sum(1) > 0).any():
            P[0, 0] = 1
        if (P.sum(1) == 0).any():
            ctx.feature("zero-row")
        if rng.random() < 0.5:
            P = P / np.where(P.sum(1) == 0, 1, P.sum(1))[:, None]
        else:
            ctx.feature("unnormalised")
        probs = lambda t: P
        kw["inter_group_probs"] = P.tolist() if rng.random() < 0.3 else P.copy()
    elif method == "block_probs_mod":
        P0, P1 = np.roll(np.eye(G), 1, axis=1), np.eye(G)
        cut = t0 + span * float(rng.random())
        if rng.random() < 0.3:
            P1 = P1.copy()
            P1[0] = 0
        probs = lambda t: P0 if t < cut else P1
        kw["block_prob_mod_func"] = probs
    seed = int(rng.integers(2**31))
    ctx.describe(individuals=N, groups=groups, method=method, span=span, per_activation=per,
                 seed=seed)
    states = rng.random() < 0.5 and span <= 20
    dt = float(rng.choice([1.0, 4.0]))
    loud = [False, False, False, True, 11][int(rng.integers(5))]
    if loud:
        ctx.feature("verbose")

    def simulate(order):
        log = []
        inds = [Rec(log, i, **specs[i]) for i in order]
        np.random.seed(seed)
        sim = SynthTempNetwork(individuals=inds, **kw)
        sim.run(save_all_states=states, save_dt_states=states, dt=dt, verbose=loud)
        ev = list(zip([int(v) for v in sim.indiv_sources], [int(v) for v in sim.indiv_targets],
                      [float(v) for v in sim.start_times], [float(v) for v in sim.end_times]))
        ctx.check(len(sim.indiv_sources) == len(sim.indiv_targets) == len(sim.start_times)
                  == len(sim.end_times), "lists", "lists of different lengths")
        return ev, log, sim

    ev, log, sim = simulate(range(N))
    trace(ctx, ev, log, N, groups, method, probs, t0, t0 + span, per)
    for kind, i, t, d in log:
        if kind == "activ" and i in act:
            w = act[i](t)[0]
            ctx.check(w - 1e-9 <= d <= w + 1e-4, "rates-at-time", f"individual {i} waits {d} at "
                      f"{t}, its rate function says {w}")
    for i, (a, b, s, e) in enumerate(ev):
        if a in modf:
            w = modf[a][0 if s < t0 + span / 2 else 1]
            ctx.check(w - 1e-9 <= e - s <= w + 1e-4, "rates-at-time", f"event {i} of individual {a} at {s} "
                      f"lasts {e - s}, its rate function says {w}")
        elif own:
            w = 0.05 * (a + 1)
            ctx.check(w - 1e-9 <= e - s <= w + 1e-4, "own-rates", f"event {i} of individual {a} "
                      f"lasts {e - s}, declared {w}")
    if states:
        check_states(ctx, ev, sim, t0)
    statistics(ctx, rng, ev, log, N, groups, method, P if method == "block_probs" else None, specs, modf,
               inter_scale, per)
    u = rng.random()
    if u < 0.3:
        ev2, _, _ = simulate(range(N))
        ctx.equal(ev2, ev, "deterministic", "second simulation with the same seed")
    elif u < 0.75:
        order = [int(v) for v in rng.permutation(N)]
        if order != sorted(order):
            ctx.feature("shuffled-individuals")
        ev3, _, _ = simulate(order)
        ctx.equal(ev3, ev, "order-of-individuals", f"individuals listed as {order}")
    if probs is not None and method == "block_probs":
        for g in range(G):
            if P[g].sum() == 0:
                ctx.check(not any(groups[a] == g for a, _, _, _ in ev), "silent-group-quiet",
                          f"group {g} starts contacts")
    ctx.nontrivial(N, groups, method, seed)


def trace(ctx, ev, log, N, groups, method, probs, t0, t1, per):
    """online specification of one simulation"""
    last_end = -np.inf
    open_until = {}
    for i, (a, b, s, e) in enumerate(ev):
        ctx.check(t0 <= s < t1 and e >= s, "in-range", f"event {i} from {s} to {e} in [{t0}, {t1})")
        ctx.check(i == len(ev) - 1 or e < t1, "in-range", f"event {i} ends at {e} after {t1}")
        ctx.check(e >= last_end, "end-order", f"event {i} ends at {e} before {last_end}")
        last_end = e
        ctx.check(0 <= a < N and 0 <= b < N and a != b, "no-self", f"event {i} from {a} to {b}")
        ctx.check(s >= open_until.get((a, b), -np.inf), "no-double", f"event {i} of {a} and {b} "
                  f"starts at {s} while one runs until {open_until.get((a, b))}")
        open_until[(a, b)] = e
        ga, gb = groups[a], groups[b]
        if method == "random_uniform_within_group":
            ctx.check(ga == gb, "group-rule", f"event {i} between groups {ga} and {gb}")
        elif probs is not None:
            ctx.check(probs(s)[ga, gb] > 0, "group-rule",
                      f"event {i} at {s} from group {ga} to {gb} which has no probability")
        else:
            ctx.check(True, "group-rule")
    # activations: each individual's waiting times add up
    nxt = {i: t0 for i in range(N)}
    times = defaultdict(list)
    for kind, i, t, d in log:
        if kind == "activ":
            ctx.check(t is not None and abs(t - nxt[i]) <= 1e-9 * (1 + abs(t)), "activation-chain",
                      f"individual {i} draws its next activation at {t}, expected {nxt[i]}")
            ctx.check(d >= 0, "activation-chain", f"waiting time {d}")
            times[i].append(t)
            nxt[i] = t + d
    ctx.equal(sorted(times), list(range(N)), "activation-chain", "individuals that wait")
    # pending activations: at most one, the one that ended the run, is processed after the end
    end = max([t for _, _, t, _ in log] + [e for *_, e in ev] + [t0])
    pend = [i for i in range(N) if nxt[i] < t1]
    ctx.equal(pend, [], "activation-chain", "individuals whose due activation never came")
    # durations
    act = {i: {round(x, 6) for x in v[1:]} for i, v in times.items()}
    draws = defaultdict(list)
    at = Counter()
    for kind, i, t, d in log:
        if kind == "inter":
            draws[i].append((t, t + d))
            at[(i, t)] += 1
            ctx.check(any(round(t + x, 6) in act[i] for x in (0, 5e-7, -5e-7)), "durations-drawn",
                      f"individual {i} starts a contact at {t}, not at an activation")
    for k, v in at.items():
        ctx.check(v <= per, "interactions-per-activation", f"{v} contacts of individual {k[0]} "
                  f"at {k[1]}, {per} per activation")
    # every activation starts contacts, as many as asked for if there are partners for them
    size = Counter(groups)
    for i in range(N):
        for t in times[i][1:]:
            if any(abs(e - t) < 1e-9 for _, e in draws[i]):
                continue
            busy = sum(s < t < e for s, e in draws[i])
            if method == "random_uniform":
                lo = hi = min(per, N - 1 - busy)
            elif method == "random_uniform_within_group":
                lo = hi = min(per, size[groups[i]] - 1 - busy)
            else:
                row = probs(t)[groups[i]]
                free = [size[h] - (h == groups[i]) - busy for h in range(len(row)) if row[h] > 0]
                lo, hi = (per if free and min(free) >= per else 0), (per if free else 0)
            ctx.check(lo <= at[(i, t)] <= hi, "every-activation", f"individual {i} activated at "
                      f"{t} with {busy} running contacts started {at[(i, t)]}, expected {lo} to "
                      f"{hi} ({method})")
    for v in draws.values():
        v.sort()
    used = {i: [False] * len(v) for i, v in draws.items()}
    for a, b, s, e in ev:
        lst = draws.get(a, [])
        k = bisect.bisect_left(lst, (s - 1e-7, -np.inf))
        while k < len(lst) and lst[k][0] <= s + 1e-7:
            if not used[a][k] and abs(lst[k][1] - e) <= 1e-7:
                break
            k += 1
        ok = k < len(lst) and lst[k][0] <= s + 1e-7
        ctx.check(ok, "durations-drawn", f"contact of {a} and {b} from {s} to {e} was never "
                  "started, or its duration is not the one drawn")
        used[a][k] = True
    # exactly once: all contacts that end in time are listed
    for i, lst in draws.items():
        for (s, e), u in zip(lst, used[i]):
            if not u:
                ctx.check(e >= min(t1, end) - 1e-7, "exactly-once", f"contact of {i} from {s} to "
                          f"{e} ended in time but is not listed")
    ctx.check(True, "exactly-once")


def check_states(ctx, ev, sim, t0):
    ts = sorted(sim.all_states)
    ctx.check(abs(ts[0] - t0) < 1e-12 and dense(sim.all_states[ts[0]]).sum() == 0, "states",
              "initial state")
    by = defaultdict(list)
    for a, b, s, e in ev:
        by[(a, b)].append((s, e))
    final = dense(sim.all_states[ts[-1]])
    for t in ts[1:]:
        A = dense(sim.all_states[t])
        for (a, b), iv in by.items():
            on = any(s <= t < e for s, e in iv)
            if on:
                ctx.check(A[a, b] == 1, "states", f"{a}-{b} runs at {t} but is not in the state")
        for a, b in zip(*np.nonzero(A)):
            a, b = int(a), int(b)
            on = any(s <= t < e for s, e in by.get((a, b), []))
            ctx.check(on or final[a, b] == 1, "states", f"{a}-{b} in the state of {t} but no such "
                      "contact")
    for a, b, s, e in ev:
        ctx.check(s in sim.all_states and e in sim.all_states, "states", f"no state at the start or end of {a}-{b}")
    for t, A in sim.saved_states.items():
        ctx.check(t in sim.all_states and (dense(A) == dense(sim.all_states[t])).all(), "dt-states",
                  f"saved state at {t}")


def statistics(ctx, rng, ev, log, N, groups, method, P, specs, modf, inter_scale, per):
    n = len(ev)
    durs = [d for k, i, t, d in log if k == "inter" and i not in modf]
    if len(durs) >= 100 and "inter_distro_loc" not in specs[0]:
        z = (np.mean(durs) - inter_scale) / (inter_scale / np.sqrt(len(durs)))
        ctx.check(abs(z) < 8, "mean-duration", f"mean duration {np.mean(durs)} of {len(durs)}, "
                  f"declared {inter_scale}")
    for i in range(N):
        w = [d for k, j, t, d in log if k == "activ" and j == i]
        sc = specs[i]["activ_distro_scale"]
        if len(w) >= 60 and "activ_distro_mod_func" not in specs[i]:
            z = (np.mean(w) - sc) / (sc / np.sqrt(len(w)))
            # the last waiting time is longer than the others on average, by one draw at most
            ctx.check(abs(z) < 9, "mean-duration", f"mean waiting time {np.mean(w)} of {len(w)} for {i}, declared {sc}")
    if n >= 60 and inter_scale <= 0.02 and "inter_distro_loc" not in specs[0] and not modf:
        if method == "random_uniform":
            for i in range(N):
                out = [b for a, b, _, _ in ev if a == i]
                if len(out) >= 30 * N:
                    c = Counter(out)
                    ctx.equal(sorted(c), [j for j in range(N) if j != i], "pairs-reached",
                              f"targets of {i} in {len(out)} contacts")
                if len(out) >= 60 and per == 1:
                    p = 1 / (N - 1)
                    for j in range(N):
                        if j != i and 0 < p < 1:
                            z = (out.count(j) - len(out) * p) / np.sqrt(len(out) * p * (1 - p))
                            ctx.check(abs(z) < 8, "pairs-reached", f"{i} chose {j} {out.count(j)} "
                                      f"times of {len(out)}")
        if method == "block_probs" and per == 1:
            size = Counter(groups)
            for g in range(P.shape[0]):
                out = [groups[b] for a, b, _, _ in ev if groups[a] == g]
                if len(out) < 60 or size[g] < 2:
                    continue
                q = P[g] / P[g].sum()
                for h in range(P.shape[0]):
                    if 0.02 < q[h] < 0.98:
                        z = (out.count(h) - len(out) * q[h]) / np.sqrt(len(out) * q[h] * (1 - q[h]))
                        # a busy target is no contact: a small bias
                        ctx.check(abs(z) < 8 + 0.06 * np.sqrt(len(out)), "group-frequency",
                                  f"group {g} chose group {h} {out.count(h)} times of {len(out)}, "
                                  f"declared probability {q[h]}")
