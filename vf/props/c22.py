"""C22: state tracking of user classes enforces the declared order"""
import textwrap
import warnings

import numpy as np

from vf.core import Skip

from flowstab.state_tracking import OrderedEnum, StateMeta

register = StateMeta.register

CASES = {"quick": 6000, "thorough": 120000}
RULE = ("a case is one generated class (states, properties and methods with drawn states, in a "
        "drawn order) and one history of assignments and calls on one or two instances, "
        "followed step by step by an explicit model; distinct by declaration and history")
EXPECT = ["ran", "refused-state", "refused-property", "no-effect", "warned", "not-warned",
          "result", "current-state", "next-steps", "missing", "unset-by-none", "none-is-a-value",
          "raising-method", "raising-setter", "two-instances", "unused-states", "gaps-in-values",
          "arguments-passed", "docs", "order", "init", "set-in-init", "nested-call",
          "method-sets-property", "no-minimal-state", "read-back", "state-set-back"]


class Boom(Exception):
    pass


def make(rng, ctx):
    k = int(rng.integers(2, 7))
    vals = list(range(k))
    if rng.random() < 0.5:
        vals = sorted(int(v) for v in rng.choice(40, k, replace=False) - 10)
        ctx.feature("gaps-in-values")
    names = [f"S{i}" for i in range(k)]
    order = list(rng.permutation(k)) if rng.random() < 0.3 else list(range(k))
    states = OrderedEnum("Steps", [(names[i], vals[i]) for i in order])
    S = [states[n] for n in names]           # by value
    np_, nm = int(rng.integers(0, 5)), int(rng.integers(1, 6))
    decl = []
    for i in range(np_):
        decl.append(dict(kind="prop", name=f"p{i}", next=int(rng.integers(k)),
                         min=None if rng.random() < 0.7 else int(rng.integers(k)),
                         ignore=bool(rng.random() < 0.7),
                         doc=bool(rng.random() < 0.8)))
    for i in range(nm):
        decl.append(dict(kind="meth", name=f"m{i}", next=int(rng.integers(k)),
                         min=None if rng.random() < 0.06 else int(rng.integers(k)),
                         doc=bool(rng.random() < 0.8),
                         sets=f"p{int(rng.integers(np_))}" if np_ and rng.random() < 0.15
                         else None,
                         calls=f"m{int(rng.integers(i))}" if i and rng.random() < 0.15
                         else None))
    decl = [decl[i] for i in rng.permutation(len(decl))]
    ns = {}
    for d in decl:
        if d["kind"] == "prop":
            ns[d["name"]] = make_prop(d, S)
        else:
            ns[d["name"]] = make_meth(d, S)
    with_init = bool(rng.random() < 0.6)
    in_init = [d["name"] for d in decl if d["kind"] == "prop" and rng.random() < 0.2] \
        if with_init else []
    if with_init:
        def __init__(self, a, b=None):
            self.log = []
            self.args = (a, b)
            for p in in_init:
                setattr(self, p, "init")
        ns["__init__"] = __init__
    ns["plain"] = lambda self: 7
    cls = StateMeta("Analysis", (), ns, states=states)
    if set(S) - {S[d[x]] for d in decl for x in ("next", "min") if d[x] is not None}:
        ctx.feature("unused-states")
    return cls, S, decl, with_init, in_init


def make_prop(d, S):
    name = d["name"]

    def get(self):
        return self.__dict__.get("_" + name)

    def set_(self, value):
        if value == "boom":
            raise Boom
        self.__dict__["_" + name] = value
        self.__dict__.setdefault("log", []).append(("set", name, value))
    get.__name__ = set_.__name__ = name
    if d["doc"]:
        get.__doc__ = f"""The value of {name}.

        More about {name}
            indented
        """
        set_.__doc__ = f"""How to set {name}.
        """
    kw = {} if d["min"] is None else {"minimal_state": S[d["min"]]}
    return register(next_state=S[d["next"]], ignore_none=d["ignore"], **kw)(property(get, set_))


def make_meth(d, S):
    name = d["name"]

    def f(self, *a, **k):
        self.__dict__.setdefault("log", []).append(("run", name, a, tuple(k.items())))
        if k.get("boom"):
            raise Boom
        if d["sets"]:
            setattr(self, d["sets"], "by-method")
        if d["calls"]:
            getattr(self, d["calls"])("nested")
        return (name, a)
    f.__name__ = name
    if d["doc"]:
        f.__doc__ = f"""Runs {name}.

        Needs what it needs.
        """
    kw = {} if d["min"] is None else {"minimal_state": S[d["min"]]}
    return register(next_state=S[d["next"]], **kw)(f)


class Model:
    """the declared order, nothing else"""

    def __init__(self, S, decl):
        self.S, self.decl = S, {d["name"]: d for d in decl}
        self.order = [d["name"] for d in decl]
        self.used = {d[x] for d in decl for x in ("next", "min") if d[x] is not None}
        self.cur = 0
        self.set = {n: False for n in self.order if self.decl[n]["kind"] == "prop"}
        self.val = {}
        self.log = []

    def required(self, s):
        if s not in self.used:
            return []
        return [n for n in self.order if n in self.set and self.decl[n]["next"] <= s]

    def missing(self, s):
        return [p for p in self.required(s) if not self.set[p]]

    def next_method(self):
        if self.cur not in self.used:
            return None
        m = [n for n in self.order if n not in self.set and self.decl[n]["min"] is not None
             and self.decl[n]["min"] <= self.cur]
        return m[-1] if m else None

    def assign(self, p, v):
        if v == "boom":
            return
        d = self.decl[p]
        self.val[p] = v
        self.log.append(("set", p, v))
        self.set[p] = not (v is None and d["ignore"])
        self.cur = min(self.cur, d["next"])

    def call(self, m, a, kw):
        """returns (outcome, result): outcome ran / state / property / raised, and how many
        refusals (warnings) occurred"""
        d = self.decl[m]
        if d["min"] is not None and self.cur < d["min"]:
            return "state", None, 1
        if d["min"] is not None and self.missing(d["min"]):
            return "property", None, 1
        self.log.append(("run", m, a, tuple(kw.items())))
        if kw.get("boom"):
            return "raised", None, 0
        n = 0
        if d["sets"]:
            self.assign(d["sets"], "by-method")
        if d["calls"]:
            n += self.call(d["calls"], ("nested",), {})[2]
        self.cur = d["next"]
        return "ran", (m, a), n


def compare(ctx, o, m, what):
    ctx.equal(o.state.current, m.S[m.cur], "current-state", what)
    ctx.equal(list(o.state.missing_parameters), m.missing(m.cur), "missing", what)
    to_set, to_run = o.state.next
    ctx.equal(list(to_set), m.missing(m.cur), "next-steps", f"to set, {what}")
    ctx.equal(to_run or None, m.next_method(), "next-steps", f"to run, {what}")
    ctx.equal(o.__dict__.get("log", []), m.log, "no-effect", f"calls that took place, {what}")
    for p, v in m.val.items():
        ctx.equal(getattr(o, p), v, "read-back", f"value of {p}, {what}")


def enum_order(rng, ctx):
    a = OrderedEnum("A", [("x", 3), ("y", -1), ("z", 10)])
    b = OrderedEnum("B", [("x", 3), ("y", -1), ("z", 10)])
    m = list(a)
    for u in m:
        for v in m:
            for op in ("__lt__", "__le__", "__gt__", "__ge__", "__eq__", "__ne__"):
                ctx.equal(getattr(u, op)(v), getattr(u.value, op)(v.value), "order",
                          f"{u} {op} {v}")
            ctx.check((u == v) <= (hash(u) == hash(v)), "order", "hash")
    ctx.check(a.x != b.x and not (a.x == b.x), "order", "members of different enums are equal")
    ctx.raises(TypeError, "order", "comparison of different enums", lambda: a.x < b.z)
    ctx.equal(sorted(m), sorted(m, key=lambda s: s.value), "order", "sorting")


def case(rng, ctx):
    if rng.random() < 0.02:
        enum_order(rng, ctx)
    cls, S, decl, with_init, in_init = make(rng, ctx)
    ctx.describe(declaration=decl, states=[(s.name, s.value) for s in S])
    objs = []
    for i in range(2 if rng.random() < 0.3 else 1):
        o = cls(i, b=(i, "b")) if with_init else cls()
        m = Model(S, decl)
        if with_init:
            ctx.equal(getattr(o, "args", None), (i, (i, "b")), "init", "arguments of __init__")
        for p in in_init:
            m.assign(p, "init")
            ctx.feature("set-in-init")
        objs.append((o, m))
        compare(ctx, o, m, "new object")
    if len(objs) > 1:
        ctx.feature("two-instances")
    for d in decl:
        f = getattr(cls, d["name"])
        if d["kind"] == "prop":
            info, how = (f.__doc__, f.fset.__doc__)
            for q, doc, start in (("info", info, "The value of"), ("howto", how, "How to set")):
                t = getattr(objs[0][0].state, q)[d["name"]]
                ctx.check(t.startswith(start + " " + d["name"]) if d["doc"] else t == "", "docs",
                          f"{q} of {d['name']}: {t!r}")
        else:
            ctx.equal(f.__name__, d["name"], "docs", "name of the method")
            for q in ("info", "howto"):
                t = getattr(objs[0][0].state, q)[d["name"]]
                ctx.check(t.startswith("Runs " + d["name"]) if d["doc"] else t == "", "docs",
                          f"{q} of {d['name']}: {t!r}")
    hist = []
    props = [d["name"] for d in decl if d["kind"] == "prop"]
    meths = [d["name"] for d in decl if d["kind"] == "meth"]
    for step in range(int(rng.integers(4, 18))):
        j = int(rng.integers(len(objs)))
        o, m = objs[j]
        if props and rng.random() < 0.4:
            p = str(rng.choice(props))
            v = [0, "x", None, False, "boom", [1]][int(rng.choice(6, p=[.2, .35, .2, .1, .05, .1]))]
            before = m.cur
            hist.append((j, p, v))
            with warnings.catch_warnings(record=True) as w:
                warnings.simplefilter("always")
                try:
                    setattr(o, p, v)
                    raised = False
                except Boom:
                    raised = True
            ctx.equal(raised, v == "boom", "raising-setter" if v == "boom" else "not-warned",
                      f"exception of the setter, {hist}")
            ctx.equal(len(w), 0, "not-warned", f"warnings when setting, {hist}")
            m.assign(p, v)
            if v is None:
                ctx.feature("unset-by-none" if m.decl[p]["ignore"] else "none-is-a-value")
            if m.cur < before:
                ctx.feature("state-set-back")
        else:
            q = str(rng.choice(meths))
            kw = {} if rng.random() < 0.7 else ({"boom": 1} if rng.random() < 0.4 else {"z": 2})
            a = () if rng.random() < 0.6 else (step, "a")
            hist.append((j, q, a, kw))
            with warnings.catch_warnings(record=True) as w:
                warnings.simplefilter("always")
                try:
                    r, raised = getattr(o, q)(*a, **kw), False
                except Boom:
                    r, raised = None, True
            d = m.decl[q]
            out, want, n = m.call(q, a, kw)
            ctx.equal(raised, out == "raised", "raising-method" if kw.get("boom") else "result",
                      f"exception of the method, {hist}")
            ctx.equal(r, want, "result", f"returned value, {hist}")
            ctx.equal(len(w), n, "warned" if n else "not-warned", f"warnings, {hist}")
            if w:
                ctx.check(all(issubclass(x.category, Warning) for x in w), "warned", "category")
                if out == "property":
                    t = str(w[0].message)
                    ctx.check(all(p in t for p in m.missing(d["min"])), "warned",
                              f"the missing properties are not named in {t!r}")
            ctx.feature({"ran": "ran", "state": "refused-state", "property": "refused-property",
                         "raised": "raising-method"}[out])
            if out == "ran":
                if a or kw:
                    ctx.feature("arguments-passed")
                if d["min"] is None:
                    ctx.feature("no-minimal-state")
                if d["sets"]:
                    ctx.feature("method-sets-property")
                if d["calls"]:
                    ctx.feature("nested-call")
        for i, (o2, m2) in enumerate(objs):
            compare(ctx, o2, m2, f"object {i} after {hist}")
    ctx.nontrivial(decl, hist)
