"""Context handed to every case: the oracles, the counters and the verdict.

A case is one execution of the real code under a workload drawn from a seed.
Monitors are named; every evaluation of a monitor is counted, so that the
evidence says what was observed and not only that something ran.
"""
import hashlib
import json
import traceback
from collections import Counter

import numpy as np


class Violation(Exception):
    """The code under test broke the property"""

    def __init__(self, monitor, message):
        super().__init__(f"[{monitor}] {message}")
        self.monitor = monitor
        self.message = message


class Skip(Exception):
    """The drawn case lies outside the domain of the property"""


def dense(x):
    if isinstance(x, np.ndarray):
        return np.asarray(x)
    if hasattr(x, "toarray"):
        return np.asarray(x.toarray())
    return np.asarray(x)


def short(x, n=400):
    s = repr(x)
    return s if len(s) <= n else s[:n] + "..."


class Ctx:
    def __init__(self, seed, scratch, tier):
        self.seed = seed
        self.scratch = scratch          # directory of this case, removed after
        self.tier = tier
        self.monitors = Counter()       # evaluations per monitor
        self.cover = Counter()          # workload features reached
        self.desc = {}                  # what the case was
        self.key = None                 # identity of the case, None = trivial

    # -- describing the case ---------------------------------------------
    def describe(self, **kw):
        self.desc.update(kw)

    def feature(self, *names):
        for n in names:
            self.cover[str(n)] += 1

    def nontrivial(self, *key):
        h = hashlib.sha1(repr(key).encode())
        self.key = h.hexdigest()[:16]

    # -- oracles ----------------------------------------------------------
    def check(self, cond, monitor, message=""):
        self.monitors[monitor] += 1
        if not bool(cond):
            raise Violation(monitor, message if isinstance(message, str) else message())

    def fail(self, monitor, message):
        self.monitors[monitor] += 1
        raise Violation(monitor, message)

    def equal(self, a, b, monitor, message=""):
        self.monitors[monitor] += 1
        try:
            ok = bool(a == b)
        except Exception:
            ok = bool(np.array_equal(a, b))
        if not ok:
            raise Violation(monitor, f"{message}: got {short(a)}, expected {short(b)}")

    def close(self, got, want, monitor, message="", atol=1e-9, rtol=1e-7):
        self.monitors[monitor] += 1
        g, w = dense(got), dense(want)
        if g.shape != w.shape:
            raise Violation(monitor, f"{message}: shape {g.shape}, expected {w.shape}")
        if g.size == 0:
            return
        with np.errstate(all="ignore"):
            bad = ~(np.abs(g - w) <= atol + rtol * np.abs(w))
        if bad.any():
            i = tuple(int(v) for v in np.argwhere(bad)[0])
            raise Violation(monitor, f"{message}: {int(bad.sum())} of {g.size} values "
                            f"differ, first at {i}: got {g[i]!r}, expected {w[i]!r}")

    def no_raise(self, monitor, message, fn, *a, **kw):
        """Call the code under test on an input of its domain"""
        self.monitors[monitor] += 1
        try:
            return fn(*a, **kw)
        except (Violation, Skip):
            raise
        except Exception as e:
            tb = traceback.format_exc().strip().splitlines()
            raise Violation(monitor, f"{message}: raised {type(e).__name__}: {e} "
                            f"({' | '.join(x.strip() for x in tb[-5:-1])})")

    def raises(self, excs, monitor, message, fn, *a, **kw):
        self.monitors[monitor] += 1
        try:
            r = fn(*a, **kw)
        except excs:
            return
        except Exception as e:
            raise Violation(monitor, f"{message}: raised {type(e).__name__}: {e}")
        raise Violation(monitor, f"{message}: no exception, returned {short(r, 120)}")


# -- snapshots: did a call modify what the caller handed in? -------------------
def snap(x, depth=0):
    """A comparable deep copy of the value of x"""
    import pandas as pd
    import scipy.sparse as sp
    if depth > 8:
        return ("...",)
    if x is None or isinstance(x, (bool, int, float, str, bytes, complex)):
        return x
    if isinstance(x, np.generic):
        return x.item()
    if isinstance(x, np.ndarray):
        return ("nd", str(x.dtype), x.shape, x.tobytes() if x.dtype != object
                else tuple(snap(v, depth+1) for v in x.ravel()))
    if sp.issparse(x):
        # the matrix, not its storage order: sorting indices or dropping
        # explicit zeros is no change of value
        return ("sp", x.shape, dense(x).tobytes())
    if isinstance(x, pd.DataFrame):
        return ("df", tuple(map(str, x.columns)), tuple(x.index.tolist()),
                tuple(tuple(snap(v, depth+1) for v in x[c].tolist()) for c in x.columns))
    if isinstance(x, (pd.Index, pd.Series)):
        return ("pd", tuple(snap(v, depth+1) for v in x.tolist()))
    if isinstance(x, dict):
        return ("dict", tuple((snap(k, depth+1), snap(v, depth+1)) for k, v in x.items()))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, tuple(snap(v, depth+1) for v in x))
    if isinstance(x, (set, frozenset)):
        return ("set", tuple(sorted((snap(v, depth+1) for v in x), key=repr)))
    if hasattr(x, "toarray") and hasattr(x, "shape"):
        return ("mat", type(x).__name__, tuple(x.shape), dense(x).tobytes())
    if hasattr(x, "cluster_list"):
        return ("part", snap(x.cluster_list, depth+1))
    return ("obj", id(x))


def jsonable(x):
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, set, frozenset)):
        return [jsonable(v) for v in x]
    if isinstance(x, np.generic):
        return x.item()
    if isinstance(x, np.ndarray):
        return jsonable(x.tolist())
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    return str(x)
