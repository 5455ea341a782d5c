"""Building networks of the code under test from drawn events"""
import numpy as np

import flowstab
from flowstab.temporal_network import ContTempInstNetwork, ContTempNetwork

from .core import dense


def build(ev, **kw):
    return ContTempNetwork(**ev.lists(), **kw)


def times_of(net):
    """the event times of a network whose time grid exists"""
    return [v for v in np.asarray(net.times).tolist()]


def mats(seq):
    return [dense(m) for m in seq]


def check_list(ctx, got, want, monitor, what, atol=1e-9, rtol=1e-7):
    ctx.equal(len(got), len(want), monitor + "/count", f"number of {what}")
    for k, (g, w) in enumerate(zip(got, want)):
        ctx.close(g, w, monitor, f"{what} {k}", atol=atol, rtol=rtol)
