"""C25: results do not depend on the optional accelerators"""
import json
import os
import subprocess
import sys

from vf.run import HERE, is_known, read_known

# cython: compiled loops or their replacements in Python
# sparse_dot_mkl: sparse products of the MKL or of scipy
PLANS = ([("cython", p, k) for p, k in
          [("C06", 60), ("C06", 60), ("C07", 60), ("C07", 60), ("C07", 60), ("C21", 60),
           ("C21", 60), ("C08", 20), ("C09", 20), ("C10", 10), ("C11", 40), ("C11", 40),
           ("C12", 60), ("C12", 60), ("C02", 15), ("C15", 15), ("C24", 40)]]
         + [("sparse_dot_mkl", p, k) for p, k in
            [("C06", 60), ("C08", 20), ("C09", 20), ("C04", 40), ("C02", 15), ("C15", 15),
             ("C21", 60), ("C24", 40), ("C20", 8)]]
         + [("cython,sparse_dot_mkl", p, k) for p, k in
            [("C06", 60), ("C07", 60), ("C08", 20), ("C24", 40)]])
CASES = {"quick": 4 * len(PLANS), "thorough": 150 * len(PLANS)}
RULE = ("a case is a batch of cases of another property's workload and monitors, run in a fresh "
        "interpreter in which Cython, sparse_dot_mkl or both cannot be found; distinct by the "
        "hidden modules, the workload and the cases of the batch that held")
EXPECT = ["without-cython", "without-sparse_dot_mkl", "without-both", "C02", "C04", "C06", "C07",
          "C08", "C09", "C10", "C11", "C12", "C15", "C20", "C21", "C24"]
ASSUMPTIONS = ["a replacement that declares itself missing (NotImplementedError) is no result; "
               "the cases that reach one are counted as refused"]


def refused(r):
    return r["message"].startswith("NotImplementedError")


def case(rng, ctx):
    names, prop, number = PLANS[int(rng.integers(len(PLANS)))]
    first = int(rng.integers(1, 10 ** 6))
    ctx.feature("without-" + ("both" if "," in names else names), prop)
    out = os.path.join(ctx.scratch, "out.jsonl")
    work = os.path.join(ctx.scratch, "work")
    os.mkdir(work)
    p = subprocess.run([sys.executable, "-W", "ignore", "-m", "vf.without", names, prop,
                        str(first), str(number), out, work], cwd=HERE,
                       stdout=subprocess.DEVNULL, stderr=subprocess.PIPE,
                       stdin=subprocess.DEVNULL)
    rows = [json.loads(x) for x in open(out)] if os.path.exists(out) else []
    ctx.describe(hidden=names, workload=prop, first=first, number=number)
    known = read_known(prop)
    held = []
    begun = None
    for r in rows:
        if "begin" in r:
            begun = r["begin"]
            continue
        begun = None
        ctx.monitors.update({f"{prop}:{m}": c for m, c in r["monitors"].items()})
        if r["verdict"] == "held":
            held.append(r["seed"])
            if r["key"]:
                ctx.feature(f"held-{names}")
        elif r["verdict"] == "violated":
            if "cython" in names and refused(r):
                ctx.feature("refused")
            elif not is_known(r, known):
                ctx.fail(r["monitor"], f"without {names}: {prop}, seed {r['seed']}: "
                                       f"{r['message']}")
        elif r["verdict"] != "skip":
            raise RuntimeError(f"without {names}: {prop}, seed {r['seed']}: {r['message']}")
    err = p.stderr.decode(errors="replace")[-400:]
    if begun is not None and p.returncode < 0:
        ctx.fail("no-crash", f"without {names}: {prop}, seed {begun}: signal {-p.returncode}: {err}")
    if not rows and "repo/src" in err:
        ctx.fail("importable", f"without {names}: the package cannot be imported: {err}")
    if p.returncode:
        raise RuntimeError(f"without {names}: {prop}: exit {p.returncode}: {err}")
    ctx.check(True, "accelerators")
    if held:
        ctx.nontrivial(names, prop, held)
