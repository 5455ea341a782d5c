"""Driver: python -m vf.run <property> <tier> [--replay FILE]

The parent shares the cases out over worker processes, watches them (a worker
that dies of a signal or hangs in a case is itself an observation) and writes
the evidence. A case is identified by (VERIF_SEED, index) alone.
"""
import importlib
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time
from collections import Counter

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CASE_TIMEOUT = 240


def case_seed(seed, index):
    return (seed * 1_000_003 + index * 7919 + 17) % (2**32 - 1)


def load(prop):
    return importlib.import_module(f"vf.props.{prop.lower()}")


# ------------------------------------------------------------------ worker
def origin_is_code_under_test(e):
    """Did the exception pass through the code of /repo?"""
    tb = e.__traceback__
    while tb is not None:
        f = tb.tb_frame.f_code.co_filename
        if "/repo/src" in f or f.endswith(".pyx") or "flowstab" in f:
            return True
        tb = tb.tb_next
    return False


def malformed_result(e):
    """An oracle that cannot even read what the code returned (None instead of a matrix, a
    missing cluster, a wrong shape, ...). Names that are not there (renamed internals) and
    trouble of the machine are no statement about the property."""
    if isinstance(e, (AttributeError, NameError)):
        return isinstance(e, AttributeError) and "'NoneType' object" in str(e)
    return isinstance(e, (TypeError, LookupError, ValueError, ArithmeticError))


def run_case(mod, seed, tier, scratch_root):
    import contextlib
    import io
    import traceback
    import numpy as np
    from vf.core import Ctx, Skip, Violation
    rng = np.random.default_rng(seed)
    scratch = tempfile.mkdtemp(prefix="case_", dir=scratch_root)
    ctx = Ctx(seed, scratch, tier)
    out = {"seed": seed, "verdict": "held"}
    sink = io.StringIO()
    np.random.seed(seed % (2**32 - 1))
    cwd = os.getcwd()
    try:
        os.chdir(scratch)
        log_level(seed)
        with contextlib.redirect_stdout(sink), contextlib.redirect_stderr(sink):
            mod.case(rng, ctx)
    except Skip:
        out["verdict"] = "skip"
    except Violation as v:
        out.update(verdict="violated", monitor=v.monitor, message=v.message)
    except (KeyboardInterrupt, SystemExit):
        raise
    except BaseException as e:
        tb = traceback.format_exc()
        if origin_is_code_under_test(e):
            out.update(verdict="violated", monitor="no-unexpected-exception",
                       message=f"{type(e).__name__}: {e}", traceback=tb)
        elif malformed_result(e):
            out.update(verdict="violated", monitor="results-are-well-formed",
                       message=f"a result cannot be inspected: {type(e).__name__}: {e}",
                       traceback=tb)
        else:
            out.update(verdict="harness-error", monitor="harness",
                       message=f"{type(e).__name__}: {e}", traceback=tb)
    finally:
        os.chdir(cwd)
        shutil.rmtree(scratch, ignore_errors=True)
    out.update(monitors=dict(ctx.monitors), cover=dict(ctx.cover), key=ctx.key)
    out["desc"] = ctx.desc
    if hasattr(ctx, "trace"):
        out["trace"] = ctx.trace
    return out


def worker(prop, tier, start, stop, step, seed, deadline, outfile, scratch_root):
    import faulthandler
    faulthandler.enable()
    mod = load(prop)
    from vf.core import jsonable
    if hasattr(mod, "setup"):
        mod.setup()
    quiet()
    index = getattr(mod, "seed_index", lambda i: i)
    with open(outfile, "a", buffering=1) as f:
        for i in range(start, stop, step):
            if time.time() > deadline:
                f.write(json.dumps({"stopped": i}) + "\n")
                break
            s = case_seed(seed, index(i))
            f.write(json.dumps({"begin": i, "seed": s}) + "\n")
            f.flush()
            r = run_case(mod, s, tier, scratch_root)
            r["index"] = i
            r["desc"] = jsonable(r["desc"])
            if r["verdict"] == "held" and i >= 40:
                r["desc"] = None
            f.write(json.dumps(r) + "\n")
        f.write(json.dumps({"done": True}) + "\n")


def quiet():
    import warnings
    warnings.simplefilter("ignore")
    import contextlib
    import io
    with contextlib.redirect_stdout(io.StringIO()):
        import flowstab
    import logging
    for h in logging.getLogger("flowstab").handlers:
        if hasattr(h, "setStream"):
            h.setStream(open(os.devnull, "w"))


def log_level(seed):
    """most cases run silent, some at the levels users run them at"""
    import flowstab
    u = seed % 20
    try:
        flowstab.set_log_level("DEBUG" if u < 2 else "INFO" if u < 4 else "CRITICAL")
    except Exception:
        pass


# ------------------------------------------------------------------ parent
def is_known(v, known):
    return any(v["monitor"] == mon and match in v["message"] for mon, match, _ in known)


def read_known(prop):
    """known-findings.txt: 'finding: property=C01 monitor=<m> match=<text> -- <what>'"""
    res = []
    path = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("finding:") and f"property={prop} " in line:
                head, _, what = line[8:].partition(" -- ")
                d = dict(p.split("=", 1) for p in head.split() if "=" in p)
                res.append((d.get("monitor"), d.get("match", "").replace("~", " "), what))
    return res


def main(argv):
    prop, tier = argv[0], argv[1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if "--worker" in argv:
        i = argv.index("--worker")
        start, stop, step, sd, deadline, outfile, root = argv[i+1:i+8]
        worker(prop, tier, int(start), int(stop), int(step), int(sd),
               float(deadline), outfile, root)
        return 0
    if "--replay" in argv:
        d = json.load(open(argv[argv.index("--replay") + 1]))
        mod = load(prop)
        root = tempfile.mkdtemp(prefix="vf_")
        if hasattr(mod, "prepare") and "--prepared" not in argv:
            # once per environment in which the workers of this check run
            env = dict(os.environ, PYTHONPATH=HERE)
            try:
                mod.prepare(root, env)
                rc = [subprocess.run([sys.executable, "-W", "ignore", "-m", "vf.run", *argv,
                                      "--prepared"], cwd=HERE,
                                     env=mod.worker_env(env, w, HERE)
                                     if hasattr(mod, "worker_env") else env).returncode
                      for w in ((0, 1) if hasattr(mod, "worker_env") else (0,))]
            finally:
                shutil.rmtree(root, ignore_errors=True)
            return 1 if any(rc) else 0
        if hasattr(mod, "setup"):
            mod.setup()
        quiet()
        try:
            r = run_case(mod, d["seed"], d.get("tier", tier), root)
        finally:
            shutil.rmtree(root, ignore_errors=True)
        print(json.dumps(r, indent=1, default=str))
        return 1 if r["verdict"] == "violated" else 0

    t0 = time.time()
    mod = load(prop)
    n_cases = mod.CASES[tier]
    budget = getattr(mod, "BUDGET", {"quick": 200, "thorough": 1500})[tier]
    nproc = getattr(mod, "NPROC", 7)
    root = tempfile.mkdtemp(prefix="vf_")
    env = dict(os.environ, PYTHONPATH=HERE + (":" + os.environ["PYTHONPATH"]
                                              if os.environ.get("PYTHONPATH") else ""))
    extra = {}
    if hasattr(mod, "prepare"):
        # e.g. build an instrumented variant of the extensions
        extra = mod.prepare(root, env) or {}
        if extra.get("error"):
            print(f"INCONCLUSIVE property={prop}: {extra['error']}")
            shutil.rmtree(root, ignore_errors=True)
            return 3
    deadline = time.time() + budget
    results, deaths, hangs = [], [], []
    stopped = False

    def launch(w, start):
        out = os.path.join(root, f"w{w}_{start}.jsonl")
        err = open(os.path.join(root, f"w{w}_{start}.err"), "wb")
        p = subprocess.Popen([sys.executable, "-W", "ignore", "-m", "vf.run", prop, tier,
                              "--worker", str(start), str(n_cases), str(nproc),
                              str(seed), str(deadline), out, root],
                             cwd=HERE, env=mod.worker_env(env, w, HERE)
                             if hasattr(mod, "worker_env") else env, stdin=subprocess.DEVNULL,
                             stdout=subprocess.DEVNULL, stderr=err,
                             start_new_session=True)
        return {"p": p, "out": out, "w": w, "err": err.name, "seen": 0, "t": time.time(),
                "cur": None}

    def kill(pr):
        try:
            os.killpg(pr["p"].pid, signal.SIGKILL)
        except ProcessLookupError:
            pass

    def drain(pr):
        try:
            with open(pr["out"], "rb") as f:
                f.seek(pr["seen"])
                data = f.read()
        except FileNotFoundError:
            return
        end = data.rfind(b"\n") + 1
        pr["seen"] += end
        for line in data[:end].splitlines():
            r = json.loads(line)
            if "begin" in r:
                pr["cur"], pr["t"] = r, time.time()
            elif r.get("done"):
                pr["cur"] = None
                pr["finished"] = True
            elif "stopped" in r:
                pr["stopped"] = True
            else:
                results.append(r)
                pr["cur"] = None

    active = [launch(w, w) for w in range(min(nproc, n_cases))]
    respawns = 0
    stop_early = False
    known = read_known(prop)
    while active:
        time.sleep(0.05)
        for pr in list(active):
            rc = pr["p"].poll()
            drain(pr)
            if pr.get("stopped"):
                stopped = True
            if rc is not None:
                drain(pr)
                active.remove(pr)
                if pr.get("finished"):
                    continue
                err = open(pr["err"], "rb").read().decode("utf8", "replace")[-6000:]
                deaths.append({"rc": rc, "case": pr["cur"], "stderr": err})
                if pr["cur"] is not None and respawns < 3 and rc < 0:
                    respawns += 1
                    nxt = pr["cur"]["begin"] + nproc
                    if nxt < n_cases:
                        active.append(launch(pr["w"], nxt))
            elif pr["cur"] is not None and time.time() - pr["t"] > CASE_TIMEOUT:
                hangs.append(pr["cur"])
                kill(pr)
                pr["p"].wait()
                active.remove(pr)
        if not stop_early and len([r for r in results if r["verdict"] == "violated"
                                   and not is_known(r, known)]) >= 3:
            stop_early = True
            for pr in active:
                kill(pr)
                pr["p"].wait()
            active = []
    violations = [r for r in results if r["verdict"] == "violated"]
    errors = [r for r in results if r["verdict"] == "harness-error"]
    for d in deaths:
        if stop_early:
            continue
        if d["case"] is not None and (d["rc"] < 0 or getattr(mod, "DEATH_IS_VIOLATION", False)):
            violations.append({"seed": d["case"]["seed"], "index": d["case"]["begin"],
                               "monitor": "process-survives",
                               "message": f"the process ended with status {d['rc']} inside "
                                          f"the case: {d['stderr'][-3000:]}", "desc": None})
        else:
            errors.append({"message": f"worker ended with {d['rc']}: {d['stderr'][-2000:]}",
                           "seed": None, "traceback": ""})
    for h in hangs:
        violations.append({"seed": h["seed"], "index": h["begin"], "monitor": "terminates",
                           "message": f"no answer within {CASE_TIMEOUT} s", "desc": None})

    # property-level observations over all cases (offline checkers)
    if hasattr(mod, "offline") and not stop_early:
        for v in mod.offline(results) or []:
            violations.append(v)

    reported, known_hit = [], Counter()
    for v in violations:
        for mon, match, what in known:
            if v["monitor"] == mon and match in v["message"]:
                known_hit[what] += 1
                break
        else:
            reported.append(v)

    monitors, cover = Counter(), Counter()
    keys = set()
    for r in results:
        monitors.update(r["monitors"])
        cover.update(r["cover"])
        if r.get("key"):
            keys.add(r["key"])
    held = [r for r in results if r["verdict"] == "held"]
    samples = [{"seed": r["seed"], **r["desc"]} for r in
               sorted(held, key=lambda r: r["index"]) if r.get("desc")][:4]
    missing = [m for m in getattr(mod, "EXPECT", []) if not monitors.get(m) and not cover.get(m)]

    evdir = os.path.join(HERE, "evidence")
    os.makedirs(evdir, exist_ok=True)
    for old in os.listdir(evdir):
        if old.startswith(f"{prop}_violation_"):
            os.unlink(os.path.join(evdir, old))
    rep_paths = []
    for v in sorted(reported, key=lambda v: v["index"])[:5]:
        rp = os.path.join(evdir, f"{prop}_violation_{v['seed']}.json")
        with open(rp, "w") as f:
            json.dump({"property": prop, "seed": v["seed"], "index": v["index"], "tier": tier,
                       "monitor": v["monitor"], "message": v["message"],
                       "case": v.get("desc"), "traceback": v.get("traceback"),
                       "replay": f"bash check.sh {prop} {tier} --replay {rp}"}, f, indent=1,
                      default=str)
        rep_paths.append((v, rp))

    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": len([r for r in results if r["verdict"] != "skip"]),
            "distinct_nontrivial": len(keys),
            "rule": mod.RULE,
            "samples": samples or [{"note": "no case held"}],
            "skipped_out_of_domain": len([r for r in results if r["verdict"] == "skip"]),
            "planned_cases": n_cases,
            "stopped_by_time_budget": stopped,
            "monitor_evaluations": dict(sorted(monitors.items())),
            "workload_features": dict(sorted(cover.items())),
            "worker_processes": nproc,
            **extra.get("coverage", {}),
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": [{"seed": v["seed"], "monitor": v["monitor"],
                        "message": v["message"][:600]} for v in reported[:5]],
    }
    with open(os.path.join(evdir, f"{prop}.json"), "w") as f:
        json.dump(evidence, f, indent=1, default=str)
        f.write("\n")
    shutil.rmtree(root, ignore_errors=True)

    for what, n in known_hit.items():
        print(f"KNOWN-FINDING: property={prop} {what} (observed {n} times)")
    print(f"{prop} {tier}: {evidence['coverage']['evaluations']} cases, {len(keys)} distinct "
          f"non-trivial, {sum(monitors.values())} monitor evaluations, "
          f"{evidence['wall_s']} s")
    if reported:
        for v, rp in rep_paths:
            print(f"  {v['monitor']}: {v['message'][:500]}")
        for v, rp in rep_paths[:1]:
            print(f"VIOLATION property={prop} replay={rp}")
        return 1
    if errors:
        print(f"INCONCLUSIVE property={prop}: the harness failed: {errors[0]['message']}")
        print(errors[0].get("traceback", ""))
        return 3
    if missing:
        print(f"INCONCLUSIVE property={prop}: never observed: {', '.join(missing)}")
        return 3
    return 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
