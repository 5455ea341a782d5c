"""python -m vf.without <modules to hide> <property> <first seed> <number> <outfile> <scratch>

Runs cases of a property's workload in an interpreter in which optional dependencies
of the package cannot be found, as on a machine where they are not installed."""
import importlib.machinery
import importlib.util
import json
import sys


class Hidden(ModuleNotFoundError):
    pass


def hide(names):
    find = importlib.util.find_spec

    def hidden(name):
        return name.split(".")[0] in names

    def find_spec(name, package=None):
        return None if hidden(name) else find(name, package)

    class Finder:
        @staticmethod
        def find_spec(name, path=None, target=None):
            if hidden(name):
                raise Hidden(f"No module named {name!r}", name=name)

    for m in list(sys.modules):
        if hidden(m):
            del sys.modules[m]
    importlib.util.find_spec = find_spec
    sys.meta_path.insert(0, Finder)


def main(names, prop, first, number, outfile, scratch):
    names = set(names.split(","))
    if "cython" in names:       # nor are there modules compiled with it
        names |= {"Cython", "_cython_fast_funcs", "_cython_sparse_stoch"}
    hide(names)
    from vf import run
    from vf.core import jsonable
    mod = run.load(prop)
    if hasattr(mod, "setup"):
        mod.setup()
    run.quiet()
    with open(outfile, "w", buffering=1) as f:
        for i in range(int(number)):
            s = run.case_seed(int(first), i)
            f.write(json.dumps({"begin": s}) + "\n")
            r = run.run_case(mod, s, "quick", scratch)
            r["desc"] = jsonable(r["desc"]) if r["verdict"] != "held" else None
            r.pop("trace", None)
            f.write(json.dumps(r, default=str) + "\n")


if __name__ == "__main__":
    main(*sys.argv[1:])
