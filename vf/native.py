"""Instrumented variants of the two native extensions, built from /repo's tree.

A: memory views bounds-checked, C++ containers checked, AddressSanitizer,
   uninitialised stack and heap memory filled with a pattern
B: the code as it is, AddressSanitizer and UndefinedBehaviorSanitizer,
   uninitialised memory filled with zeros

The same workload on A and B must give the same results: a difference is a use of
uninitialised memory. Both keep the Python sources of /repo beside them.
"""
import os
import re
import shutil
import subprocess
import sys
import sysconfig

EXT = ["_cython_fast_funcs", "_cython_sparse_stoch"]
ASAN = "-fsanitize=address -fno-omit-frame-pointer"
UB = ("-fsanitize=bounds,shift,signed-integer-overflow,integer-divide-by-zero,"
      "float-cast-overflow,null,alignment,bool,enum,vptr,return,unreachable,vla-bound "
      "-fno-sanitize-recover=all")
FLAGS = {"A": f"{ASAN} -ftrivial-auto-var-init=pattern -D_GLIBCXX_ASSERTIONS "
              "-D_GLIBCXX_SANITIZE_VECTOR=1",
         "B": f"{ASAN} {UB} -ftrivial-auto-var-init=zero -D_GLIBCXX_SANITIZE_VECTOR=1"}


def sh(cmd, cwd, env=None):
    p = subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, env=env)
    return p.returncode, (p.stdout + p.stderr)[-2000:]


def build(root, repo="/repo"):
    """Builds both variants below root; returns an error text or None"""
    import numpy
    jobs = []
    suffix = sysconfig.get_config_var("EXT_SUFFIX")
    inc = f"-I{sysconfig.get_paths()['include']} -I{numpy.get_include()}"
    env = {k: v for k, v in os.environ.items() if k not in ("LD_PRELOAD", "PYTHONPATH")}
    for v in "AB":
        src = os.path.join(root, v, "src")
        shutil.copytree(os.path.join(repo, "src"), src,
                        ignore=shutil.ignore_patterns("*.so", "_cython_*.cpp", "_cython_*.c",
                                                      "__pycache__", "*.egg-info"))
        for e in EXT:
            pyx = os.path.join(src, "flowstab", e + ".pyx")
            if v == "A":
                s = open(pyx).read()
                s = re.sub(r"boundscheck\s*\(\s*False\s*\)", "boundscheck(True)", s)
                s = re.sub(r"boundscheck\s*=\s*False", "boundscheck=True", s)
                open(pyx, "w").write(s)
            cmd = (f"{sys.executable} -m cython -3 --cplus -o {e}.cpp flowstab/{e}.pyx && "
                   f"g++ -shared -fPIC -O1 -g1 -w -DNPY_NO_DEPRECATED_API=NPY_1_7_API_VERSION "
                   f"{FLAGS[v]} {inc} -Iflowstab -I. {e}.cpp -o {e}{suffix}")
            jobs.append(subprocess.Popen(cmd, shell=True, cwd=src, env=env,
                                         stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                                         text=True))
    err = None
    for j in jobs:
        out = j.communicate()[0]
        if j.returncode and err is None:
            err = "the instrumented extensions do not build: " + out[-1500:]
    return err


def environment(env, root, variant, here):
    """the environment of a worker on one variant"""
    e = dict(env)
    lib = subprocess.run(["gcc", "-print-file-name=libasan.so"], capture_output=True,
                         text=True).stdout.strip()
    e["LD_PRELOAD"] = lib
    fill = {"A": 255, "B": 0}[variant]
    e["ASAN_OPTIONS"] = ("detect_leaks=0:abort_on_error=1:halt_on_error=1:"
                         "allocator_may_return_null=1:detect_odr_violation=0:"
                         "quarantine_size_mb=64:"
                         f"max_malloc_fill_size=65536:malloc_fill_byte={fill}")
    e["UBSAN_OPTIONS"] = "halt_on_error=1:abort_on_error=1:print_stacktrace=1"
    e["PYTHONMALLOC"] = "malloc"
    e["PYTHONHASHSEED"] = "0"
    e["PYTHONPATH"] = os.path.join(root, variant, "src") + ":" + here
    e["VF_NATIVE"] = variant
    e["VF_FILL"] = str(fill)
    for k in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
        e[k] = "1"
    return e
