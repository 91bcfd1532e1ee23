"""Build an instrumented copy of /repo's working tree in a scratch directory."""
import os
import shutil
import subprocess
import sysconfig

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SIM_REPO", "/repo")
PY = "/opt/venv/bin/python"


class BuildError(Exception):
    pass


def _run(cmd):
    p = subprocess.run(cmd, capture_output=True, text=True)
    if p.returncode:
        raise BuildError(" ".join(cmd[:3]) + " ...\n" + p.stdout[-2000:] + p.stderr[-4000:])
    return p.stdout


def _includes():
    out = _run([PY, "-c",
                "import numpy, pybind11, sysconfig;"
                "print(sysconfig.get_path('include'));print(numpy.get_include());"
                "print(pybind11.get_include());print(sysconfig.get_config_var('EXT_SUFFIX'))"])
    return out.split("\n")[:4]


def stage(dst):
    """Copy hmmlearn's Python files and compile its extension, instrumented."""
    pyinc, npinc, pbinc, suffix = _includes()
    pkg = os.path.join(dst, "hmmlearn")
    src = os.path.join(REPO, "src", "hmmlearn")
    shutil.copytree(src, pkg, ignore=shutil.ignore_patterns(
        "tests", "__pycache__", "*.so", "*.pyc"))
    nat = os.path.join(HERE, "native")
    j = os.path.join
    procs = []

    def spawn(cmd):
        procs.append((cmd, subprocess.Popen(cmd, stdout=subprocess.PIPE,
                                            stderr=subprocess.STDOUT, text=True)))

    def reap():
        while procs:
            cmd, p = procs.pop()
            out, _ = p.communicate()
            if p.returncode:
                raise BuildError(" ".join(cmd) + "\n" + out[-4000:])
    spawn(["clang", "-O2", "-fPIC", "-shared", "-fvisibility=hidden",
           "-I" + pyinc, "-I" + npinc, j(nat, "simcore.c"), "-o", j(dst, "_simcore.so"),
           "-lpthread"])
    ext = j(REPO, "ext")
    objs = []
    srcs = sorted(f for f in os.listdir(ext) if f.endswith((".cpp", ".cc", ".cxx", ".c")))
    for f in srcs:
        o = j(dst, f + ".o")
        objs.append(o)
        spawn(["clang++", "-std=c++14", "-O1", "-w", "-fPIC", "-fvisibility=hidden",
               "-ffp-contract=off", "-fstack-protector-strong",
               "-fsanitize-coverage=trace-pc-guard,trace-loads,trace-stores",
               "-I" + pyinc, "-I" + pbinc, "-I" + ext, "-c", j(ext, f), "-o", o])
    o = j(dst, "extnew.o")
    objs.append(o)
    spawn(["clang++", "-std=c++14", "-O1", "-fPIC", "-fvisibility=hidden", "-fno-builtin",
           "-c", j(nat, "extnew.cpp"), "-o", o])
    reap()
    wrap = ["__cxa_guard_acquire", "__cxa_guard_release", "__cxa_guard_abort",
            "pthread_mutex_lock", "PyEval_RestoreThread", "PyEval_AcquireThread",
            "PyGILState_Ensure", "malloc", "calloc", "realloc", "free",
            "memset", "memcpy", "memmove"]
    spawn(["clang++", "-shared"] + objs
          + ["-o", j(pkg, "_hmmc" + suffix)]
          + ["-Wl,--wrap=" + w for w in wrap]
          + ["-L" + dst, "-l:_simcore.so", "-Wl,-rpath,$ORIGIN/.."])
    reap()
    for o in objs:
        os.unlink(o)
    return dst


def env():
    e = dict(os.environ)
    for k in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
        e[k] = "1"
    e["PYTHONDONTWRITEBYTECODE"] = "1"
    e.pop("PYTHONPATH", None)
    return e
