"""Builds the solver's Python module from /repo's current working tree, in the
variants the monitors need.  Nothing is written to /repo."""

import hashlib
import os
import re
import subprocess
import sys
import fcntl
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("GPR_REPO", "/repo")
CPP = f"{REPO}/code/cpp"
PY = "/opt/phd-venv/bin/python"
OUT = os.environ.get("GPRMON_BUILD", f"{VERIF}/build")
PYINC = "/usr/include/python3.12"

BASE = ["-std=c++17", "-fPIC", "-fopenmp", "-w", "-march=x86-64-v2",
        "-fvisibility=hidden", "-ftemplate-depth=2000"]

# The project's own flags are -O3 with asserts on; -O2 builds faster and IEEE
# semantics make the two agree (no -ffast-math, no contraction on x86-64-v2).
VARIANTS = {
    "plain": dict(cxx="g++", flags=["-O1"]),
    "fast": dict(cxx="g++", flags=["-O2"]),
    "asan": dict(cxx="g++", flags=["-O1", "-g1", "-fsanitize=address,undefined",
                                   "-fno-omit-frame-pointer",
                                   "-fno-sanitize-recover=undefined",
                                   "-fno-sanitize=vptr,alignment",
                                   "-fsanitize=float-cast-overflow",
                                   "-fno-sanitize-recover=float-cast-overflow",
                                   "-D_GLIBCXX_ASSERTIONS"]),
    "tsan": dict(cxx="g++", flags=["-O1", "-g1", "-fsanitize=thread",
                                   "-fno-omit-frame-pointer"]),
    # every automatic variable starts as 0 / as a pattern of large negative
    # numbers: a result that differs between the two used an uninitialised one
    "autozero": dict(cxx="g++", flags=["-O1", "-ftrivial-auto-var-init=zero"]),
    "autopat": dict(cxx="g++", flags=["-O1",
                                      "-ftrivial-auto-var-init=pattern"]),
}


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, text=True, **kw)


def sources():
    """The sources of the project's own build."""
    txt = open(f"{CPP}/CMakeLists.txt", encoding="utf-8").read()
    txt = re.sub(r"#.*", "", txt)
    srcs = re.findall(r"[\w./+-]+\.cpp\b", txt)
    out = []
    for s in srcs:
        if os.path.exists(f"{CPP}/{s}") and s not in out:
            out.append(s)
    if "bindings/bindings.cpp" not in out:
        raise RuntimeError("CMakeLists.txt lists no bindings/bindings.cpp")
    return out


def tree_hash():
    h = hashlib.sha256()
    roots = [f"{CPP}/src", f"{CPP}/bindings", f"{CPP}/include/skfmm"]
    for r in roots:
        for d, ds, fs in os.walk(r):
            ds.sort()
            for f in sorted(fs):
                if f.endswith((".cpp", ".h", ".hpp", ".c", ".cc", ".ipp")):
                    p = os.path.join(d, f)
                    h.update(os.path.relpath(p, CPP).encode())
                    h.update(open(p, "rb").read())
    # the vendored libraries are big: names and sizes suffice
    for r in (f"{CPP}/include/eigen3", f"{CPP}/include/pybind11-master/include",
              f"{CPP}/include/boost"):
        for d, ds, fs in os.walk(r):
            ds.sort()
            for f in sorted(fs):
                h.update(f"{f}{os.stat(os.path.join(d, f)).st_size}".encode())
    h.update(open(f"{CPP}/CMakeLists.txt", "rb").read())
    for f in ("build.py", "ompshim.cpp", "msandrv.cpp"):
        if os.path.exists(f"{VERIF}/lib/{f}"):
            h.update(open(f"{VERIF}/lib/{f}", "rb").read())
    return h.hexdigest()


def vendored_hash():
    h = hashlib.sha256()
    for r in (f"{CPP}/include/eigen3", f"{CPP}/include/pybind11-master/include",
              f"{CPP}/include/boost"):
        for d, ds, fs in os.walk(r):
            ds.sort()
            for f in sorted(fs):
                h.update(f"{f}{os.stat(os.path.join(d, f)).st_size}".encode())
    return h.hexdigest()


def fresh(path, key):
    """Was this file made from what has this key?"""
    try:
        return os.path.exists(path) and open(path + ".key").read() == key
    except OSError:
        return False


def key_of(k0, obj, src):
    """Hash of what an object was compiled from: the flags, its source and the
    project's headers that it used."""
    h = hashlib.sha256((k0 + src).encode())
    try:
        deps = open(obj + ".d", encoding="utf-8").read()
    except OSError:
        return ""
    deps = deps.replace("\\\n", " ").split(":", 1)[1].split()
    for f in sorted(set(deps)):
        if f.startswith("/usr/") or "/include/eigen3/" in f \
                or "/include/boost/" in f or "pybind11" in f \
                or f.endswith(".gch"):
            continue
        try:
            h.update(f.encode() + open(f, "rb").read())
        except OSError:
            return ""
    return h.hexdigest()


def overlay():
    os.makedirs(OUT, exist_ok=True)
    d = f"{OUT}/overlay/pybind11"
    r = run([PY, "/opt/vp/phd/overlay.py",
             f"{CPP}/include/pybind11-master/include/pybind11", d])
    if r.returncode:
        raise RuntimeError(r.stdout)
    return f"{OUT}/overlay"


def options_header(dst, over):
    """The project's options.h with some constants changed."""
    txt = open(f"{CPP}/src/options.h", encoding="utf-8").read()
    for k, v in sorted(over.items()):
        txt, n = re.subn(rf"(const\s+\w+\s+{k}\s*=\s*)[^;]+;", rf"\g<1>{v};",
                         txt)
        if n != 1:
            raise RuntimeError(f"options.h: {k} not found")
    open(dst, "w", encoding="utf-8").write(txt)


class BuildError(Exception):
    pass


def build(variant="plain", jobs=8, **over):
    """Returns the directory that holds GPRpy.so of this variant."""
    spec = VARIANTS[variant]
    key = variant + "".join(f"-{k}{v}" for k, v in sorted(over.items()))
    os.makedirs(OUT, exist_ok=True)
    with open(f"{OUT}/{key}.lock", "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        return _build(key, spec, jobs, over)


def _build(key, spec, jobs, over):
    h = tree_hash()
    d = f"{OUT}/{key}"
    stamp = f"{d}/stamp"
    if os.path.exists(stamp) and open(stamp).read() == h:
        return d
    os.makedirs(f"{d}/obj", exist_ok=True)
    if os.path.exists(stamp):
        os.remove(stamp)
    ov = overlay()
    inc = [f"-I{ov}", f"-I{CPP}/include",
           f"-I{CPP}/include/pybind11-master/include", f"-I{PYINC}"]
    pre = []
    if over:
        options_header(f"{d}/options.h", over)
        pre = ["-include", f"{d}/options.h"]

    # Eigen is most of the work: precompile it, with the project's own settings
    types = open(f"{CPP}/src/etc/types.h", encoding="utf-8").read()
    types = re.sub(r"/\*.*?\*/", "", types, flags=re.S)
    defs = re.findall(r"^[ \t]*#[ \t]*define[ \t]+EIGEN_\w+[^\n]*", types, re.M)
    with open(f"{d}/pre.hpp", "w", encoding="utf-8") as f:
        f.write("\n".join(defs) + "\n#include <cmath>\n#include <vector>\n"
                "#include <functional>\n#include <iostream>\n"
                "#include \"eigen3/Eigen\"\n#include \"eigen3/StdVector\"\n")
    # the vendored libraries and the flags are part of every object's key
    flags = [spec["cxx"], *BASE, *spec["flags"]]
    h0 = hashlib.sha256((" ".join(flags) + vendored_hash()).encode())
    h0.update(open(f"{d}/pre.hpp", "rb").read())
    k0 = h0.hexdigest()
    if not fresh(f"{d}/pre.hpp.gch", k0):
        r = run([*flags, *inc, "-x", "c++-header", f"{d}/pre.hpp", "-o",
                 f"{d}/pre.hpp.gch"])
        if r.returncode:
            raise BuildError(r.stdout[-3000:])
        open(f"{d}/pre.hpp.gch.key", "w").write(k0)
    pre = ["-include", f"{d}/pre.hpp", *pre]

    def compile1(item):
        src, obj = item
        if fresh(obj, key_of(k0, obj, src)):
            return src, None
        r = run([*flags, *([] if "ompshim" in src else pre), *inc, "-MD", "-MF", obj + ".d", "-c", src,
                 "-o", obj])
        if not r.returncode:
            open(obj + ".key", "w").write(key_of(k0, obj, src))
        return src, r

    items = []
    srcs = sources()
    # the slow ones first
    slow = ["riemann", "bindings", "fluxes", "lgmres", "eigenvecs", "dg2", "dg1",
            "eig.", "legendre", "globals", "conditions", "debug"]
    srcs.sort(key=lambda s: min([k for k, w in enumerate(slow) if w in s],
                                default=99))
    for s in srcs:
        items.append((f"{CPP}/{s}", f"{d}/obj/{s.replace('/', '_')}.o"))
    items.append((f"{VERIF}/lib/ompshim.cpp", f"{d}/obj/ompshim.o"))
    with ThreadPoolExecutor(jobs) as ex:
        for src, r in ex.map(compile1, items):
            if r is not None and r.returncode:
                raise BuildError(f"{key}: {src}\n{r.stdout[-3000:]}")
    san = [f for f in spec["flags"] if f.startswith("-fsanitize")]
    tmp = f"{d}/GPRpy.so.tmp"
    r = run([spec["cxx"], "-shared", "-o", tmp, *[o for _, o in items], *san,
             "-Wl,-Bsymbolic", "-lpthread"])
    if r.returncode:
        raise BuildError(r.stdout[-3000:])
    os.replace(tmp, f"{d}/GPRpy.so")
    open(stamp, "w").write(h)
    return d


def preload(variant):
    """The sanitizer runtime that the interpreter has to load first."""
    lib = {"asan": "libasan.so", "tsan": "libtsan.so"}.get(variant)
    if not lib:
        return None
    # the C++ runtime too, for the interceptor of exceptions to find it
    return " ".join(run(["gcc", f"-print-file-name={x}"]).stdout.strip()
                    for x in (lib, "libstdc++.so"))


if __name__ == "__main__":
    for v in sys.argv[1:] or VARIANTS:
        print(build(v))
