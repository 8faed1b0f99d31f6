"""Builds a usable acados installation from /repo's working tree into a prefix.

    build.py PREFIX [--flavour NAME]

PREFIX/lib/libacados.so is compiled from /repo/acados and /repo/interfaces/acados_c against the
BLASFEO/HPIPM/OSQP headers and libraries that the installed casadi wheel ships (rig/compat bridges
version differences). PREFIX/bin/t_renderer is rig/tera. Objects are cached under /verif/build/obj
by a hash of the source, of every header of the tree and of the flags, so a changed file is always
recompiled whatever its time stamp.
"""
import glob
import hashlib
import json
import os
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

RIG = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(RIG)
REPO = os.environ.get("VERIF_REPO", "/repo")
CASADI = "/opt/acados-env/venv/lib/python3.12/site-packages/casadi"
PY = "/opt/acados-env/venv/bin/python"

EXCLUDE = ("hpmpc", "ooqp", "qpdunes", "qore", "clarabel", "qpoases", "daqp")
FLAVOURS = {
    "plain": ["-O1"],
    "asan": ["-O1", "-g", "-fsanitize=address,undefined", "-fno-omit-frame-pointer"],
    "omp": ["-O1", "-fopenmp"],
}


def sources(repo=None):
    repo = repo or REPO
    out = []
    for top in ("acados", "interfaces/acados_c"):
        for p in sorted(glob.glob(os.path.join(repo, top, "**", "*.c"), recursive=True)):
            b = os.path.basename(p)
            if "simplified" in p or any(e in b for e in EXCLUDE):
                continue
            out.append(p)
    return out


def headers_hash(repo):
    h = hashlib.sha256()
    for top in (os.path.join(repo, "acados"), os.path.join(repo, "interfaces/acados_c"), os.path.join(RIG, "compat")):
        for p in sorted(glob.glob(os.path.join(top, "**", "*.h"), recursive=True)):
            h.update(p.encode())
            with open(p, "rb") as f:
                h.update(f.read())
    return h.hexdigest()


def make_include(prefix):
    """include tree with the names acados uses"""
    inc = os.path.join(prefix, "include")
    for sub, pat in (("blasfeo", "blasfeo*.h"), ("hpipm", "hpipm*.h")):
        d = os.path.join(inc, sub, "include")
        os.makedirs(d, exist_ok=True)
        for p in glob.glob(os.path.join(CASADI, "include", pat)):
            link(p, os.path.join(d, os.path.basename(p)))
    for h in ("hpipm_d_ocp_qp_seed.h", "hpipm_d_dense_qp_seed.h"):
        with open(os.path.join(inc, "hpipm", "include", h), "w") as f:
            f.write('#include "acados_compat.h"\n')
    os.makedirs(os.path.join(inc, "osqp"), exist_ok=True)
    link(os.path.join(CASADI, "include", "osqp"), os.path.join(inc, "osqp", "include"))
    link(os.path.join(REPO, "acados"), os.path.join(inc, "acados"))
    link(os.path.join(REPO, "interfaces", "acados_c"), os.path.join(inc, "acados_c"))
    return inc


def link(src, dst):
    if os.path.islink(dst) or os.path.exists(dst):
        if os.path.realpath(dst) == os.path.realpath(src):
            return
        os.remove(dst)
    os.symlink(src, dst)


def cflags(inc, flavour):
    return (["-w", "-std=gnu99", "-fPIC", "-DACADOS_WITH_OSQP", "-Werror=implicit-function-declaration"]
            + FLAVOURS[flavour]
            + ["-include", os.path.join(RIG, "compat", "acados_compat.h"), "-I" + os.path.join(RIG, "compat"),
               "-I" + REPO, "-I" + os.path.join(REPO, "interfaces"), "-I" + inc,
               "-I" + os.path.join(inc, "hpipm", "include"), "-I" + os.path.join(inc, "blasfeo", "include"),
               "-I" + os.path.join(inc, "osqp", "include")])


class BuildError(Exception):
    pass


def build(prefix, flavour="plain", jobs=8):
    prefix = os.path.abspath(prefix)
    for d in ("lib", "bin", "include"):
        os.makedirs(os.path.join(prefix, d), exist_ok=True)
    inc = make_include(prefix)
    cache = os.environ.get("VERIF_CACHE") or os.path.join(VERIF, "build", "obj")
    os.makedirs(cache, exist_ok=True)
    flags = cflags(inc, flavour)
    keyflags = [f.replace(prefix, "PREFIX") for f in flags]
    base = headers_hash(REPO) + json.dumps(keyflags) + REPO

    def one(src):
        with open(src, "rb") as f:
            key = hashlib.sha256((base + src).encode() + f.read()).hexdigest()[:32]
        obj = os.path.join(cache, "%s-%s.o" % (os.path.basename(src)[:-2], key))
        if not os.path.exists(obj):
            tmp = obj + ".%d.tmp" % os.getpid()
            r = subprocess.run(["gcc"] + flags + ["-c", src, "-o", tmp], capture_output=True, text=True)
            if r.returncode:
                raise BuildError("%s does not compile:\n%s" % (src, r.stderr[-3000:]))
            os.rename(tmp, obj)
        return obj

    srcs = sources() + [os.path.join(RIG, "compat", "acados_compat.c")]
    with ThreadPoolExecutor(jobs) as pool:
        objs = list(pool.map(one, srcs))
    lib = os.path.join(prefix, "lib", "libacados.so")
    cmd = (["gcc", "-shared", "-o", lib + ".tmp"] + FLAVOURS[flavour] + objs
           + ["-L" + CASADI, "-lhpipm", "-lblasfeo", "-losqp", "-lm", "-lpthread", "-Wl,-rpath," + CASADI])
    if flavour != "asan":
        cmd.append("-Wl,--no-undefined")
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise BuildError("libacados.so does not link:\n" + r.stderr[-3000:])
    os.rename(lib + ".tmp", lib)
    for l in ("libhpipm.so", "libblasfeo.so", "libosqp.so"):
        link(os.path.join(CASADI, l), os.path.join(prefix, "lib", l))
    finish(prefix, flavour)
    return prefix


def light(prefix):
    """a prefix without the C library, for work in the Python layer only"""
    for d in ("lib", "bin"):
        os.makedirs(os.path.join(prefix, d), exist_ok=True)
    make_include(prefix)
    finish(prefix, "plain")
    return prefix


def finish(prefix, flavour):
    with open(os.path.join(prefix, "lib", "link_libs.json"), "w") as f:
        json.dump({"openmp": "-fopenmp" if flavour == "omp" else "", "clarabel": "", "daqp": "", "hpmpc": "",
                   "ooqp": "", "osqp": "-losqp", "qpdunes": "", "qpoases": ""}, f)
    with open(os.path.join(prefix, "lib", "git_commit_hash"), "w") as f:
        f.write("rig")
    link(os.path.join(RIG, "tera", "t_renderer"), os.path.join(prefix, "bin", "t_renderer"))
    link(os.path.join(REPO, "interfaces"), os.path.join(prefix, "interfaces"))


def env(prefix):
    e = dict(os.environ)
    e.update(HOME=e.get("HOME", "/root"), LANG="C.UTF-8", CC="gcc", CXX="g++",
             PATH="/opt/acados-env/venv/bin:/usr/local/bin:/usr/bin:/bin",
             PYTHONPATH=os.path.join(REPO, "interfaces/acados_template") + ":" + VERIF,
             PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0",
             ACADOS_SOURCE_DIR=prefix, ACADOS_INSTALL_DIR=prefix, ACADOS_ON_CI="ON",
             ACADOS_PYTHON_INTERFACE_PATH=os.path.join(REPO, "interfaces/acados_template/acados_template"),
             ACADOS_EXT_FUN_COMPILE_FLAGS="-O1 -w",
             MPLBACKEND="Agg", MPLCONFIGDIR=os.path.join(prefix, "mpl"), OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
             LD_LIBRARY_PATH=os.path.join(prefix, "lib"), PYTHONWARNINGS="ignore")
    return e


if __name__ == "__main__":
    fl = sys.argv[sys.argv.index("--flavour") + 1] if "--flavour" in sys.argv else "plain"
    print(build(sys.argv[1], fl))


def build_shim(prefix, name):
    """compiles rig/shim/<name>.c against the prefix"""
    out = os.path.join(prefix, "lib", "lib%s.so" % name)
    flags = cflags(os.path.join(prefix, "include"), "plain")
    cmd = ["gcc"] + flags + ["-shared", os.path.join(RIG, "shim", name + ".c"), "-o", out,
                             "-L" + os.path.join(prefix, "lib"), "-lacados", "-lhpipm", "-lblasfeo",
                             "-Wl,-rpath," + os.path.join(prefix, "lib")]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise BuildError("shim %s does not compile:\n%s" % (name, r.stderr[-3000:]))
    return out
