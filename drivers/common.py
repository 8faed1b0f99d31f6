"""Shared by the drivers that run the real acados inside a child process.

A driver is  python -m drivers.<name> JOB.json OUT.json  with the environment of rig/build.py:env().
"""
import contextlib
import ctypes
import json
import os
import sys
import tempfile

import numpy as np


@contextlib.contextmanager
def quiet():
    """silences the C and Python output of acados, code generation and gcc"""
    sys.stdout.flush()
    fd = os.dup(1)
    null = os.open(os.devnull, os.O_WRONLY)
    os.environ.get("LOUD") or os.dup2(null, 1)
    try:
        yield
    finally:
        sys.stdout.flush()
        libc.fflush(None)
        os.dup2(fd, 1)
        os.close(fd)
        os.close(null)


libc = ctypes.CDLL(None)


def main(fun):
    with open(sys.argv[1]) as f:
        job = json.load(f)
    d = tempfile.mkdtemp(prefix="drv_", dir=os.path.dirname(os.path.abspath(sys.argv[1])))
    os.chdir(d)
    out = fun(job)
    with open(sys.argv[2] + ".tmp", "w") as f:
        json.dump(out, f, default=_default)
    os.rename(sys.argv[2] + ".tmp", sys.argv[2])
    sys.stdout.flush()
    os._exit(0)     # no destructor of a solver can spoil the result


def _default(o):
    if isinstance(o, np.ndarray):
        return o.tolist()
    if isinstance(o, np.generic):
        return o.item()
    raise TypeError(type(o))


def make_solver(ocp, name=None, cls=None, **kw):
    from acados_template import AcadosOcpSolver
    cls = cls or AcadosOcpSolver
    if name:
        ocp.model.name = name
    kw.setdefault("verbose", False)
    tag = name or ocp.name
    ocp.code_gen_opts.code_export_directory = os.path.abspath("c_" + tag)
    ocp.code_gen_opts.json_file = os.path.abspath(tag + ".json")
    with quiet():
        return cls(ocp, **kw)


class Stub:
    """the scripted QP solver of rig/shim/stubqp.c"""

    def __init__(self, prefix):
        self.lib = ctypes.CDLL(os.path.join(prefix, "lib", "libstubqp.so"))
        self.lib.stub_log.restype = ctypes.POINTER(ctypes.c_double)
        self.lib.stub_log_len.restype = ctypes.c_long
        self.lib.stub_install.argtypes = [ctypes.c_void_p]
        self.lib.stub_push.argtypes = [ctypes.POINTER(ctypes.c_double), ctypes.c_int]

    def install(self, solver):
        self.lib.stub_install(solver.nlp_config)

    def mode(self, passthrough, with_qp=True):
        self.lib.stub_mode(int(passthrough), int(with_qp))

    def clear(self):
        self.lib.stub_clear()

    def push(self, status, iters, values):
        v = [float(status), float(iters)] + [float(x) for x in values]
        if self.lib.stub_push((ctypes.c_double * len(v))(*v), len(v)):
            raise RuntimeError("script too long")

    def used(self):
        return self.lib.stub_used()

    def log(self):
        n = self.lib.stub_log_len()
        buf = [self.lib.stub_log()[i] for i in range(n)] if n else []
        out = []
        i = 0
        while i < n:
            ln = int(buf[i])
            rec = buf[i + 1:i + ln]
            out.append(parse_qp_record(rec))
            i += ln
        return out


def parse_qp_record(r):
    d = {"entry": int(r[0]), "warm_start": int(r[1]), "tol": r[2:6]}
    r = r[6:]
    if not r:
        return d
    it = iter(r)

    def take(n):
        return [next(it) for _ in range(n)]
    N = int(next(it))
    st = []
    for i in range(N + 1):
        nx, nu, nb, ng, ns, nx1 = (int(v) for v in take(6))
        s = {"nx": nx, "nu": nu, "nb": nb, "ng": ng, "ns": ns}
        s["BAt"] = [take(nx1) for _ in range(nu + nx)]
        s["b"] = take(nx1)
        s["H"] = [take(r_ + 1) for r_ in range(nu + nx)]
        s["g"] = take(nu + nx + 2 * ns)
        s["Z"] = take(2 * ns)
        s["DCt"] = [take(ng) for _ in range(nu + nx)]
        s["d"] = take(2 * (nb + ng + ns))
        s["mask"] = take(2 * (nb + ng + ns))
        s["idxb"] = [int(v) for v in take(nb)]
        s["idxs_rev"] = [int(v) for v in take(nb + ng)]
        st.append(s)
    d["qp"] = st
    return d


NAN = -999999      # what a trace holds for "not a number"
NONINT = -888887   # what a trace holds for a number that is no integer although it must be one


def ints(v, scale=1):
    """numbers of an exactly computed quantity, as integers; one that is no integer becomes NONINT"""
    if isinstance(v, (list, tuple, np.ndarray)):
        return [ints(x, scale) for x in v]
    v = float(v)
    if np.isnan(v):
        return NAN
    y = v * scale
    if y == round(y) and abs(y) < 2**31 - 1:
        return int(y)
    return NONINT
