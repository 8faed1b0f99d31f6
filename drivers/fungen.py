"""C27: evaluates the functions generated for random polynomial programs at integer points."""
import ctypes
import glob
import os
import random
import subprocess
import warnings

import casadi as ca
import numpy as np

from . import common
from .common import ints
from .ocpgen import poly, mat, vec, psd

S = {"0": "_0", "p": "", "e": "_e"}
ORDER = ("x", "xdot", "u", "z", "t", "p", "pg")


def A(v):
    return np.array(v, dtype=float)


def gen(rng, shared=None):
    """a program: polynomials over (x, xdot, u, z, t, p, pg)"""
    R = rng.randint
    d = {"sym": shared["sym"] if shared else rng.choice(["SX", "MX"]), "sens": [], "hess": rng.random() < .7, "sensp": False}
    kind = rng.choice(["DISCRETE", "DISCRETE", "ERK", "IRK"])
    n = {"x": R(1, 3), "u": R(0, 2), "z": R(0, 2) if kind == "IRK" else 0, "t": R(0, 1) if kind == "IRK" or rng.random() < .3 else 0, "p": R(0, 2), "pg": R(0, 2)}
    if shared:
        n["pg"] = shared["npg"]
        n["x"] = shared["nx"]
        n["t"] = 0
        d["hess"] = shared["hess"]
    n["xdot"] = n["x"]
    if not shared and kind == "DISCRETE" and n["pg"] and rng.random() < .6:
        d["sens"] = [s for s in ("forw", "adj", "val") if rng.random() < .7]
        d["hess"] = True
    pos, at = {}, 0
    for k in ORDER:
        pos[k] = list(range(at, at + n[k]))
        at += n[k]
    nv = at
    d["n"] = n
    P = pos["p"] + pos["pg"]
    d["N"] = 0 if not shared and rng.random() < .1 and not d["sens"] and kind == "DISCRETE" else 2
    if not shared and d["N"] and kind in ("ERK", "IRK"):
        d["sensp"] = rng.random() < .5

    def po(act, deg=3, terms=3, c=2):
        return poly(rng, nv, act, deg, terms, c)
    dyn = {"type": kind, "f": [], "jac": [], "hess": []}
    XU = pos["x"] + pos["u"]
    if kind == "DISCRETE":
        dyn["f"] = [po(XU + P) for _ in range(n["x"])]
        if rng.random() < .2 and not d["sens"]:
            dyn["jac"] = [[po(XU + P, 2, 2) for _ in XU] for _ in range(n["x"])]
        if rng.random() < .2 and d["hess"] and not d["sens"]:
            dyn["hess"] = [[po(XU + P, 2, 2) for _ in XU] for _ in XU]
    elif kind == "ERK":
        dyn["f"] = [po(XU + P) for _ in range(n["x"])]
    else:
        dyn["f"] = [po(XU + pos["xdot"] + pos["z"] + pos["t"] + P) for _ in range(n["x"] + n["z"])]
    d["dyn"] = dyn
    d["cost"], d["con"] = {}, {}
    for k in "0pe":
        V = pos["x"] + P + ([] if k == "e" else pos["u"] + pos["z"])
        T = pos["t"]
        typ = rng.choice(["NONLINEAR_LS", "EXTERNAL", "CONVEX_OVER_NONLINEAR", "LINEAR_LS"] if not d["sens"] else ["EXTERNAL", "EXTERNAL", "LINEAR_LS"])
        if d["sens"] and n["z"]:
            typ = "LINEAR_LS"
        c = {"type": typ, "y": [], "psi": [], "e": [], "hess": [], "diag": 0}
        if typ == "NONLINEAR_LS":
            c["y"] = [po(V + T) for _ in range(R(1, 3))]
        if typ == "EXTERNAL":
            c["e"] = po(V, 3, 4, 3)
            if rng.random() < .2 and not d["sens"]:
                m = n["x"] + (n["u"] if k != "e" else 0)
                c["hess"] = [[po(V, 2, 2) for _ in range(m)] for _ in range(m)]
        if typ == "CONVEX_OVER_NONLINEAR":
            big = rng.random() < .3
            m = R(5, 6) if big else R(1, 4)
            c["y"] = [po(V + T, 2, 2) for _ in range(m)]
            c["diag"] = int(rng.random() < .5)
            # layout of psi: (r, t, p, pg)
            nr = m + n["t"] + n["p"] + n["pg"]
            rest = list(range(m, nr))
            ps = []
            for i in range(m):
                e = [0] * nr
                e[i] = R(1, 3) if rng.random() < .5 else 2
                if rest and rng.random() < .3:
                    e[rng.choice(rest)] += 1
                ps.append([rng.choice([-2, -1, 1, 2]), e])
            if not c["diag"]:
                for _ in range(2):
                    e = [0] * nr
                    e[R(0, m - 1)] += 1
                    e[R(0, m - 1)] += 1
                    ps.append([rng.choice([-2, -1, 1, 2]), e])
            merged = {}
            for q, e in ps:
                merged[tuple(e)] = merged.get(tuple(e), 0) + q
            c["psi"] = [[q, list(e)] for e, q in sorted(merged.items()) if q] or [[0, [0] * nr]]
            if rng.random() < .2:
                c["hess"] = [[poly(rng, nr, list(range(nr)), 2, 2, 2) for _ in range(m)] for _ in range(m)]
        d["cost"][k] = c
        g = {"type": rng.choice(["none", "h", "h", "phi"]), "h": [], "r": [], "phi": []}
        if g["type"] == "phi" and d["sens"]:
            g["type"] = "h"
        if g["type"] == "h":
            g["h"] = [po(V) for _ in range(R(1, 3))]
        if g["type"] == "phi":
            m = R(1, 3)
            g["r"] = [po(V, 2, 2) for _ in range(m)]
            nr = m + n["p"] + n["pg"]
            g["phi"] = [poly(rng, nr, list(range(nr)), 3, 3, 2) for _ in range(R(1, 2))]
        d["con"][k] = g
    return d


def spoly(p, v):
    out = 0
    for c, e in p:
        t = c
        for i, k in enumerate(e):
            if k:
                t = t * v[i]**k
        out = out + t
    return out


class Build:
    def __init__(self, d, name, pg=None):
        from acados_template import AcadosOcp
        self.d = d
        n = d["n"]
        sym = getattr(ca, d["sym"])
        self.sym = sym
        o = self.o = AcadosOcp()
        o.name = name
        m = o.model
        m.name = name
        self.v = {k: sym.sym(k, n[k]) for k in ORDER}
        if pg is not None:
            self.v["pg"] = pg
        v = self.v
        m.x, m.xdot = v["x"], v["xdot"]
        for k in ("u", "z", "p", "t"):
            if n[k]:
                setattr(m, k, v[k])
        if n["pg"]:
            m.p_global = v["pg"]
        full = [v[k][i] for k in ORDER for i in range(n[k])]

        def matp(M, vv):
            return ca.vertcat(*[ca.horzcat(*[sym(ca.DM(0)) + spoly(q, vv) for q in row]) for row in M])

        def vecq(ps, vv):
            return ca.vertcat(*[sym(ca.DM(0)) + spoly(q, vv) for q in ps])
        dy = d["dyn"]
        if dy["type"] == "DISCRETE":
            m.disc_dyn_expr = vecq(dy["f"], full)
            if dy["jac"]:
                m.disc_dyn_custom_jac_ux_expr = matp(dy["jac"], full)
            if dy["hess"]:
                m.disc_dyn_custom_hess_ux_expr = matp(dy["hess"], full)
        elif dy["type"] == "ERK":
            m.f_expl_expr = vecq(dy["f"], full)
        else:
            m.f_impl_expr = vecq(dy["f"], full)
        so = o.solver_options
        so.integrator_type = dy["type"]
        so.N_horizon = d["N"]
        if d["N"]:
            so.tf = float(d["N"])
        c, g = o.cost, o.constraints
        o.parameter_values = np.zeros(n["p"])
        o.p_global_values = np.zeros(n["pg"])
        so.hessian_approx = "EXACT" if d["hess"] else "GAUSS_NEWTON"
        if any(d["cost"][k]["type"] == "CONVEX_OVER_NONLINEAR" for k in "0pe"):
            so.exact_hess_cost = 0
        for k in "0pe":
            s, q = S[k], d["cost"][k]
            setattr(c, "cost_type" + s, q["type"])
            if q["type"] in ("NONLINEAR_LS", "CONVEX_OVER_NONLINEAR"):
                setattr(m, "cost_y_expr" + s, vecq(q["y"], full))
                setattr(c, "yref" + s, np.zeros(len(q["y"])))
            if q["type"] == "NONLINEAR_LS":
                setattr(c, "W" + s, np.eye(len(q["y"])))
            if q["type"] == "LINEAR_LS":
                setattr(c, "W" + s, np.eye(1))
                setattr(c, "yref" + s, np.zeros(1))
                setattr(c, "Vx" + s, np.ones((1, n["x"])))
                if k != "e":
                    setattr(c, "Vu" + s, np.ones((1, n["u"])))
                    if n["z"]:
                        setattr(c, "Vz" + s, np.ones((1, n["z"])))
            if q["type"] == "EXTERNAL":
                setattr(m, "cost_expr_ext_cost" + s, vecq([q["e"]], full))
                if q["hess"]:
                    setattr(m, "cost_expr_ext_cost_custom_hess" + s, matp(q["hess"], full))
            if q["type"] == "CONVEX_OVER_NONLINEAR":
                r = sym.sym("r" + s, len(q["y"]))
                rr = [w[i] for w in (r, v["t"], v["p"], v["pg"]) for i in range(w.numel())]
                setattr(m, "cost_r_in_psi_expr" + s, r)
                setattr(m, "cost_psi_expr" + s, vecq([q["psi"]], rr))
                if q["hess"]:
                    setattr(m, "cost_conl_custom_outer_hess" + s, matp(q["hess"], rr))
            w = d["con"][k]
            if w["type"] == "h":
                setattr(m, "con_h_expr" + s, vecq(w["h"], full))
                setattr(g, "lh" + s, -np.ones(len(w["h"])))
                setattr(g, "uh" + s, np.ones(len(w["h"])))
                setattr(g, "constr_type" + s, "BGH")
            if w["type"] == "phi":
                r = sym.sym("rr" + s, len(w["r"]))
                rr = [q[i] for q in (r, v["p"], v["pg"]) for i in range(q.numel())]
                setattr(m, "con_r_in_phi" + s, r)
                setattr(m, "con_r_expr" + s, vecq(w["r"], full))
                setattr(m, "con_phi_expr" + s, vecq(w["phi"], rr))
                setattr(g, "lphi" + s, -np.ones(len(w["phi"])))
                setattr(g, "uphi" + s, np.ones(len(w["phi"])))
                setattr(g, "constr_type" + s, "BGP")
        co = o.code_gen_options
        for s, f in (("forw", "with_solution_sens_wrt_params_forw"), ("adj", "with_solution_sens_wrt_params_adj"), ("val", "with_value_sens_wrt_params")):
            if s in d["sens"]:
                setattr(co, f, True)
        co.sens_forw_p = d["sensp"]


def mtx(M):
    M = np.array(M, dtype=float)
    return [ints(r) for r in M] if M.size else []


# arguments of every function, by the part of its name after the model's
SIG = {
    "dyn_disc_phi_fun": "x u p", "dyn_disc_phi_fun_jac": "x u p", "dyn_disc_phi_fun_jac_hess": "x u mul p", "dyn_disc_phi_jac_p_hess_xu_p": "x u mul p",
    "dyn_disc_phi_hess_ux_pdiff_adj_pdiff": "x u mul sux smul p", "dyn_disc_phi_adj_p": "x u mul p",
    "expl_ode_fun": "x u p", "expl_vde_forw": "x Sx Su u p", "expl_vde_adj": "x mul u p", "expl_ode_hess": "x Sx Su mul u p", "expl_vde_forw_p": "x Sp u p",
    "impl_dae_fun": "x xdot u z t p", "impl_dae_fun_jac_x_xdot_z": "x xdot u z t p", "impl_dae_fun_jac_x_xdot_u_z": "x xdot u z t p",
    "impl_dae_fun_jac_x_xdot_u": "x xdot u z t p", "impl_dae_jac_x_xdot_u_z": "x xdot u z t p", "impl_dae_hess": "x xdot u z mul t p", "impl_dae_jac_p": "x xdot u z t p",
}
for _s in S.values():
    for _n, _a in (("cost_ext_cost%s_fun", "x u z p"), ("cost_ext_cost%s_fun_jac_hess", "x u z p"), ("cost_ext_cost%s_fun_jac", "x u z p"), ("cost_ext_cost%s_hess_xu_p", "x u z p"),
                   ("cost_ext_cost%s_adj_ux_pdiff", "x u z sux p"), ("cost_ext_cost%s_grad_p", "x u z p"),
                   ("cost_y%s_fun", "x u z t p"), ("cost_y%s_fun_jac_ut_xt", "x u z t p"), ("cost_y%s_hess", "x u z mul t p"),
                   ("conl_cost%s_fun", "x u z mul t p"), ("conl_cost%s_fun_jac_hess", "x u z mul t p"),
                   ("constr_h%s_fun_jac_uxt_zt", "x u z p"), ("constr_h%s_fun_jac_uxt_zt_hess", "x u mul z p"), ("constr_h%s_fun", "x u z p"),
                   ("constr_h%s_jac_p_hess_xu_p", "x u mul z p"), ("constr_h%s_hess_ux_pdiff_adj_pdiff", "x u mul sux smul p"), ("constr_h%s_adj_p", "x u mul p"),
                   ("phi%s_constraint_fun_jac_hess", "x u z p"), ("phi%s_constraint_fun", "x u z p")):
        SIG[_n % _s] = _a


def kind_of(name):
    for k in "0e":
        for stem in ("cost_ext_cost_%s_", "cost_y_%s_", "conl_cost_%s_", "constr_h_%s_", "phi_%s_constraint"):
            if name.startswith(stem % k):
                return k
    return "p"


def point(rng, d, base, k):
    R, n = rng.randint, d["n"]
    a = {q: [R(-2, 2) for _ in range(n[q])] for q in ORDER}
    if k == "e":
        a["u"], a["z"] = [], []
    nux = len(a["u"]) + len(a["x"])
    rows = {"d": n["x"], "e": n["x"], "i": n["x"] + n["z"]}.get(base[0], 0)
    if base.startswith("constr_h"):
        rows = len(d["con"][k]["h"])
    if base.startswith(("cost_y", "conl_cost")):
        rows = len(d["cost"][k]["y"])
    a["mul"] = [R(-2, 2) for _ in range(rows)]
    a["smul"] = [R(-2, 2) for _ in range(rows)]
    a["sux"] = [R(-2, 2) for _ in range(nux)]
    a["Sx"] = mat(rng, n["x"], n["x"], -1, 1)
    a["Su"] = mat(rng, n["x"], n["u"], -1, 1) if n["u"] else []
    a["Sp"] = mat(rng, n["x"], n["p"], -1, 1) if n["p"] else []
    return a


def look(rng, lib, pre, d, name, model, times):
    """evaluate a function; lib None: it could not be loaded"""
    evs = []
    n = d["n"]
    base = name[len(model) + 1:] if name.startswith(model + "_") else "?" + name
    k = kind_of(base)
    for _ in range(times):
        a = point(rng, d, base, k)
        ev = {"op": "call", "fn": base, "a": a, "out": [], "err": ""}
        evs.append(ev)
        if base not in SIG:
            ev["err"] = "unknown function"
            return evs
        try:
            f = ca.external(name, lib)
            args = []
            for q in SIG[base].split():
                M = A(a[q])
                if q in ("Sx", "Su", "Sp"):
                    M = M.reshape(n["x"], -1) if M.size else np.zeros((n["x"], 0))
                else:
                    M = M.reshape(-1, 1)
                args.append(ca.DM(M) if M.size else ca.DM.zeros(*M.shape))
            if f.n_in() > len(args) and pre is not None:
                args.append(pre(ca.DM(A(a["pg"]))))
            if f.n_in() != len(args):
                raise RuntimeError("%d arguments instead of %d" % (f.n_in(), len(args)))
            for i, M in enumerate(args):
                if M.numel() != f.numel_in(i):
                    raise RuntimeError("argument %d has %d entries, not %d" % (i, f.numel_in(i), M.numel()))
            res = f.call([M if M.numel() else ca.DM.zeros(*f.size_in(i)) for i, M in enumerate(args)])
            ev["out"] = [mtx(r.full()) for r in res]
        except Exception as e:
            ev["err"] = "%s: %s" % (type(e).__name__, str(e)[:300])
    return evs


TYPES = {"COLMAJ": 0, "DMAT": 1, "DVEC": 2, "COLMAJ_ARGS": 3, "DMAT_ARGS": 4, "DVEC_ARGS": 5, "IGNORE": 6}


class Wrapper:
    """the external function wrappers of the C library"""
    lib = None

    @classmethod
    def load(cls):
        if cls.lib is None:
            cls.lib = ctypes.CDLL(os.path.join(os.environ["ACADOS_SOURCE_DIR"], "lib", "libextfun.so"))
            cls.lib.ef_create.restype = ctypes.c_void_p
            for f in ("ef_set", "ef_set_sparse", "ef_pointers", "ef_free", "ef_eval", "ef_nparam"):
                getattr(cls.lib, f).argtypes = {"ef_set": [ctypes.c_void_p] * 2, "ef_set_sparse": [ctypes.c_void_p, ctypes.c_int, ctypes.c_void_p, ctypes.c_void_p],
                                                "ef_pointers": [ctypes.c_void_p] * 3, "ef_free": [ctypes.c_void_p], "ef_nparam": [ctypes.c_void_p],
                                                "ef_eval": [ctypes.c_void_p, ctypes.c_int, ctypes.c_void_p, ctypes.c_void_p, ctypes.c_int, ctypes.c_void_p, ctypes.c_void_p]}[f]
        return cls.lib


def box_type(rng, r, c, ignore):
    t = ["COLMAJ", "DMAT", "COLMAJ_ARGS", "DMAT_ARGS"] + (["DVEC", "DVEC_ARGS"] * 2 if c == 1 else []) + (["IGNORE"] if ignore and rng.random() < .5 else [])
    return [TYPES[rng.choice(t)], r, c, rng.randint(0, 4), rng.randint(0, 4)]


def through_c(rng, ilib, lib, pre, d, name, model):
    """a history of calls of one function through the wrappers"""
    base = name[len(model) + 1:]
    if base not in SIG or not SIG[base].split()[-1] == "p":
        return []
    L = Wrapper.load()
    n = d["n"]
    f = ca.external(name, lib)
    sig = SIG[base].split()
    gd = f.n_in() > len(sig)
    fl = rng.choice([0, 2, 2]) if gd else rng.choice([0, 1, 1, 2])
    h = L.ef_create(ilib.encode(), name.encode(), fl, n["p"], int(gd and fl == 2), rng.randint(0, 1))
    k = kind_of(base)
    evs = [{"op": "ccreate", "fn": base, "flavour": fl, "err": ""}]
    p = np.zeros(max(1, n["p"]))
    if fl == 1:
        evs[0]["np"] = L.ef_nparam(h)
    gbuf = None
    for step in range(rng.randint(2, 5)):
        q = rng.choice(["eval", "eval", "set", "sparse"]) if step else "set"
        if q == "set":
            v = [rng.randint(-2, 2) for _ in range(n["p"])]
            p[:n["p"]] = v
            if fl == 1:
                w = A(v) if v else np.zeros(1)
                L.ef_set(h, w.ctypes.data)
            evs.append({"op": "cset", "p": v, "err": ""})
        elif q == "sparse" and fl == 1 and n["p"]:
            idx = [rng.randrange(n["p"]) for _ in range(rng.randint(1, 2))]
            v = [rng.randint(-2, 2) for _ in idx]
            i_, v_ = np.array(idx, dtype=np.int32), A(v)
            L.ef_set_sparse(h, len(idx), i_.ctypes.data, v_.ctypes.data)
            for i, x in zip(idx, v):
                p[i] = x
            evs.append({"op": "csparse", "idx": idx, "v": v, "err": ""})
        else:
            a = point(rng, d, base, k)
            a["p"] = []
            rows, data = [], []
            gdv = np.array(pre(ca.DM(A(a["pg"]))).full().reshape(-1)) if gd else None
            for i, s in enumerate(sig):
                r, c = f.size_in(i)
                M = p[:n["p"]] if s == "p" else A(a[s])
                data += list(M.reshape(r, c).reshape(-1, order="F")) if M.size else [0.] * (r * c)
                rows += box_type(rng, r, c, False)
            if gd:
                data += list(gdv)
                rows += box_type(rng, *f.size_in(len(sig)), False)
            if fl == 2:
                gbuf = gdv
                L.ef_pointers(h, p.ctypes.data, gbuf.ctypes.data if gd else None)
            outs, ign = [], []
            for i in range(f.n_out()):
                b = box_type(rng, *f.size_out(i), True)
                ign.append(b[0] == TYPES["IGNORE"])
                outs += b
            tin, tout = np.array(rows, dtype=np.int32), np.array(outs, dtype=np.int32)
            data = A(data + [0.])
            res = np.full(sum(f.numel_out(i) for i in range(f.n_out())) + 1, -5.)
            touched = L.ef_eval(h, f.n_in(), tin.ctypes.data, data.ctypes.data, f.n_out(), tout.ctypes.data, res.ctypes.data)
            out, at = [], 0
            for i in range(f.n_out()):
                r, c = f.size_out(i)
                out.append(mtx(res[at:at + r * c].reshape(r, c, order="F")))
                at += r * c
            evs.append({"op": "ceval", "fn": base, "a": a, "out": out, "ign": ign, "touched": touched, "types": [int(t) for t in tin[::5]] + [-1] + [int(t) for t in tout[::5]], "err": ""})
    L.ef_free(h)
    return evs


def compile_all(root):
    src = glob.glob(os.path.join(root, "**", "*.c"), recursive=True)
    out = []
    os.makedirs(root, exist_ok=True)                # a problem may need no functions at all
    for name, flags in (("lib.so", ["-Dcasadi_int=long long int"]), ("ilib.so", [])):     # for casadi itself, and as acados uses them
        lib = os.path.join(root, name)
        r = subprocess.run(["gcc", "-O0", "-w", "-x", "c"] + flags + ["-shared", "-fPIC", "-o", lib] + (src or ["/dev/null"]) + ["-lm"], capture_output=True, text=True)
        if r.returncode:
            raise RuntimeError("generated code does not compile: " + r.stderr[:300])
        out.append(lib)
    return out


def options(rng, co):
    for k in ("dyn", "cost", "constr", "precompute"):
        if rng.random() < .3:
            setattr(co, "ext_fun_expand_" + k, True)


def single(rng, tid, times, sim=False):
    d = gen(rng)
    name = "m" + tid
    t = {"tid": tid, "init": d, "ev": []}
    d["kinds"] = ["e"] if d["N"] == 0 else ["0", "p", "e"]
    if sim:
        from acados_template import AcadosSim
        while d["dyn"]["type"] == "DISCRETE" or d["n"]["pg"]:
            d = gen(rng)
        d["kinds"] = []
        t["init"] = d
    b = Build(d, name)
    o = b.o
    if sim:
        s = AcadosSim()
        s.name = name
        s.model = b.o.model
        s.parameter_values = o.parameter_values
        s.solver_options.integrator_type = d["dyn"]["type"]
        s.solver_options.T = 1.0
        s.solver_options.sens_hess = d["hess"]
        if d["hess"]:
            s.solver_options.sens_forw = True
            s.solver_options.sens_adj = True
        s.code_gen_options.sens_forw_p = d["sensp"]
        o = s
    options(rng, o.code_gen_options)
    d["expand"] = o.code_gen_options.ext_fun_expand_dyn
    root = os.path.abspath("c_" + tid)
    o.code_gen_options.code_export_directory = root
    with warnings.catch_warnings(), common.quiet():
        warnings.simplefilter("ignore")
        try:
            o.make_consistent(verbose=False) if not sim else o.make_consistent()
        except Exception as e:
            return None, "%s: %s" % (type(e).__name__, str(e)[:150])
        try:
            ctx = None
            import acados_template.casadi_function_generation as cfg
            if sim:
                o.generate_external_functions()
                names = [os.path.basename(f)[:-2] for f in glob.glob(root + "/**/*.c", recursive=True)]
            else:
                ctx = o.generate_external_functions()
                names = [q for q, _ in ctx.list_funname_dir_pairs]
            lib, ilib = compile_all(root)
        except Exception as e:
            t["ev"].append({"op": "files", "names": [], "err": "%s: %s" % (type(e).__name__, str(e)[:300])})
            return t, ""
        pn = name + "_p_global_precompute_fun"
        pre = ca.external(pn, lib) if pn in names else None
        names = [q for q in names if q != pn]
        t["ev"].append({"op": "files", "names": sorted(q[len(name):] for q in names), "err": ""})
        for q in sorted(set(names)):
            t["ev"] += look(rng, lib, pre, d, q, name, times)
        if not any(e["err"] for e in t["ev"]):
            for q in rng.sample(sorted(set(names)), min(5, len(set(names)))):
                t["ev"] += through_c(rng, ilib, lib, pre, d, q, name)
    return t, ""


def multi(rng, tid, times):
    from acados_template import AcadosMultiphaseOcp
    np_ = rng.randint(2, 3)
    shared = {"sym": rng.choice(["SX", "MX"]), "npg": rng.randint(0, 2), "hess": rng.random() < .7}
    pg = getattr(ca, shared["sym"]).sym("pg", shared["npg"])
    shared["nx"] = rng.randint(1, 3)
    ds = [gen(rng, shared) for _ in range(np_)]
    bs = [Build(d, "m%s%s" % (tid, "abc"[i]), pg) for i, d in enumerate(ds)]
    mo = AcadosMultiphaseOcp([2] * np_)
    mo.name = "m" + tid
    for i, b in enumerate(bs):
        mo.set_phase(b.o, i)
    mo.p_global_values = np.zeros(shared["npg"])
    mo.mocp_opts.integrator_type = [d["dyn"]["type"] for d in ds]
    mo.solver_options.tf = 2. * np_
    mo.solver_options.hessian_approx = "EXACT" if shared["hess"] else "GAUSS_NEWTON"
    if any(d["cost"][k]["type"] == "CONVEX_OVER_NONLINEAR" for d in ds for k in "0pe"):
        mo.solver_options.exact_hess_cost = 0
    options(rng, mo.code_gen_options)
    root = os.path.abspath("c_" + tid)
    mo.code_gen_options.code_export_directory = root
    with warnings.catch_warnings(), common.quiet():
        warnings.simplefilter("ignore")
        try:
            mo.make_consistent()
        except Exception as e:
            return [], "%s: %s" % (type(e).__name__, str(e)[:150])
        ts = []
        for i, d in enumerate(ds):
            d["kinds"] = (["0"] if i == 0 else []) + ["p"] + (["e"] if i == np_ - 1 else [])
            ts.append({"tid": "%s.%d" % (tid, i), "init": d, "ev": []})
        try:
            ctx = mo.generate_external_functions()
            names = [q for q, _ in ctx.list_funname_dir_pairs]
            lib, ilib = compile_all(root)
        except Exception as e:
            ts[0]["ev"].append({"op": "files", "names": [], "err": "%s: %s" % (type(e).__name__, str(e)[:300])})
            return ts, ""
        pn = mo.name + "_p_global_precompute_fun"
        pre = ca.external(pn, lib) if pn in names else None
        names = [q for q in names if q != pn]
        for i, t in enumerate(ts):
            mn = bs[i].o.model.name
            mine = [q for q in names if q.startswith(mn + "_")]
            t["ev"].append({"op": "files", "names": sorted(q[len(mn):] for q in mine), "err": ""})
            for q in sorted(set(mine)):
                t["ev"] += look(rng, lib, pre, ds[i], q, mn, times)
            if not any(e["err"] for e in t["ev"]):
                for q in rng.sample(sorted(set(mine)), min(3, len(set(mine)))):
                    t["ev"] += through_c(rng, ilib, lib, pre, ds[i], q, mn)
    return ts, ""


def run(job):
    out, refused = [], {}
    for i in range(job["n"]):
        rng = random.Random(job["seed"] * 1000003 + i)
        tid = "%d_%d" % (job["seed"], i)
        r = rng.random()
        if r < .15:
            ts, why = multi(rng, tid, job["times"])
        else:
            t, why = single(rng, tid, job["times"], sim=r < .3)
            ts = [t] if t else []
        if why:
            refused[why] = refused.get(why, 0) + 1
        out += ts
    return {"traces": out, "refused": refused}


if __name__ == "__main__":
    common.main(run)
