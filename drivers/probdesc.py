"""C13: problem descriptions, consistent and not, through AcadosOcp.make_consistent (no code is generated).

A description is a plain record: lengths of the model's expressions, shapes and integer data of every array, options.
The record handed to TLC is the description as meant; what acados makes of it is read back from the object.
"""
import copy
import random
import warnings

import casadi as ca
import numpy as np

from . import common

STG = ("_0", "", "_e")
SOFT = ("bx", "bu", "bx_e", "g", "g_e", "h_0", "h", "h_e", "phi_0", "phi", "phi_e")
CONS = ("lbx_0 ubx_0 idxbx_0 idxbxe_0 lbx ubx idxbx lbx_e ubx_e idxbx_e lbu ubu idxbu lg ug lg_e ug_e lh_0 uh_0 lh uh lh_e uh_e lphi_0 uphi_0 lphi uphi "
        "lphi_e uphi_e idxs_rev_0 idxs_rev idxs_rev_e ls_0 ls ls_e us_0 us us_e C D C_e").split() + \
    [a + k for k in SOFT for a in ("ls", "us", "idxs")]
COST = [a + s for s in STG for a in ("W", "Vx", "Vu", "Vz", "yref", "Zl", "Zu", "zl", "zu") if not (s == "_e" and a in ("Vu", "Vz"))]
MAT = {"C", "D", "C_e"} | {a for a in COST if a[0] in "WV"}
DIMS = ("nx nu nz np np_global N nx_next ny_0 ny ny_e nbx_0 nbxe_0 nbx nbu nbx_e ng ng_e nh_0 nh nh_e nphi_0 nphi nphi_e nr_0 nr nr_e nsbx nsbu nsbx_e nsg nsg_e "
        "nsh_0 nsh nsh_e nsphi_0 nsphi nsphi_e ns_0 ns ns_e").split()
EXPR = [a + s for s in STG for a in ("y", "psi", "rin", "ext", "h", "phi", "r")]
ATTR = {"y": "cost_y_expr", "psi": "cost_psi_expr", "rin": "cost_r_in_psi_expr", "ext": "cost_expr_ext_cost", "h": "con_h_expr", "phi": "con_phi_expr", "r": "con_r_expr",
        "chess": "cost_expr_ext_cost_custom_hess", "ohess": "cost_conl_custom_outer_hess"}
NONINT = -888887
INF = 10**10       # 10**9 in the records


def attr(e):
    for s in ("_0", "_e", ""):
        if e.endswith(s):
            return ATTR[e[:len(e) - len(s)] if s else e] + s


def pd(rng, n):
    kind = rng.choice(["diag", "full"])
    if kind == "diag" or n < 2:
        return np.diag([float(rng.randint(0, 3)) for _ in range(n)]).reshape(n, n)
    L = np.tril([[float(rng.randint(-1, 1)) for _ in range(n)] for _ in range(n)])
    return L @ L.T + np.eye(n)


def gen(rng):
    R = rng.randint
    m = {"nx": R(1, 3), "nu": R(0, 2) if rng.random() < .2 else R(1, 2), "nz": R(0, 1) * R(0, 2), "np": R(0, 2), "npg": R(0, 1) * R(0, 2), "xdot": -1, "fexpl": -1, "fimpl": -1,
         "disc": -1, "sym": rng.choice(["SX", "MX"])}
    nx, nu, nz = m["nx"], m["nu"], m["nz"]
    o = {"N": R(1, 4) if rng.random() > .08 else 0, "integrator_type": rng.choice(["ERK", "IRK", "DISCRETE", "LIFTED_IRK", "GNSF"]), "nlp_solver_type": rng.choice(["SQP", "SQP", "SQP_RTI"]),
         "qp_solver": rng.choice(["PARTIAL_CONDENSING_HPIPM", "PARTIAL_CONDENSING_HPIPM", "FULL_CONDENSING_HPIPM", "PARTIAL_CONDENSING_OSQP", "FULL_CONDENSING_QPOASES"]),
         "hessian_approx": rng.choice(["GAUSS_NEWTON", "GAUSS_NEWTON", "EXACT"]), "exact_hess_cost": 1, "fixed_hess": 0, "globalization": "FIXED_STEP", "as_rti_level": 4,
         "cond_N": -1, "block": [], "cost_discretization": "EULER", "anderson": 0, "warm_nlp": 0, "sens_sol": 0, "sens_val": 0, "sens_via": rng.choice(["code_gen_options", "solver_options"]),
         "nsteps": R(1, 3), "nstages": R(1, 3), "nsteps_arr": 0, "tau_min": 0, "dims_N": -1, "qpscaling": 0, "adaptive_tol": 0}
    N = o["N"]
    for k, v in (("DISCRETE", "disc"), ("ERK", "fexpl"), ("IRK", "fimpl"), ("LIFTED_IRK", "fimpl"), ("GNSF", "fimpl")):
        if o["integrator_type"] == k:
            m[v] = nx + (nz if v == "fimpl" else 0)
    if rng.random() < .5:
        m["xdot"] = nx
    ts = [R(1, 3) for _ in range(N)]
    o["tgiven"] = rng.choice(["tf", "time_steps", "shooting_nodes"]) if N else "tf"
    if o["tgiven"] == "tf":
        ts = [R(1, 3)] * N
    o["tf"] = sum(ts)
    o["ts"] = ts if o["tgiven"] == "time_steps" else []
    o["nodes"] = [sum(ts[:k]) for k in range(N + 1)] if o["tgiven"] == "shooting_nodes" else []
    o["scaling"] = [R(1, 3) for _ in range(N + 1)] if rng.random() < .4 else []
    A = {}
    for f in CONS + COST:
        A[f] = np.zeros((0, 0)) if f in MAT else np.zeros(0)
    for f in COST:
        if f.endswith("_0"):
            A[f] = None
    E = {e: -1 for e in EXPR}
    ct = {}
    types = ["LINEAR_LS", "NONLINEAR_LS", "EXTERNAL"] + (["CONVEX_OVER_NONLINEAR"] if o["hessian_approx"] == "GAUSS_NEWTON" else [])
    for s in STG:
        t = rng.choice(types)
        if s == "_0" and rng.random() < .6:
            ct[s] = "None"
            continue
        ct[s] = t
        ny = R(0, 3) if t.endswith("LS") else R(1, 3)
        if t == "LINEAR_LS":
            A["W" + s] = pd(rng, ny)
            A["Vx" + s] = np.array([[float(R(-2, 2)) for _ in range(nx)] for _ in range(ny)]).reshape(ny, nx)
            if s != "_e":
                A["Vu" + s] = np.array([[float(R(-2, 2)) for _ in range(nu)] for _ in range(ny)]).reshape(ny, nu)
                if nz or s == "_0":
                    A["Vz" + s] = np.array([[float(R(-2, 2)) for _ in range(nz)] for _ in range(ny)]).reshape(ny, nz)
            A["yref" + s] = np.array([float(R(-2, 2)) for _ in range(ny)])
        elif t == "NONLINEAR_LS":
            A["W" + s], A["yref" + s], E["y" + s] = pd(rng, ny), np.array([float(R(-2, 2)) for _ in range(ny)]), ny if ny else -1
        elif t == "CONVEX_OVER_NONLINEAR":
            A["yref" + s], E["y" + s], E["rin" + s], E["psi" + s] = np.array([float(R(-2, 2)) for _ in range(ny)]), ny, ny, 1
        else:
            E["ext" + s] = 1

    def bnd(n):
        lo = np.array([float(R(-3, 0)) for _ in range(n)])
        return lo, lo + np.array([float(R(0, 3)) for _ in range(n)])

    def idx(n, k=None):
        k = R(0, n) if k is None else k
        a = rng.sample(range(n), k)
        return np.array(sorted(a) if rng.random() < .6 else a, dtype=int)
    x0 = -1
    if N:
        if rng.random() < .5:
            x0 = nx
            A["lbx_0"] = A["ubx_0"] = bnd(nx)[0]
            A["idxbx_0"] = A["idxbxe_0"] = np.arange(nx)
        else:
            A["idxbx_0"] = idx(nx)
            n = len(A["idxbx_0"])
            A["lbx_0"], A["ubx_0"] = bnd(n)
            A["idxbxe_0"] = idx(n, R(0, n) * R(0, 1))
    for f, n in (("bx", nx), ("bu", nu), ("bx_e", nx)):
        if (N or f == "bx_e") and rng.random() < .7:
            A["idx" + f] = idx(n)
            A["l" + f], A["u" + f] = bnd(len(A["idx" + f]))
    if N and rng.random() < .6:
        ng = R(1, 2)
        A["lg"], A["ug"] = bnd(ng)
        A["C"], A["D"] = np.array([[float(R(-1, 1)) for _ in range(nx)] for _ in range(ng)]), np.array([[float(R(-1, 1)) for _ in range(nu)] for _ in range(ng)]).reshape(ng, nu)
    if rng.random() < .6:
        ng = R(1, 2)
        A["lg_e"], A["ug_e"] = bnd(ng)
        A["C_e"] = np.array([[float(R(-1, 1)) for _ in range(nx)] for _ in range(ng)])
    for s in STG if N else ("_e",):
        if rng.random() < .6:
            E["h" + s] = R(1, 2)
            A["lh" + s], A["uh" + s] = bnd(E["h" + s])
        if rng.random() < .45:
            E["phi" + s], E["r" + s] = R(1, 3), R(1, 3)
            A["lphi" + s], A["uphi" + s] = bnd(E["phi" + s])

    def count(s):
        """numbers of constraints by kind, in the order of idxs_rev"""
        bu = 0 if s == "_e" else len(A["idxbu"])
        g = len(A["lg_e" if s == "_e" else "lg"])
        return {"bu": bu, "bx": len(A["idxbx" + s]), "g": g, "h": max(E["h" + s], 0), "phi": max(E["phi" + s], 0)}
    rev = o["qp_solver"].endswith("HPIPM") and rng.random() < .3
    ns = {"_0": 0, "": 0, "_e": 0}
    if rev:
        for s in STG if N else ("_e",):
            n = sum(count(s).values())
            if n and (s != "_e" or rng.random() < .7):
                k = R(0, n)
                v = list(range(k)) + [-1] * (n - k)
                for j in range(k, n):
                    if k and rng.random() < .4:
                        v[j] = R(0, k - 1)
                rng.shuffle(v)
                A["idxs_rev" + s] = np.array(v)
                ns[s] = k
                for q in ("ls", "us"):
                    if rng.random() < .4:
                        A[q + s] = np.array([float(R(0, 2)) for _ in range(k)])
    if not rev or not len(A["idxs_rev_e"]):
        for k in SOFT:
            s = "_0" if k.endswith("_0") else "_e" if k.endswith("_e") else ""
            if s != "_e" and (rev or not N):
                continue
            n = count(s)[k.replace("_0", "").replace("_e", "")]
            if n and rng.random() < .5:
                A["idxs" + k] = idx(n)
                q = len(A["idxs" + k])
                for a in ("ls", "us"):
                    if rng.random() < .4:
                        A[a + k] = np.array([float(R(0, 2)) for _ in range(q)])
                ns[s] += q
                if k in ("bu", "g"):
                    ns["_0"] += q
    for s in STG:
        if s != "_e" and not N:
            continue
        if s == "_0" and not rev and ns[s] in (0, ns[""]) and rng.random() < .6:
            continue
        for q in ("Zl", "Zu", "zl", "zu"):
            A[q + s] = np.array([float(R(0, 9)) for _ in range(ns[s])])
    d = {"m": m, "o": o, "A": A, "E": E, "ct": ct, "x0": x0, "chess": [[-1, -1]] * 3, "pv": m["np"], "pgv": m["npg"], "edep": [], "J": []}
    for i, s in enumerate(STG):
        if ct[s] == "EXTERNAL" and rng.random() < .3:
            n = nx + (nu if s != "_e" else 0)
            d["chess"][i] = [n, n]
    # some bounds given by a selection matrix
    for k, n in (("bx_0", nx), ("bx", nx), ("bu", nu), ("bx_e", nx)):
        if len(A["idx" + k]) and n and rng.random() < .15 and not (k == "bx_0" and x0 >= 0):
            J = np.zeros((len(A["idx" + k]), n))
            J[np.arange(len(J)), A["idx" + k]] = 1.
            d["J"].append(["J" + k, J])
    for k in SOFT:
        if len(A["idxs" + k]) and rng.random() < .25:
            s = "_0" if k.endswith("_0") else "_e" if k.endswith("_e") else ""
            n = count(s)[k.replace("_0", "").replace("_e", "")]
            J = np.zeros((n, len(A["idxs" + k])))
            J[A["idxs" + k], np.arange(J.shape[1])] = 1.
            d["J"].append(["Js" + k, J])
    # consistent settings of options that ask something of the rest
    q = rng.random()
    if N and q < .15:
        o["cond_N"] = R(1, N)
        if rng.random() < .6:
            b = [0] * (o["cond_N"] + 1)
            for _ in range(N):
                b[R(0, o["cond_N"])] += 1
            o["block"] = b
    return d


def mutate(rng, d):
    d = copy.deepcopy(d)
    A, E, o, m = d["A"], d["E"], d["o"], d["m"]
    given = [f for f in A if A[f] is not None and A[f].size]
    kind = rng.choice(["len"] * 6 + ["idx"] * 5 + ["expr"] * 4 + ["mat"] * 3 + ["opt"] * 9 + ["par", "W", "W", "edep", "J", "J", "x0", "none", "rev", "rev"] + ["inf"] * 2 + ["pen"] * 2 + ["ctype"])
    if kind == "len":
        f = rng.choice([f for f in A if f not in MAT] if rng.random() < .3 or not given else [f for f in given if f not in MAT] or ["lbx"])
        v = A[f] if A[f] is not None else np.zeros(0)
        if rng.random() < .5 and v.size:
            A[f] = v[:-1]
        elif rng.random() < .8:
            A[f] = np.append(v, v.max() + 1 if f.startswith("idx") and v.size else 0)
        elif v.size:
            A[f] = np.array([v, v]) if rng.random() < .5 else v.reshape(-1, 1)
    elif kind == "idx":
        fs = [f for f in given if f.startswith("idx")]
        if fs:
            f = rng.choice(fs)
            v = np.array(A[f], dtype=float)
            k = rng.randrange(len(v))
            q = rng.choice(["neg", "big", "big", "big", "half", "dup"])
            # the first index that is too large, for the length of any stage's constraints of the kind
            kind = f.replace("idxs", "").replace("idx", "").replace("_0", "").replace("_e", "")
            sizes = [m["nx"], m["nu"]] if kind in ("bx", "bu") and not f.startswith("idxs") else \
                [len(A["l" + kind + s]) for s in STG if "l" + kind + s in A] or [len(A["lbx_0"])]
            v[k] = {"neg": -1 - (f.startswith("idxs_rev")), "big": rng.choice(sizes + [max(sizes), 9]), "half": v[k] + .5, "dup": v[(k + 1) % len(v)]}[q]
            A[f] = v if q == "half" else v.astype(int)
            d["J"] = [j for j in d["J"] if "idx" + j[0][1:] != f]
    elif kind == "expr":
        if rng.random() < .6:
            fs = [e for e in E if E[e] > 0]
            if fs:
                e = rng.choice(fs)
                E[e] += rng.choice([-1, 1])
                E[e] = E[e] or -1
        elif rng.random() < .5:
            E[rng.choice(list(E))] = rng.randint(1, 2)
        else:
            f = rng.choice(["xdot", "fexpl", "fimpl", "disc"])
            m[f] = m[f] + rng.choice([-1, 1]) if m[f] > 0 else rng.randint(1, 3)
            m[f] = m[f] or -1
    elif kind == "mat":
        fs = [f for f in given if f in MAT]
        if fs:
            f = rng.choice(fs)
            v = A[f]
            A[f] = rng.choice([v[:-1], v[:, :-1], np.vstack([v, v[-1:]]), np.hstack([v, v[:, -1:]]), v.reshape(-1)])
    elif kind == "W":
        fs = [f for f in given if f[0] == "W" and A[f].ndim == 2 and A[f].shape[0] == A[f].shape[1]]
        if fs:
            f = rng.choice(fs)
            v = A[f].copy()
            n = len(v)
            i, j = rng.randrange(n), rng.randrange(n)
            q = rng.choice(["sym", "neg", "off"])
            if q == "neg":
                v[i, i] = -1.
            elif q == "sym":
                v[i, j] += 1.
            elif i != j:
                v[i, j] = v[j, i] = 5.
            A[f] = v
    elif kind == "opt":
        N = o["N"]
        q = rng.choice(["tf", "tf", "ts", "nodes", "scaling", "cond", "block", "blocklen", "fixed", "ddp", "funnel", "rti_tol", "as_rti", "anderson", "warm", "sens", "sens", "val", "val",
                        "integ", "N", "tau", "nsteps", "conl", "disc", "qpscaling", "both"])
        if q == "tf":
            o["tf"] += rng.choice([-1, 1])
        elif q == "ts" and o["ts"]:
            o["ts"] = rng.choice([o["ts"][:-1], o["ts"] + [1], [o["ts"][0] + 1] + o["ts"][1:]])
            if rng.random() < .5:
                o["tf"] = sum(o["ts"])
        elif q == "nodes" and o["nodes"]:
            o["nodes"] = rng.choice([o["nodes"][:-1], o["nodes"] + [o["nodes"][-1] + 1], o["nodes"][:-1] + [o["nodes"][-1] + 1]])
            if rng.random() < .5:
                o["tf"] = o["nodes"][-1]
        elif q == "scaling":
            o["scaling"] = [1] * rng.choice([max(N, 1), N + 1, N + 2])
        elif q == "cond":
            o["cond_N"] = rng.choice([N + 1, N, max(N - 1, 0)])
            o["block"] = []
        elif q in ("block", "blocklen") and N:
            o["cond_N"] = rng.randint(1, N)
            b = [N // o["cond_N"]] * o["cond_N"] + [rng.randint(0, 1)]
            o["block"] = b + ([0] if q == "blocklen" else [])
        elif q == "fixed":
            o["fixed_hess"] = 1
        elif q == "ddp":
            o["nlp_solver_type"] = "DDP"
            if rng.random() < .7:
                o["qp_solver"] = "PARTIAL_CONDENSING_HPIPM"
                for f in A:
                    if (f in CONS and f not in ("lbx_0", "ubx_0", "idxbx_0", "idxbxe_0")) or f[0] in "zZ":
                        A[f] = np.zeros((0, 0)) if f in MAT else np.zeros(0)
                for e in E:
                    if e[0] in "hp" and e[:3] != "psi" or e[0] == "r" and e[:3] != "rin":
                        E[e] = -1
                d["J"] = []
                # one kind of constraint left
                k = rng.choice(["", "", "bx_e", "h_0", "bu", "h_e"])
                if k == "bx_e" or k == "bu" and m["nu"]:
                    A["idx" + k], A["l" + k], A["u" + k] = np.array([0]), np.array([0.]), np.array([1.])
                elif k in ("h_0", "h_e"):
                    E[k], A["l" + k], A["u" + k] = 1, np.array([0.]), np.array([1.])
        elif q == "funnel":
            o["globalization"] = "FUNNEL_L1PEN_LINESEARCH"
        elif q == "rti_tol":
            o["adaptive_tol"] = 1
        elif q == "as_rti":
            o["as_rti_level"] = rng.randint(0, 3)
        elif q == "anderson":
            o["anderson"] = 1
            o["globalization"] = rng.choice(["FIXED_STEP", "MERIT_BACKTRACKING"])
        elif q == "warm":
            o["warm_nlp"] = 1
        elif q == "sens":
            o["sens_sol"] = 1
            if rng.random() < .5:
                o["integrator_type"], m["disc"], o["qp_solver"] = "DISCRETE", m["nx"], "PARTIAL_CONDENSING_HPIPM"
        elif q == "val":
            o["sens_val"] = 1
            if rng.random() < .5:
                o["integrator_type"], m["disc"] = "DISCRETE", m["nx"]
        elif q == "integ":
            o["integrator_type"] = rng.choice(["ERK", "IRK", "DISCRETE", "LIFTED_IRK", "GNSF"])
        elif q == "N":
            o["dims_N"] = o["N"] + rng.randint(0, 1)
        elif q == "tau":
            o["tau_min"] = 1
        elif q == "nsteps":
            o["nsteps_arr"] = rng.choice([N, N + 1, max(N - 1, 2)])
        elif q == "conl":
            o["hessian_approx"], o["exact_hess_cost"] = "EXACT", rng.randint(0, 1)
        elif q == "disc":
            o["cost_discretization"] = "INTEGRATOR"
        elif q == "qpscaling":
            o["qpscaling"] = 1
        elif q == "both" and o["tgiven"] == "time_steps":
            o["nodes"] = [sum(o["ts"][:k]) for k in range(N + 1)]
    elif kind == "par":
        k = rng.choice(["pv", "pgv"])
        d[k] = max(0, d[k] + rng.choice([-1, 1]))
    elif kind == "edep":
        fs = [e for e in E if e.endswith("_e") and E[e] > 0 and e[:3] not in ("psi", "phi", "rin")]
        if fs and m["nu"] + m["nz"]:
            d["edep"] = [rng.choice(fs)]
    elif kind == "J" and d["J"]:
        j = rng.choice(d["J"])
        J = j[1] = j[1].copy()
        q = rng.choice(["two", "val", "zero", "col"])
        i = rng.randrange(J.shape[0])
        if q == "two":
            J[i, rng.randrange(J.shape[1])] = 1.
        elif q == "val":
            J[J > 0] = rng.choice([2., -1.])
        elif q == "zero":
            J[i, :] = 0.
        elif J.shape[0] > 1:
            J[i, :] = J[i - 1, :]
    elif kind == "x0" and d["x0"] >= 0:
        d["x0"] = max(1, d["x0"] + rng.choice([-1, 1]))
        v = np.ones(d["x0"])
        A["lbx_0"] = A["ubx_0"] = v
        A["idxbx_0"] = A["idxbxe_0"] = np.arange(d["x0"])
    elif kind == "rev":
        f = rng.choice(["idxs_rev", "idxs_rev_0", "idxs_rev_e"])
        if A[f].size:
            v = A[f].copy()
            v[rng.randrange(len(v))] = rng.randint(-1, len(v))
            A[f] = v
        elif rng.random() < .5:
            A[f] = np.array([-1, 0])
    elif kind == "inf":
        fs = [f for f in given if f[0] in "lu" and f[1] in "bghp"]
        if fs:
            f = rng.choice(fs)
            if not (d["x0"] >= 0 and f in ("lbx_0", "ubx_0")):
                v = A[f].astype(float)
                v[rng.randrange(len(v))] = (-INF if f[0] == "l" else INF)
                A[f] = v
    elif kind == "pen":
        f = rng.choice([q + s for q in ("Zl", "Zu", "zl", "zu") for s in STG])
        A[f] = rng.choice([np.ones(1), np.ones(2), np.zeros(0)])
    elif kind == "ctype":
        s = rng.choice(STG)
        d["ct"][s] = rng.choice(["LINEAR_LS", "NONLINEAR_LS", "EXTERNAL", "CONVEX_OVER_NONLINEAR"])
    n = np.arange(d["x0"])
    if d["x0"] >= 0 and not (np.array_equal(A["lbx_0"], A["ubx_0"]) and np.array_equal(A["idxbx_0"], n) and np.array_equal(A["idxbxe_0"], n) and A["lbx_0"].shape == n.shape):
        d["x0"] = -1        # the fields are set one by one
    return d


def sweep(rng, rich):
    """one rich consistent description, then every length, index and expression of it changed, one at a time"""
    while True:
        d = gen(rng)
        if d["o"]["N"] > 1 and sum(1 for f in d["A"] if d["A"][f] is not None and d["A"][f].size) >= rich and min(d["E"]["phi_0"], d["E"]["phi"], d["E"]["h"]) > 0:
            break
    yield d
    A = d["A"]
    for f in A:
        v = A[f]
        if v is None:
            continue
        news = []
        if f in MAT:
            if v.size:
                news = [v[:-1], v[:, :-1], np.vstack([v, v[-1:]]), np.hstack([v, v[:, -1:]])]
        else:
            news = [np.append(v, v.max() + 1 if f.startswith("idx") and v.size else 0)]
            if v.size:
                news.append(v[:-1])
        if f.startswith("idx") and v.size:
            sizes = {len(A["l" + k + s]) for k in ("bx", "bu", "g", "h", "phi") for s in STG if "l" + k + s in A} | {d["m"]["nx"], d["m"]["nu"], len(v)}
            for q in sorted(sizes) + [-1, -2]:
                w = v.copy()
                w[rng.randrange(len(w))] = q
                news.append(w)
        for w in news:
            e = copy.deepcopy(d)
            e["A"][f] = w
            e["J"] = [j for j in e["J"] if "idx" + j[0][1:] != f]
            if f in ("lbx_0", "ubx_0", "idxbx_0", "idxbxe_0"):
                e["x0"] = -1
            yield e
    for e in d["E"]:
        for q in (-1, 1):
            c = copy.deepcopy(d)
            c["E"][e] = max(c["E"][e], 0) + q
            if c["E"][e] >= 0:
                c["E"][e] = c["E"][e] or -1
                yield c


def descriptions(rng, job):
    if job.get("sweep"):
        for _ in range(job["sweep"]):
            yield from sweep(rng, rng.choice([25, 35]))
    for _ in range(job["n"]):
        d = gen(rng)
        for _ in range(rng.choice([0, 1, 1, 1, 1, 1, 1, 2])):
            d = mutate(rng, d)
        yield d


def build(d):
    from acados_template import AcadosOcp
    m, o, A, E = d["m"], d["o"], d["A"], d["E"]
    S = ca.SX if m["sym"] == "SX" else ca.MX
    ocp = AcadosOcp()
    mod = ocp.model
    mod.name = "m"
    mod.x = x = S.sym("x", m["nx"])
    u, z = S.sym("u", m["nu"]), S.sym("z", m["nz"])
    if m["nu"]:
        mod.u = u
    if m["nz"]:
        mod.z = z
    if m["np"]:
        mod.p = S.sym("p", m["np"])
    if m["npg"]:
        mod.p_global = S.sym("pg", m["npg"])
    if m["xdot"] > 0:
        mod.xdot = S.sym("xd", m["xdot"])

    def vec(n, dep):
        base = x[0] + (ca.sum1(ca.vertcat(u, z)) if dep and m["nu"] + m["nz"] else 0)
        return ca.vertcat(*[(k + 1) * base for k in range(n)])
    for f, a in (("fexpl", "f_expl_expr"), ("fimpl", "f_impl_expr"), ("disc", "disc_dyn_expr")):
        if m[f] > 0:
            setattr(mod, a, vec(m[f], True))
    for s in STG:
        rp = {}
        for k, sy in (("rin", "cost_r_in_psi_expr"), ("r", "con_r_in_phi")):
            n = E[k + s]
            if n > 0:
                rp[k] = S.sym("r", n)
                setattr(mod, sy + s, rp[k])
                if k == "r":
                    setattr(mod, "con_r_expr" + s, vec(n, s != "_e" or "r_e" in d["edep"]))
        for k in ("y", "ext", "h"):
            if E[k + s] > 0:
                setattr(mod, attr(k + s), vec(E[k + s], s != "_e" or k + s in d["edep"]))
        if E["psi" + s] > 0:
            setattr(mod, attr("psi" + s), ca.vertcat(*[(k + 1) * ca.sumsqr(rp["rin"]) if "rin" in rp else x[0] for k in range(E["psi" + s])]))
        if E["phi" + s] > 0:
            setattr(mod, attr("phi" + s), ca.vertcat(*[(k + 1) * ca.sumsqr(rp["r"]) if "r" in rp else x[0] for k in range(E["phi" + s])]))
        n = d["chess"][STG.index(s)]
        if n[0] > 0:
            setattr(mod, ATTR["chess"] + s, S.eye(n[0]) if m["sym"] == "SX" else ca.MX.eye(n[0]))
    ocp.parameter_values = np.arange(d["pv"]) + 1.
    ocp.p_global_values = np.arange(d["pgv"]) + 1.
    for s in STG:
        if d["ct"][s] != "None":
            setattr(ocp.cost, "cost_type" + s, d["ct"][s])
    for f in COST:
        if A[f] is not None and (A[f].size or A[f].ndim > 1 and A[f].shape != (0, 0) or f.endswith("_0")):
            setattr(ocp.cost, f, A[f])
    byJ = {}
    for k, J in d["J"]:
        byJ["idx" + k[1:]] = (k, J)
    if d["x0"] >= 0:
        ocp.constraints.x0 = A["lbx_0"]
    for f in CONS:
        if d["x0"] >= 0 and f in ("lbx_0", "ubx_0", "idxbx_0", "idxbxe_0"):
            continue
        if f in byJ:
            setattr(ocp.constraints, byJ[f][0], byJ[f][1])
        elif A[f].size or A[f].ndim > 1 and A[f].shape != (0, 0):
            setattr(ocp.constraints, f, A[f])
    so = ocp.solver_options
    so.N_horizon = o["N"]
    if o["dims_N"] >= 0:
        ocp.dims.N = o["dims_N"]
    so.tf = float(o["tf"])
    if o["ts"]:
        so.time_steps = np.array(o["ts"], dtype=float)
    if o["nodes"]:
        so.shooting_nodes = np.array(o["nodes"], dtype=float)
    if o["scaling"]:
        so.cost_scaling = np.array(o["scaling"], dtype=float)
    for f in ("integrator_type", "nlp_solver_type", "qp_solver", "hessian_approx", "globalization", "as_rti_level", "cost_discretization"):
        setattr(so, f, o[f])
    so.exact_hess_cost = bool(o["exact_hess_cost"])
    so.fixed_hess = o["fixed_hess"]
    if o["cond_N"] >= 0:
        so.qp_solver_cond_N = o["cond_N"]
    if o["block"]:
        so.qp_solver_cond_block_size = o["block"]
    so.with_anderson_acceleration = bool(o["anderson"])
    so.nlp_solver_warm_start_first_qp_from_nlp = bool(o["warm_nlp"])
    tgt = getattr(ocp, o["sens_via"])
    if o["sens_sol"]:
        tgt.with_solution_sens_wrt_params = True
    if o["sens_val"]:
        tgt.with_value_sens_wrt_params = True
    so.sim_method_num_steps = o["nsteps"] if not o["nsteps_arr"] else o["nsteps"] * np.ones(o["nsteps_arr"], dtype=int)
    so.sim_method_num_stages = o["nstages"]
    if o["tau_min"]:
        so.tau_min = 1e-3
    if o["qpscaling"]:
        so.qpscaling_scale_objective = "OBJECTIVE_GERSHGORIN"
    if o["adaptive_tol"]:
        so.nlp_qp_tol_strategy = "ADAPTIVE_CURRENT_RES_JOINT"
    return ocp


def num(v):
    v = float(v)
    if abs(v) >= INF:
        return 10**9 if v > 0 else -10**9
    return NONINT if v != int(v) else int(v)


def arr(v):
    if v is None:
        return {"s": [-1], "d": []}
    v = np.asarray(v)
    return {"s": [int(k) for k in v.shape], "d": [num(x) for x in v.reshape(-1)]}


def mat(J):
    return [[num(x) for x in r] for r in J]


def dump(ocp):
    so, mod = ocp.solver_options, ocp.model
    S = {"dims": {k: getattr(ocp.dims, k) for k in DIMS}, "A": {f: arr(getattr(ocp.constraints if f in CONS else ocp.cost, f)) for f in CONS + COST}}
    S["dims"] = {k: -1 if v is None else int(v) for k, v in S["dims"].items()}
    S["E"] = {}
    for e in EXPR:
        v = getattr(mod, attr(e))
        S["E"][e] = -1 if v is None or isinstance(v, list) or v.is_empty() else int(np.prod(v.shape))
    S["chess"] = []
    for s in STG:
        v = getattr(mod, ATTR["chess"] + s)
        S["chess"].append([-1, -1] if v is None or isinstance(v, list) or v.is_empty() else [int(k) for k in v.shape])
    S["ct"] = {s: str(getattr(ocp.cost, "cost_type" + s)) for s in STG}
    S["con"] = {s: getattr(ocp.constraints, "constr_type" + s) for s in STG}
    S["len"] = {k: int(np.prod(getattr(mod, k).shape)) for k in ("x", "xdot", "u", "z", "p", "p_global", "pi")}
    S["ts"] = [num(v) for v in so.time_steps]
    S["nodes"] = [num(v) for v in so.shooting_nodes]
    S["scaling"] = [num(v) for v in so.cost_scaling]
    S["cond_N"] = so.qp_solver_cond_N
    S["nsteps"] = [num(v) for v in np.atleast_1d(so.sim_method_num_steps)]
    S["nstages"] = [num(v) for v in np.atleast_1d(so.sim_method_num_stages)]
    S["named"] = ocp.name is not None
    S["hess"] = bool(ocp.code_gen_options.generate_hess)
    return S


def rec(d):
    """the description as TLC reads it"""
    r = {k: d[k] for k in ("m", "o", "E", "ct", "x0", "chess", "pv", "pgv", "edep")}
    r["A"] = {f: arr(d["A"][f]) for f in CONS + COST}
    r["J"] = {"idx" + k[1:]: mat(J) for k, J in d["J"]}
    r["J"]["none"] = []
    return r


def run(job):
    import acados_template.acados_ocp as mod
    warnings.simplefilter("ignore")
    rng = random.Random(job["seed"])
    out = []
    with common.quiet():
        for k, d in enumerate(descriptions(rng, job)):
            ev = []
            ocp = None
            why = ""
            try:
                ocp = build(d)
                ocp.make_consistent(verbose=rng.random() < .5)
                ok = True
            except Exception as e:
                ok, why = False, "%s: %s" % (type(e).__name__, str(e)[:150])
            ev.append({"op": "make", "d": rec(d), "ok": ok, "why": why, "after": dump(ocp) if ok else {}})
            if ok:
                try:
                    ocp.make_consistent(verbose=False)
                    ok2 = True
                except Exception as e:
                    ok2, why = False, "%s: %s" % (type(e).__name__, str(e)[:150])
                ev.append({"op": "again", "ok": ok2, "why": why, "after": dump(ocp) if ok2 else {}})
            out.append({"tid": "%s-%d" % (job["name"], k), "ev": ev})
    return out


if __name__ == "__main__":
    common.main(run)
