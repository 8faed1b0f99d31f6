"""C24: zoRO uncertainty propagation and tightening of random problems with integer data.

The linearisation points, matrices and payloads are integers, so that covariances are integers and back-offs are square
roots of integers. Where the feedback comes from a Riccati recursion, data is chosen such that the gains are integers
(Fractions are used to find such data; what the gains have to be is said by specs/Zoro.tla).
"""
import ctypes
import os
import random
from fractions import Fraction as Fr

import casadi as ca
import numpy as np

from . import common
from .ocpgen import ca_poly, poly, psd, mat

NONINT = -888887
TEMPLATES = [("custom_update_function_zoro_template.in.c", "custom_update_function.c"),
             ("custom_update_function_zoro_template.in.h", "custom_update_function.h")]


def A(v, r=None, c=None):
    a = np.array(v, dtype=float)
    return a.reshape(r, c) if r is not None else a


def subset(rng, n, pr=.6):
    return [i for i in range(n) if rng.random() < pr]


def dominant(rng, n):
    """diagonally dominant: stays positive semidefinite when only the diagonal is replaced, see payload()"""
    M = [[0] * n for _ in range(n)]
    for i in range(n):
        for j in range(i):
            M[i][j] = M[j][i] = rng.randint(-1, 1)
    for i in range(n):
        M[i][i] = sum(abs(v) for v in M[i]) + rng.randint(0, 2)
    return M


def gen(rng):
    R = rng.randint
    fb = rng.choice(["CONSTANT_FEEDBACK"] * 3 + ["RICCATI_CONSTANT_COST", "RICCATI_BARRIER_1", "RICCATI_BARRIER_2"])
    ric, bar = fb != "CONSTANT_FEEDBACK", "BARRIER" in fb
    d = {"fb": fb, "N": rng.choice([1, 2, 3, 4]) if not ric else rng.choice([2, 2, 3]), "gamma": rng.choice([1, 1, 2, 3])}
    nx, nu, np_ = R(1, 3), R(1, 2) if not ric else rng.choice([1, 1, 2]), R(0, 2)
    unc = rng.choice(["NONE", "NONE", "NOISE", "CONSTANT"])
    if unc != "NONE":
        np_ = max(np_, 1)
    d.update(nx=nx, nu=nu, np=np_, unc=unc)
    nv = nx + nu + np_
    X, U, P = list(range(nx)), list(range(nx, nx + nu)), list(range(nx + nu, nv))
    # the sensitivity with respect to parameters exists for integrators only: explicit Euler with step one
    d["dyn"] = "ERK" if unc != "NONE" or rng.random() < .2 else "DISCRETE"
    d["f"] = [poly(rng, nv, X + U + P, 2, 2, 1) for _ in range(nx)]
    bx = sorted(rng.sample(X, R(0, nx)))
    bu = sorted(rng.sample(range(nu), R(0, nu)))
    bxe = sorted(rng.sample(X, R(0, nx)))
    for b in (bx, bu, bxe):
        if rng.random() < .3:
            rng.shuffle(b)
    ng, nge, nh, nhe = (rng.choice([0, 0, 1, 2, 3]) for _ in range(4))
    d["idx"] = {"bx": bx, "bu": bu, "bxe": bxe}
    d["C"], d["D"], d["Ce"] = mat(rng, ng, nx, -1, 1), mat(rng, ng, nu, -1, 1), mat(rng, nge, nx, -1, 1)
    d["h"] = [poly(rng, nv, X + U + P, 2, 2, 1) for _ in range(nh)]
    d["he"] = [poly(rng, nv, X + P, 2, 2, 1) for _ in range(nhe)]
    n = {"bx": len(bx), "bu": len(bu), "g": ng, "h": nh, "bxe": len(bxe), "ge": nge, "he": nhe}
    d["n"] = n
    nw = R(1, 3)
    d["nw"] = nw
    d["K"] = mat(rng, nu, nx, -1, 1)
    d["G"] = mat(rng, nx, nw, -1, 1)
    d["W"] = dominant(rng, nw)
    d["P0"] = dominant(rng, nx)
    d["Sig"] = dominant(rng, np_) if unc != "NONE" else []
    p0 = rng.choice(["P0", "P0", "P0_diag", ""])
    d["in"] = {"P0_diag": p0 == "P0_diag", "P0": p0 == "P0", "W_diag": rng.random() < .4, "W_add_diag": rng.random() < .4, "Sigma_p_diag": False, "Sigma_p": False}
    if unc != "NONE":
        s = rng.choice(["", "Sigma_p", "Sigma_p_diag"])
        if s:
            d["in"][s] = True
    d["outP"] = rng.random() < .5
    d["outT"] = rng.random() < .2
    if not any(d["in"].values()) and not d["outP"]:
        d["outT"] = rng.random() < .5
    d["t"] = {}
    for s in ("l", "u"):
        for k in n:
            d["t"][s + k] = subset(rng, n[k])
    # back-offs of the first linearisation; bounds (hundredths)
    d["xs"] = [[R(-2, 2) for _ in X] for _ in range(d["N"] + 1)]
    d["us"] = [[R(-2, 2) for _ in U] for _ in range(d["N"])]
    d["p"] = [R(-2, 2) for _ in P]
    if ric:
        for k in range(2, d["N"]):          # the same linearisation at all intermediate nodes
            d["xs"][k], d["us"][k] = d["xs"][1], d["us"][1]
    b = {}
    for s in ("l", "u"):
        for k in n:
            b[s + k] = [(-1 if s == "l" else 1) * 100 * R(3, 9) for _ in range(n[k])]
    d["w"] = {}
    if bar:
        vals = values(d, d["xs"][1], d["us"][1], d["p"], False)
        vals.update(values(d, d["xs"][-1], [0] * nu, d["p"], True))
        for s in ("l", "u"):
            for k in n:
                w = [rng.choice([50, 100] if fb == "RICCATI_BARRIER_1" else [50, 100, 200]) for _ in range(n[k])]     # hundredths of h
                b[s + k] = [100 * v - (h - 1) if s == "l" else 100 * v + (h - 1) for v, h in zip(vals[k], w)]
                d["w"][s + k] = [10000 // (h * h) if fb == "RICCATI_BARRIER_1" else 5000 // h for h in w]
    d["b"] = b
    if ric and not riccati(rng, d):
        return None
    if not small(d, d["xs"], d["us"], d["p"], d.pop("Ks") if ric else [d["K"]] * d["N"]):
        return None
    return d


def ev(p, v):
    r = 0
    for c, es in p:
        t = c
        for x, e in zip(v, es):
            t *= x**e
        r += t
    return r


def df(p, k):
    return [[c * e[k], [q - (i == k) for i, q in enumerate(e)]] for c, e in p if e[k]]


def grad(p, v, ks):
    return [ev(df(p, k), v) for k in ks]


def values(d, x, u, p, term):
    v = x + u + p
    if term:
        return {"bxe": [x[i] for i in d["idx"]["bxe"]], "ge": [sum(a * c for a, c in zip(r, x)) for r in d["Ce"]], "he": [ev(h, v) for h in d["he"]]}
    return {"bx": [x[i] for i in d["idx"]["bx"]], "bu": [u[i] for i in d["idx"]["bu"]], "h": [ev(h, v) for h in d["h"]],
            "g": [sum(a * c for a, c in zip(r, x)) + sum(a * c for a, c in zip(q, u)) for r, q in zip(d["C"], d["D"])]}


def grads(d, x, u, p, term):
    """rows over (x, u)"""
    nx, nu = d["nx"], d["nu"]
    v, XU = x + u + p, range(nx + nu)
    one = lambda i: [int(i == j) for j in XU]
    if term:
        return {"bxe": [one(i) for i in d["idx"]["bxe"]], "ge": [r + [0] * nu for r in d["Ce"]], "he": [grad(h, v, XU) for h in d["he"]]}
    return {"bx": [one(i) for i in d["idx"]["bx"]], "bu": [one(nx + i) for i in d["idx"]["bu"]], "h": [grad(h, v, XU) for h in d["h"]],
            "g": [r + q for r, q in zip(d["C"], d["D"])]}


def riccati(rng, d):
    """chooses riccati_* such that all gains are integers"""
    nx, nu, N = d["nx"], d["nu"], d["N"]
    euler = d["dyn"] == "ERK"
    v = d["xs"][1] + d["us"][1] + d["p"]
    J = np.array([grad(f, v, range(nx + nu)) for f in d["f"]], dtype=object).reshape(nx, nx + nu)
    Am, B = J[:, :nx] + (np.eye(nx, dtype=int).astype(object) if euler else 0), J[:, nx:]

    def barrier(term):
        M = np.zeros((nx + nu, nx + nu), dtype=object)
        if not d["w"]:
            return M
        g = grads(d, d["xs"][-1], [0] * nu, d["p"], True) if term else grads(d, d["xs"][1], d["us"][1], d["p"], False)
        for s in ("l", "u"):
            for k in g:
                for i in d["t"][s + k]:
                    r = np.array(g[k][i], dtype=object)
                    M = M + d["w"][s + k][i] * np.outer(r, r)
        return M
    b, be = barrier(False), barrier(True)
    for _ in range(200):
        Q, Qe = np.array(psd(rng, nx, False), dtype=object), np.array(psd(rng, nx, False), dtype=object)
        S = np.array(mat(rng, nu, nx, -1, 1), dtype=object).reshape(nu, nx)
        P = Qe + be[:nx, :nx]
        M = np.array([[rng.choice([1, 1, 2])]] if nu == 1 else rng.choice([[[1, 0], [0, 1]], [[2, 1], [1, 1]], [[1, -1], [-1, 2]]]), dtype=object)
        Rm = M - B.T @ P @ B - b[nx:, nx:]
        ok, gains = True, []
        for k in range(N - 1, 0, -1):
            M = Rm + b[nx:, nx:] + B.T @ P @ B
            rhs = S + b[nx:, :nx] + B.T @ P @ Am
            det = M[0, 0] if nu == 1 else M[0, 0] * M[1, 1] - M[0, 1] * M[1, 0]
            if M[0, 0] <= 0 or det <= 0:
                ok = False
                break
            adj = np.array([[1]], dtype=object) if nu == 1 else np.array([[M[1, 1], -M[0, 1]], [-M[1, 0], M[0, 0]]], dtype=object)
            num = adj @ rhs
            if any(int(e) % int(det) for e in num.flat):
                ok = False
                break
            K = num // det
            gains.append(K)
            P = Q + b[:nx, :nx] + Am.T @ P @ Am - K.T @ M @ K
            if any(abs(int(e)) > 30000 for e in P.flat) or any(abs(int(e)) > 3000 for e in K.flat):
                ok = False
                break
        if ok:
            d["Rc"] = {"Q": Q.tolist(), "Qe": Qe.tolist(), "S": S.tolist(), "R": Rm.tolist()}
            d["Ks"] = [np.zeros((nu, nx))] + [A(K.tolist(), nu, nx) for K in reversed(gains)]
            return True
    return False


def build(d, name, root):
    from acados_template import AcadosOcp, ZoroDescription
    o = AcadosOcp()
    o.model.name = name
    nx, nu, N = d["nx"], d["nu"], d["N"]
    x, u, p = ca.SX.sym("x", nx), ca.SX.sym("u", nu), ca.SX.sym("p", d["np"])
    v = ca.vertcat(x, u, p)
    o.model.x, o.model.u, o.model.p = x, u, p
    f = ca.vertcat(*[ca_poly(q, v) for q in d["f"]])
    so = o.solver_options
    if d["dyn"] == "DISCRETE":
        o.model.disc_dyn_expr = f
        so.integrator_type = "DISCRETE"
    else:
        o.model.f_expl_expr = f
        xd = ca.SX.sym("xd", nx)
        o.model.xdot, o.model.f_impl_expr = xd, xd - f
        so.integrator_type = "ERK"
        so.sim_method_num_stages, so.sim_method_num_steps = 1, 1
    so.N_horizon, so.tf = N, float(N)
    so.qp_solver = "PARTIAL_CONDENSING_HPIPM"
    so.nlp_solver_type = "SQP_RTI"
    so.hessian_approx = "GAUSS_NEWTON"
    o.cost.cost_type, o.cost.cost_type_e = "LINEAR_LS", "LINEAR_LS"
    o.cost.Vx, o.cost.Vu, o.cost.W, o.cost.yref = A(np.vstack([np.eye(nx), np.zeros((nu, nx))])), A(np.vstack([np.zeros((nx, nu)), np.eye(nu)])), np.eye(nx + nu), np.zeros(nx + nu)
    o.cost.Vx_e, o.cost.W_e, o.cost.yref_e = np.eye(nx), np.eye(nx), np.zeros(nx)
    c, b = o.constraints, {k: A(w) / 100 for k, w in d["b"].items()}
    n, idx = d["n"], d["idx"]
    if n["bx"]:
        c.idxbx, c.lbx, c.ubx = np.array(idx["bx"]), b["lbx"], b["ubx"]
    if n["bu"]:
        c.idxbu, c.lbu, c.ubu = np.array(idx["bu"]), b["lbu"], b["ubu"]
    if n["bxe"]:
        c.idxbx_e, c.lbx_e, c.ubx_e = np.array(idx["bxe"]), b["lbxe"], b["ubxe"]
    if n["g"]:
        c.C, c.D, c.lg, c.ug = A(d["C"], n["g"], nx), A(d["D"], n["g"], nu), b["lg"], b["ug"]
    if n["ge"]:
        c.C_e, c.lg_e, c.ug_e = A(d["Ce"], n["ge"], nx), b["lge"], b["uge"]
    if n["h"]:
        o.model.con_h_expr = ca.vertcat(*[ca_poly(q, v) for q in d["h"]])
        c.lh, c.uh = b["lh"], b["uh"]
    if n["he"]:
        v0 = ca.vertcat(x, ca.SX.zeros(nu, 1), p)
        o.model.con_h_expr_e = ca.vertcat(*[ca_poly(q, v0) for q in d["he"]])
        c.lh_e, c.uh_e = b["lhe"], b["uhe"]
    c.x0 = A(d["xs"][0])
    o.parameter_values = A(d["p"])
    so.custom_update_filename, so.custom_update_header_filename, so.custom_update_copy = "custom_update_function.c", "custom_update_function.h", False
    so.custom_templates = TEMPLATES
    z = ZoroDescription()
    z.backoff_scaling_gamma = float(d["gamma"])
    z.feedback_optimization_mode, z.nonlinear_uncertainty_mode = d["fb"], d["unc"]
    z.fdbk_K_mat, z.unc_jac_G_mat, z.P0_mat, z.W_mat = A(d["K"], nu, nx), A(d["G"], nx, d["nw"]), A(d["P0"]), A(d["W"])
    if d["unc"] != "NONE":
        o.code_gen_options.sens_forw_p = True
        z.Sigma_p_mat = A(d["Sig"])
    if "Rc" in d:
        z.riccati_Q_const, z.riccati_R_const, z.riccati_S_const = A(d["Rc"]["Q"]), A(d["Rc"]["R"]), A(d["Rc"]["S"], nu, nx)
        z.riccati_Q_const_e = A(d["Rc"]["Qe"])
    for s in "lu":
        for k, nm in (("bx", "bx_t"), ("bu", "bu_t"), ("g", "g_t"), ("h", "h_t"), ("bxe", "bx_e_t"), ("ge", "g_e_t"), ("he", "h_e_t")):
            setattr(z, "idx_" + s + nm, list(d["t"][s + k]))
    for k, w in d["in"].items():
        setattr(z, "input_" + k, w)
    z.output_P_matrices, z.output_riccati_t = d["outP"], d["outT"]
    o.zoro_description = z
    return o


def ints(a):
    a = np.asarray(a, dtype=float)
    out = []
    for e in a.flatten(order="F"):
        r = round(e) if np.isfinite(e) and abs(e) < 2e9 else None
        out.append(int(r) if r is not None and abs(e - r) <= 1e-6 * max(1, abs(r)) else NONINT)
    return out


def colmaj(a, r, c):
    """rows"""
    v = ints(a)
    return [[v[i + j * r] for j in range(c)] for i in range(r)]


def bounds(s, d):
    """per stage and field: signed squares of the distance to the bound of the description"""
    N, out = d["N"], []
    for k in range(N + 1):
        e = {}
        for sd in "lu":
            for kind in (("bxe", "ge", "he") if k == N else ("bu", "bx", "g", "h") if k else ("bu", "g")):
                f = sd + kind.replace("e", "")
                v = np.asarray(s.constraints_get(k, f)).flatten()
                ref = A(d["b"][sd + kind]) / 100
                q = []
                for a, r in zip(v, ref):
                    t = a - r
                    sq = t * t
                    i = round(sq) if sq < 2e9 else 0
                    q.append(int(np.sign(t) * i) if sq < 2e9 and abs(sq - i) < 1e-6 * max(1, i) else NONINT)
                if len(v) != len(ref):
                    q = [NONINT]
                e[sd + kind] = q
        out.append(e)
    return out


def payload(rng, d):
    nx, nw, np_, N = d["nx"], d["nw"], d["np"], d["N"]
    g = {"P0d": [], "P0": [], "Wd": [], "Wa": [], "Sd": [], "S": []}
    neg = lambda n: [rng.choice([-1, n - 1, n, n + 1, n + 2]) for _ in range(n)]
    if d["in"]["P0_diag"]:
        g["P0d"] = neg(nx)
    if d["in"]["P0"]:
        g["P0"] = psd(rng, nx, rng.random() < .5)
    if d["in"]["W_diag"]:
        g["Wd"] = neg(nw)
    if d["in"]["W_add_diag"]:
        g["Wa"] = [[rng.randint(0, 2) for _ in range(nw)] for _ in range(N)]
    if d["in"]["Sigma_p_diag"]:
        g["Sd"] = neg(np_)
    if d["in"]["Sigma_p"]:
        g["S"] = psd(rng, np_, True)
    return g


def small(d, xs, us, p, Ks):
    """whether all numbers stay within 32 bits, by absolute values"""
    nx, nu, N = d["nx"], d["nu"], d["N"]
    ab = lambda M, r, c: np.abs(A(M, r, c))
    big = lambda s: 4.0 * np.ones(s)
    P = big((nx, nx)) + 2
    Pi = np.zeros((nx, d["np"]))
    G = ab(d["G"], nx, d["nw"])
    W = G @ (big((d["nw"], d["nw"])) + 4) @ G.T
    S = big((d["np"], d["np"])) + 2
    ok = True
    for k in range(N + 1):
        K = ab(Ks[min(k, N - 1)], nu, nx)
        g = grads(d, xs[k], us[k] if k < N else [0] * nu, p, k == N)
        for q in g:
            for r in g[q]:
                r = np.abs(A(r))
                a = r[:nx] + r[nx:] @ K
                ok = ok and d["gamma"]**2 * (a @ P @ a) < 1e9
        if k == N:
            break
        v = xs[k] + us[k] + p
        J = np.abs(A([grad(f, v, range(len(v))) for f in d["f"]], nx, len(v)))
        M = J[:, :nx] + np.eye(nx) + J[:, nx:nx + nu] @ K
        Sp = J[:, nx + nu:]
        Pi = M @ Pi + Sp
        P = M @ P @ M.T + W + Sp @ S @ Sp.T + Pi @ S @ Pi.T
    return ok and P.max() < 1e8


def flat(g):
    out = list(g["P0d"])
    for M in (g["P0"],):
        out += [M[i][j] for j in range(len(M)) for i in range(len(M))]
    out += g["Wd"]
    for w in g["Wa"]:
        out += w
    out += g["Sd"]
    out += [g["S"][i][j] for j in range(len(g["S"])) for i in range(len(g["S"]))]
    return [float(v) for v in out]


def history(rng, tid, times):
    d = None
    while d is None:
        d = gen(rng)
    name = "z" + tid
    o = build(d, name, os.getcwd())
    d = {k: v for k, v in d.items()}
    t = {"tid": tid, "init": d, "ev": []}
    try:
        s = common.make_solver(o, name)
    except Exception as e:
        t["ev"].append({"op": "create", "err": "%s: %s" % (type(e).__name__, str(e)[:400])})
        return t
    t["ev"].append({"op": "create", "err": "", "data_size": o.zoro_description.data_size, "bounds": bounds(s, d)})
    nx, nu, N = d["nx"], d["nu"], d["N"]
    ric = d["fb"] != "CONSTANT_FEEDBACK"
    xs, us, p = d["xs"], d["us"], d["p"]
    lin = False
    Kf = getattr(s.shared_lib, o.name + "_acados_get_zoRO_K_matrices")
    Kf.argtypes = [ctypes.c_void_p, ctypes.POINTER(ctypes.c_double), ctypes.c_int]
    n_upd = 0
    bar = "BARRIER" in d["fb"]
    for i in range(times):
        if not lin or (not ric and rng.random() < .5):
            if lin:
                for sz in (2, 2, 1, 0):
                    xs = [[rng.randint(-sz, sz) for _ in r] for r in xs]
                    us = [[rng.randint(-sz, sz) for _ in r] for r in us]
                    p = [rng.randint(-sz, sz) for _ in p]
                    if small(d, xs, us, p, [d["K"]] * N):
                        break
                else:
                    xs, us, p = d["xs"], d["us"], d["p"]
            # the barriers use the constraint values of the QP set up last, so one with the same point is needed before
            for phase in (0, 1) if bar else (1,):
                for k in range(N + 1):
                    s.set(k, "x", A(xs[k]))
                    if k < N:
                        s.set(k, "u", A(us[k]))
                    if p:
                        s.set(k, "p", A(p))
                s.options_set("rti_phase", phase)
                with common.quiet():
                    st = s.solve()
            t["ev"].append({"op": "linearize", "status": int(st), "xs": xs, "us": us, "p": p})
            lin = True
        r = rng.random()
        e = {"op": "update", "how": "data", "g": payload(rng, d), "P": [], "dP": [], "K": []}
        data = flat(e["g"])
        n_in = len(data)
        tail = (nx * nx * (N + 1) if d["outP"] else 0) + (1 if d["outT"] else 0)
        data = np.array(data + [-7.0] * tail)
        if r < .12:
            e["how"], data = "none", np.array([])
        elif r < .2 and len(data):
            e["how"] = "wrong"
            data = np.append(data, [1.0]) if rng.random() < .5 else data[:-1]
            if not len(data):
                e["how"] = "none"
        with common.quiet():
            e["status"] = int(s.custom_update(data))
        e["streams"] = bool(len(data)) and e["how"] == "data"
        if e["how"] == "data" and d["outP"]:
            q = data[n_in:]
            e["dP"] = [colmaj(q[k * nx * nx:(k + 1) * nx * nx], nx, nx) for k in range(N + 1)]
        e["P"] = [np.array(s.get(k, "zoRO_Pk_mats")) for k in range(N + 1)]
        e["P"] = [[[v for v in ints(row)] for row in M] for M in e["P"]]
        buf = (ctypes.c_double * (N * nu * nx))()
        Kf(s.capsule, buf, N * nu * nx)
        kk = np.array(buf)
        e["K"] = [colmaj(kk[k * nu * nx:(k + 1) * nu * nx], nu, nx) for k in range(N)]
        e["bounds"] = bounds(s, d)
        t["ev"].append(e)
        if bar and e["how"] != "wrong":
            break
    return t


def run(job):
    out = []
    for i in range(job["n"]):
        rng = random.Random(job["seed"] * 1000003 + i)
        out.append(history(rng, "%d_%d" % (job["seed"], i), job["times"]))
    return out


if __name__ == "__main__":
    common.main(run)
