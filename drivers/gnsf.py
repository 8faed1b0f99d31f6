"""C20: structure detection of random sparse implicit models, and integrators on the original and the structured form."""
import random

import casadi as ca
import numpy as np

from . import common
from .ocpgen import ca_poly

NONINT = -888887


def nat(v, f=1):
    v = float(v) * f
    return int(round(v)) if np.isfinite(v) and abs(v) < 2e9 and abs(v - round(v)) <= 1e-7 * max(1, abs(v)) else NONINT


def arr(a, r=None, c=None):
    a = np.asarray(a, dtype=float)
    return [nat(v) for v in a.flatten()] if a.ndim < 2 or r is None else [[nat(v) for v in row] for row in a]


def mat(a, r, c):
    a = np.asarray(a, dtype=float)
    a = a.reshape(r, c) if a.size == r * c else np.full((r, c), np.nan)
    return [[nat(v) for v in row] for row in a]


def fixed(a):
    return [int(round(min(max(float(v), -1e3), 1e3) * 1e6)) if np.isfinite(float(v)) else NONINT for v in np.asarray(a, dtype=float).flatten(order="F")]


def gen(rng, wild):
    """rows of F over (x, xdot, z, u, p); wild: any dependence; otherwise integrable: regular in (xdot, z), nonlinearities small"""
    R = rng.randint
    nx, nz, nu, np_ = R(1, 4), rng.choice([0, 0, 1, 1, 2]), rng.choice([0, 1, 1, 2]), rng.choice([0, 0, 1])
    nv = 2 * nx + nz + nu + np_
    X, D, Z, U, P = (list(range(a, a + k)) for a, k in ((0, nx), (nx, nx), (2 * nx, nz), (2 * nx + nz, nu), (2 * nx + nz + nu, np_)))
    t = lambda c, *vs: [c, [sum(1 for v in vs if v == k) for k in range(nv)]]
    linear = rng.random() < .2
    nonlin = rng.sample(X, R(0, nx)) if not linear else []      # states that enter nonlinearly
    nlz = [z for z in Z if rng.random() < .5] if not linear else []
    apart = rng.random() < .2                                   # linear states; algebraic variables from nonlinear equations of their own
    if apart:
        nz, nu = max(nz, 1), max(nu, 1)
        nv = 2 * nx + nz + nu + np_
        X, D, Z, U, P = (list(range(a, a + k)) for a, k in ((0, nx), (nx, nx), (2 * nx, nz), (2 * nx + nz, nu), (2 * nx + nz + nu, np_)))
        rows = [[t(1, D[i]), *{j: t(rng.choice([-2, -1, 1, 2]), j) for j in rng.sample(X + U, R(1, 2))}.values()] for i in range(nx)]
        rows += [[t(3, z), t(1, z, z, z), t(rng.choice([-1, 1, 2]), rng.choice(U))] for z in Z]
        rng.shuffle(rows)
        return {"nx": nx, "nz": nz, "nu": nu, "np": np_, "F": rows}
    rows = []
    for i in range(nx + nz):
        own = (D + Z)[i]
        r = [t(rng.choice([-1, 1, 2]), own)]
        for _ in range(R(0, 3)):
            r.append(t(rng.choice([-2, -1, 1, 2]), rng.choice(X + U)))
        if i < nx:
            if i and rng.random() < .3:
                r.append(t(1, rng.choice(D[:i])))               # triangular in xdot: stays regular
            if Z and rng.random() < .4:
                r.append(t(rng.choice([-1, 1]), rng.choice(Z)))
        elif i > nx and rng.random() < .3:
            r.append(t(1, rng.choice(Z[:i - nx])))
        if rng.random() < .3:
            r.append(t(rng.choice([-2, 1, 3])))
        if (nonlin or nlz) and rng.random() < .6:
            vs = nonlin + nlz
            a = rng.choice(nonlin or X)
            r.append(t(rng.choice([-1, 1]), *rng.choice([(a, a), (a, rng.choice(nonlin or X)), (a, rng.choice(U or X)), (a, rng.choice(P or X)), (rng.choice(vs), a)])))
        if not linear and own in Z and rng.random() < .2:
            r.append(t(1 if r[0][0] > 0 else -1, own, own, own))
        if not linear and own in Z and U and rng.random() < .15:
            r.append(t(1, own, rng.choice(U)))
        if not linear and U and rng.random() < .15:
            r.append(t(1, rng.choice(U), rng.choice(U)))
        if not linear and rng.random() < .12:
            r.append(t(1, own, rng.choice(X), rng.choice(X)))   # x * x * xdot
        if wild and rng.random() < .15:
            r.append(t(rng.choice([-1, 1]), rng.choice(D + Z)))
        if wild and rng.random() < .1:
            r = [q for q in r if not (q[1][own] and sum(q[1]) == 1)] + [t(1, own, rng.choice(X))]   # own derivative only nonlinearly
        out = {}
        for c, e in r:
            out[tuple(e)] = out.get(tuple(e), 0) + c
        if not wild and any(sum(e) > 1 and any(e[k] for k in D + Z) for e in out):
            e = tuple(t(1, own)[1])
            out[e] = 3 * out.get(e, 1)                          # a root far from other roots
        rows.append([[c, list(e)] for e, c in sorted(out.items()) if c] or [t(1, own)])
    rng.shuffle(rows)
    return {"nx": nx, "nz": nz, "nu": nu, "np": np_, "F": rows}


def model(d, name):
    from acados_template import AcadosModel
    m = AcadosModel()
    m.name = name
    g = {k: ca.SX.sym(k, n) if n else [] for k, n in (("x", d["nx"]), ("xdot", d["nx"]), ("z", d["nz"]), ("u", d["nu"]), ("p", d["np"]))}
    for k, v in g.items():
        if not isinstance(v, list):
            setattr(m, k, v)
    v = ca.vertcat(*[g[k] for k in ("x", "xdot", "z", "u", "p") if not isinstance(g[k], list)])
    m.f_impl_expr = ca.vertcat(*[ca_poly(r, v) for r in d["F"]])
    return m, g


def sim_of(d, name, kind, opt):
    from acados_template import AcadosSim
    s = AcadosSim()
    s.model, _ = model(d, name)
    s.solver_options.integrator_type = kind
    s.solver_options.T = opt["T"]
    s.solver_options.num_stages, s.solver_options.num_steps = opt["stages"], opt["steps"]
    s.solver_options.newton_iter = 40
    s.solver_options.sim_method_jac_reuse = 0                   # otherwise convergence is linear, possibly slow
    s.solver_options.newton_tol = 1e-12
    s.solver_options.collocation_type = opt["coll"]
    s.solver_options.sens_forw = s.solver_options.sens_adj = s.solver_options.output_z = True
    s.solver_options.sens_algebraic = bool(d["nz"])
    s.parameter_values = np.zeros(d["np"])
    return s


def detect(d, los=True):
    from acados_template.gnsf import detect_gnsf_structure
    s = sim_of(d, "det", "GNSF", {"T": .1, "stages": 1, "steps": 1, "coll": "GAUSS_LEGENDRE"})
    with common.quiet():
        s.make_consistent()
        detect_gnsf_structure(s.model, s.dims, detect_LOS=los)
    return s.model


def record(d, g):
    nx1, nz1, n = g.dims.nx1, g.dims.nz1, d["nx"] + d["nz"]
    a, b, nx2 = nx1 + nz1, n - nx1 - nz1, d["nx"] - nx1
    return {"nx1": nx1, "nz1": nz1, "ny": g.dims.ny, "nuhat": g.dims.nuhat, "px": [int(i) for i in g.idx_perm_x], "pz": [int(i) for i in g.idx_perm_z],
            "A": mat(g.A, a, nx1), "B": mat(g.B, a, d["nu"]), "C": mat(g.C, a, g.dims.nout), "E": mat(g.E, a, a), "c": arr(g.c),
            "ALO": mat(g.A_LO, b, nx2), "BLO": mat(g.B_LO, b, d["nu"]), "ELO": mat(g.E_LO, b, b), "cLO": [nat(v) for v in np.asarray(g.c_LO, dtype=float).flatten()],
            "Lx": mat(g.L_x, g.dims.ny, nx1), "Lxdot": mat(g.L_xdot, g.dims.ny, nx1), "Lz": mat(g.L_z, g.dims.ny, nz1), "Lu": mat(g.L_u, g.dims.nuhat, d["nu"]),
            "nontrivial": bool(g.nontrivial_f_LO), "linear": bool(g.purely_linear)}


def points(rng, d, m):
    g = m.gnsf_model
    e = lambda k: k if isinstance(k, (ca.SX, ca.MX)) else ca.SX.sym("e", 0)
    v = [e(m.x), e(m.xdot), e(m.z), e(m.u), e(m.p)]
    lin = ca.Function("lin", v, [ca.densify(g.y), ca.densify(g.uhat)])
    phi = ca.Function("phi", [g.y, g.uhat, e(m.p)], [ca.densify(g.phi)])
    flo = ca.Function("flo", [g.x1, g.x1dot, g.z1, e(m.u), e(m.p)], [ca.densify(g.f_LO)])
    px, pz = list(g.idx_perm_x)[:g.dims.nx1], list(g.idx_perm_z)[:g.dims.nz1]
    out = {"op": "points", "pts": [], "y": [], "uhat": [], "phi": [], "flo": []}
    for _ in range(8):
        q = {k: [rng.randint(-3, 3) for _ in range(d[w])] for k, w in (("x", "nx"), ("xdot", "nx"), ("z", "nz"), ("u", "nu"), ("p", "np"))}
        vals = [np.array(q[k], dtype=float) for k in ("x", "xdot", "z", "u", "p")]
        y, uh = (w.full().flatten() for w in lin(*vals))
        out["pts"].append(q)
        out["y"].append(arr(y))
        out["uhat"].append(arr(uh))
        out["phi"].append(arr(phi(y, uh, vals[4]).full().flatten()))
        f = flo(vals[0][px], vals[1][px], vals[2][pz], vals[3], vals[4]).full().flatten()
        out["flo"].append(arr(f))
    return out


def simulate(rng, d, tag):
    from acados_template import AcadosSimSolver
    from acados_template.gnsf import detect_gnsf_structure
    plain = rng.random() < .2
    opt = {"T": rng.choice([.05, .1]), "stages": rng.randint(1, 3), "steps": rng.randint(1, 2), "coll": rng.choice(["GAUSS_LEGENDRE", "GAUSS_RADAU_IIA"])}
    solvers = []
    for kind in ("GNSF", "IRK"):
        s = sim_of(d, "s%s_%s" % (kind, tag), kind, opt)
        s.code_gen_options.code_export_directory = "c_%s_%s" % (kind, tag)
        s.code_gen_options.json_file = "c_%s_%s.json" % (kind, tag)
        with common.quiet():
            if kind == "GNSF" and plain:
                s.make_consistent()
                detect_gnsf_structure(s.model, s.dims, detect_LOS=False)
            solvers.append(AcadosSimSolver(s, verbose=False))
    ev = []
    for _ in range(3):
        x, u, p = (np.array([rng.randint(-3, 3) / 5 for _ in range(d[k])]) for k in ("nx", "nu", "np"))
        seed = np.array([[float(rng.randint(-2, 2))] for _ in range(d["nx"])])
        e = {"op": "sim", "status": [], "tol": 2}
        for s, nm in zip(solvers, ("gnsf", "irk")):
            s.set("x", x)
            if d["nu"]:
                s.set("u", u)
            if d["np"]:
                s.set("p", p)
            s.set("seed_adj", seed)
            with common.quiet():
                e["status"].append(int(s.solve()))
            r = {"x": fixed(s.get("x")), "Sf": fixed(s.get("S_forw")), "Sa": fixed(s.get("S_adj")), "z": [], "Sz": []}
            if d["nz"]:
                r["z"], r["Sz"] = fixed(s.get("z")), fixed(s.get("S_algebraic"))
            e[nm] = r
        # only well-conditioned problems: both methods iterate, from different points
        irk = solvers[1]
        z = irk.get("z").flatten() if d["nz"] else np.zeros(0)
        q, end = algebraic(d, x, u, p, z), algebraic(d, irk.get("x").flatten(), u, p, z)
        if q is None or end is None or np.abs(irk.get("S_forw")).max() > 6:
            continue
        # z belongs to the initial time and is extrapolated from the stages: both integrators differ from one another by the order of that error
        e["zerr"] = e["Szerr"] = 0
        if d["nz"]:
            e["zerr"], e["Szerr"] = (int(min(1e6, 1e6 * np.abs(np.asarray(a) - b).max())) for a, b in zip(q, (z, irk.get("S_algebraic"))))
            if e["zerr"] > 100000:
                continue
        ev.append(e)
    return ev


def algebraic(d, x, u, p, z):
    """z and its derivatives w.r.t. (x, u) at the initial point, solved from the equations with (xdot, z) near the given z"""
    m, g = model(d, "alg")
    e = lambda k: g[k] if not isinstance(g[k], list) else ca.SX.sym("e", 0)
    k = ca.vertcat(e("xdot"), e("z"))
    F = ca.Function("F", [e("x"), e("u"), e("p"), k], [m.f_impl_expr, ca.jacobian(m.f_impl_expr, k), ca.jacobian(m.f_impl_expr, ca.vertcat(e("x"), e("u")))])
    k = np.concatenate([np.zeros(d["nx"]), z])
    for _ in range(60):
        f, J, w = (a.full() for a in F(x, u, p, k))
        if not np.isfinite(J).all() or np.linalg.svd(J)[1].min() < .3:
            return None
        k = k - np.linalg.solve(J, f.flatten())
    if not np.isfinite(k).all() or np.abs(F(x, u, p, k)[0].full()).max() > 1e-9:
        return None
    return k[d["nx"]:], -np.linalg.solve(J, w)[d["nx"]:]


def trace(rng, i, tag, sim):
    d = gen(rng, not sim and rng.random() < .5)
    t = {"tid": "%s_%d" % (tag, i), "init": d, "ev": []}
    e = {"op": "detect", "err": "", "s": {}}
    t["ev"].append(e)
    try:
        m = detect(d, sim or rng.random() < .85)
    except Exception as ex:
        e["err"] = "%s: %s" % (type(ex).__name__, str(ex)[:200])
        return t
    e["s"] = record(d, m.gnsf_model)
    t["ev"].append(points(rng, d, m))
    if sim:
        t["ev"] += simulate(rng, d, t["tid"])
    return t


def run(job):
    rng = random.Random(job["seed"])
    np.random.seed(job["seed"])
    return [trace(rng, i, job["name"], job["sim"]) for i in range(job["n"])]


if __name__ == "__main__":
    common.main(run)
