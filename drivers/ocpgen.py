"""Random optimal control problems with integer data as plain descriptions (JSON), and the AcadosOcp they describe.

A description is what specs/OcpSem.tla gives a meaning to; build() is the only place where it is turned into
acados objects. Polynomials are lists of [coefficient, exponents] over (x, u, z, p, pg).
"""
import random

INFB = 10**9        # an absent bound


def poly(rng, nv, active, deg=2, terms=3, cmax=2, const=True):
    """at least one term; active: the variables that may occur"""
    out = {}
    for _ in range(rng.randint(1, terms)):
        e = [0] * nv
        for _ in range(rng.randint(0 if const else 1, deg)):
            if active:
                e[rng.choice(active)] += 1
        c = rng.choice([c for c in range(-cmax, cmax + 1) if c])
        out[tuple(e)] = out.get(tuple(e), 0) + c
    return [[c, list(e)] for e, c in sorted(out.items()) if c] or [[0, [0] * nv]]


def psd(rng, n, definite=True):
    """L L' (+ I) with small integers, symmetric, not diagonal in general"""
    L = [[rng.randint(-1, 1) if j <= i else 0 for j in range(n)] for i in range(n)]
    M = [[sum(L[i][k] * L[j][k] for k in range(n)) for j in range(n)] for i in range(n)]
    if definite:
        for i in range(n):
            M[i][i] += rng.randint(1, 2)
    return M


def vec(rng, n, lo=-3, hi=3):
    return [rng.randint(lo, hi) for _ in range(n)]


def mat(rng, n, m, lo=-2, hi=2):
    return [vec(rng, m, lo, hi) for _ in range(n)]


def gen(seed, **o):
    """options: see the defaults"""
    opt = dict(N=(1, 3), nx=(1, 3), nu=(1, 2), nz=(0, 0), np=(0, 2), npg=(0, 2), dyn=("DISCRETE", "ERK"), convex=False, affine=False,
               costs=("LINEAR_LS", "NONLINEAR_LS", "EXTERNAL", "CONVEX_OVER_NONLINEAR"), one_cost=False, phi=True, g=True, h=True, bx=True, bu=True,
               soft=("h",), infb=False, x0=(True, False), scaling=True, sym=("SX", "MX"), uniform=False, deg=2, diagW=False, stages=(1, 2, 3, 4),
               steps=(1, 2), one_sided=False)
    opt.update(o)
    rng = random.Random(seed)

    def R(k):
        return rng.randint(*opt[k])
    d = {"N": R("N"), "nx": R("nx"), "nu": R("nu"), "nz": R("nz"), "np": R("np"), "npg": R("npg"), "sym": rng.choice(opt["sym"])}
    nx, nu, nz, np_, npg, N = d["nx"], d["nu"], d["nz"], d["np"], d["npg"], d["N"]
    nv = nx + nu + nz + np_ + npg
    X = list(range(nx))
    U = list(range(nx, nx + nu))
    Z = list(range(nx + nu, nx + nu + nz))
    PP = list(range(nx + nu + nz, nv))
    deg = 1 if opt["affine"] else opt["deg"]
    kind = rng.choice(opt["dyn"])
    dyn = {"type": kind, "f": [], "stages": 1, "steps": 1}
    if kind == "ERK":
        dyn["stages"], dyn["steps"] = rng.choice(opt["stages"]), rng.choice(opt["steps"])
        unit = {1: 1, 2: 2, 3: 6, 4: 6}[dyn["stages"]] * dyn["steps"]
        d["dt"] = [unit * (rng.randint(1, 2) if unit <= 2 else 1) for _ in range(N)]
        # nilpotent in x (so that repeated stages stay small): f_i depends on x_j with j > i, and on u, p
        for i in range(nx):
            dyn["f"].append(poly(rng, nv, X[i + 1:] + U + PP if unit > 2 else X + U + PP, 1 if unit > 2 and rng.random() < .6 else deg, 2, 1))
    else:
        d["dt"] = [rng.randint(1, 3) for _ in range(N)]
        for i in range(nx):
            dyn["f"].append(poly(rng, nv, X + U + PP, deg, 3, 2))
    d["dyn"] = dyn

    def cost(k, typ):
        V = X + PP if k == "e" else X + U + Z + PP
        c = {"type": typ, "yref": [], "W": [], "Vx": [], "Vu": [], "Vz": [], "y": [], "psi": [], "e": []}
        ny = rng.randint(1, 3)
        if typ == "LINEAR_LS":
            c["Vx"] = mat(rng, ny, nx)
            if k != "e":
                c["Vu"] = mat(rng, ny, nu)
                c["Vz"] = mat(rng, ny, nz) if nz else []
        if typ in ("NONLINEAR_LS", "CONVEX_OVER_NONLINEAR"):
            c["y"] = [poly(rng, nv, V, deg, 2, 2) for _ in range(ny)]
        if typ in ("LINEAR_LS", "NONLINEAR_LS"):
            c["W"] = [[(rng.randint(1, 3)**2 if i == j else 0) for j in range(ny)] for i in range(ny)] if opt["diagW"] else psd(rng, ny)
        if typ in ("LINEAR_LS", "NONLINEAR_LS", "CONVEX_OVER_NONLINEAR"):
            c["yref"] = vec(rng, ny)
        if typ == "CONVEX_OVER_NONLINEAR":
            M = psd(rng, ny)
            terms = {}
            for i in range(ny):
                for j in range(ny):
                    e = [0] * ny
                    e[i] += 1
                    e[j] += 1
                    terms[tuple(e)] = terms.get(tuple(e), 0) + M[i][j]
                e = [0] * ny
                e[i] = 1
                terms[tuple(e)] = terms.get(tuple(e), 0) + rng.randint(-1, 1)
            if not opt["affine"] and rng.random() < .3:
                e = [0] * ny
                e[rng.randrange(ny)] = 4
                terms[tuple(e)] = 1
            c["psi"] = [[v, list(e)] for e, v in sorted(terms.items()) if v]
        if typ == "EXTERNAL":
            if opt["convex"]:
                # sum of squares of affine terms
                terms = {}
                for _ in range(len(V) + 1):
                    a = [(rng.choice(V), rng.randint(-1, 1)) for _ in range(2)] + [(None, rng.randint(-2, 2))]
                    for (i, ci) in a:
                        for (j, cj) in a:
                            e = [0] * nv
                            if i is not None:
                                e[i] += 1
                            if j is not None:
                                e[j] += 1
                            terms[tuple(e)] = terms.get(tuple(e), 0) + ci * cj
                for i in (X if k == "e" else X + U):
                    e = [0] * nv
                    e[i] = 2
                    terms[tuple(e)] = terms.get(tuple(e), 0) + 1
                c["e"] = [[v, list(e)] for e, v in sorted(terms.items()) if v]
            else:
                c["e"] = poly(rng, nv, V, 3, 4, 3)
        return c
    t1 = rng.choice(opt["costs"])
    ts = {k: (t1 if opt["one_cost"] else rng.choice(opt["costs"])) for k in "0pe"}
    d["cost"] = {k: cost(k, ts[k]) for k in "0pe"}
    if opt["uniform"]:
        d["cost"]["0"] = d["cost"]["p"]

    def bounds(n):
        lo = [rng.randint(-5, 0) for _ in range(n)]
        up = [v + rng.randint(0, 8) for v in lo]
        if opt["infb"]:
            for i in range(n):
                r = rng.random()
                if r < .2:
                    lo[i] = -INFB
                elif r < .4:
                    up[i] = INFB
        return lo, up

    def subset(n, p=.6):
        s = [i for i in range(n) if rng.random() < p]
        rng.shuffle(s)
        return s
    con = {}
    for k in ("p", "0", "e"):
        V = X + PP if k == "e" else X + U + PP
        c = {"idxbx": [], "idxbu": [], "C": [], "D": [], "h": [], "phi": [], "r": [],
             "idxsbx": [], "idxsbu": [], "idxsg": [], "idxsh": [], "idxsphi": []}
        if opt["bx"]:
            c["idxbx"] = subset(nx)
        if k == "0":
            c["idxbx"] = list(range(nx)) if rng.choice(opt["x0"]) else subset(nx)
        if k == "p" and opt["bu"]:
            c["idxbu"] = subset(nu)
        if k != "0" and opt["g"]:
            ng = rng.choice([0, 0, 1, 2])
            c["C"], c["D"] = mat(rng, ng, nx), (mat(rng, ng, nu) if k == "p" else [])
        if opt["h"]:
            c["h"] = [poly(rng, nv, V, deg, 3, 2) for _ in range(rng.choice([0, 1, 2, 3]))]
        if opt["phi"] and rng.random() < .4:
            nr = rng.randint(1, 2)
            c["r"] = [poly(rng, nv, V, deg, 2, 2) for _ in range(nr)]
            c["phi"] = [poly(rng, nr, list(range(nr)), 2, 3, 2) for _ in range(rng.randint(1, 2))]
        for b, n in (("bx", len(c["idxbx"])), ("bu", len(c["idxbu"])), ("g", len(c["C"])), ("h", len(c["h"])), ("phi", len(c["phi"]))):
            c["l" + b], c["u" + b] = bounds(n)
            if b in opt["soft"] and not (k == "0" and b == "bx"):
                c["ids" if 0 else "idxs" + b] = subset(n, .5)
        con[k] = c
    if len(con["0"]["idxbx"]) == nx and opt["x0"] != (False,) and rng.random() < .8:
        con["0"]["idxbx"] = list(range(nx))
        con["0"]["lbx"] = con["0"]["ubx"] = vec(rng, nx)
        d["x0"] = True
    else:
        d["x0"] = False
    for f in ("idxbu", "lbu", "ubu", "C", "D", "lg", "ug", "idxsbu", "idxsg"):
        con["0"][f] = con["p"][f]
    if opt["uniform"]:
        for f in ("h", "lh", "uh", "phi", "r", "lphi", "uphi", "idxsh", "idxsphi"):
            con["0"][f] = con["p"][f]
    d["con"] = con
    d["slack"] = {}
    for k in "0pe":
        c = con[k]
        ns = sum(len(c["idxs" + b]) for b in ("bu", "bx", "g", "h", "phi")) - (len(c["idxsbu"]) if k == "e" else 0)
        d["slack"][k] = {"zl": vec(rng, ns, 1, 5), "zu": vec(rng, ns, 1, 5), "Zl": vec(rng, ns, 1, 4), "Zu": vec(rng, ns, 1, 4)}
    d["p"] = vec(rng, np_)
    d["pg"] = vec(rng, npg)
    d["explicit_scaling"] = opt["scaling"] is True and rng.random() < .6
    if opt["scaling"] == "time":
        d["scaling"] = d["dt"] + [1]
    else:
        d["scaling"] = [rng.randint(1, 3) for _ in range(N + 1)] if d["explicit_scaling"] else d["dt"] + [1]
    return d


# ------------------------------------------------------------------------------------------------
def big(v):
    import numpy as np
    from acados_template import ACADOS_INFTY
    a = np.array(v, dtype=float)
    a[a >= INFB] = ACADOS_INFTY
    a[a <= -INFB] = -ACADOS_INFTY
    return a


def ca_poly(p, v):
    import casadi as ca
    e = 0
    for c, es in p:
        t = float(c)
        for k, n in enumerate(es):
            for _ in range(n):
                t = t * v[k]
        e = e + t
    # keep the symbolic type also for constants
    return e + 0 * v[0] if isinstance(e, (int, float)) and v.numel() else (ca.SX(e) if isinstance(e, (int, float)) else e)


def ca_polys(ps, v):
    import casadi as ca
    return ca.vertcat(*[ca_poly(p, v) for p in ps])


def symbols(d, pg=None):
    import casadi as ca
    sym = ca.SX.sym if d["sym"] == "SX" else ca.MX.sym
    return {"x": sym("x", d["nx"]), "u": sym("u", d["nu"]), "z": sym("z", d["nz"]), "p": sym("p", d["np"]), "pg": sym("p_global", d["npg"]) if pg is None else pg, "sym": sym}


def build(d, name="ocp", pg=None, **opts):
    """the AcadosOcp of a description"""
    import numpy as np
    import casadi as ca
    from acados_template import AcadosOcp
    o = AcadosOcp()
    m = o.model
    m.name = name
    s = symbols(d, pg)
    x, u, z, p, pg = (s[k] for k in ("x", "u", "z", "p", "pg"))
    v = ca.vertcat(x, u, z, p, pg)
    m.x = x
    m.u = u
    if d["nz"]:
        m.z = z
    if d["np"]:
        m.p = p
    if d["npg"]:
        m.p_global = pg
    f = ca_polys(d["dyn"]["f"], v)
    xdot = s["sym"]("xdot", d["nx"])
    if d["dyn"]["type"] == "DISCRETE":
        m.disc_dyn_expr = f
    else:
        m.xdot = xdot
        m.f_expl_expr = f
        m.f_impl_expr = xdot - f
    so = o.solver_options
    so.N_horizon = d["N"]
    so.integrator_type = d["dyn"]["type"]
    so.sim_method_num_stages = d["dyn"]["stages"]
    so.sim_method_num_steps = d["dyn"]["steps"]
    so.time_steps = np.array(d["dt"], dtype=float)
    so.tf = float(sum(d["dt"]))
    if d["explicit_scaling"]:
        so.cost_scaling = np.array(d["scaling"], dtype=float)
    for k, sfx in (("0", "_0"), ("p", ""), ("e", "_e")):
        c = d["cost"][k]
        vk = v
        setattr(o.cost, "cost_type" + sfx, c["type"])
        y = ca_polys(c["y"], vk) if c["y"] else None
        if c["type"] == "LINEAR_LS":
            setattr(o.cost, "Vx" + sfx, np.array(c["Vx"], dtype=float).reshape(-1, d["nx"]))
            if k != "e":
                setattr(o.cost, "Vu" + sfx, np.array(c["Vu"], dtype=float).reshape(-1, d["nu"]))
                if d["nz"]:
                    setattr(o.cost, "Vz" + sfx, np.array(c["Vz"], dtype=float))
        if c["type"] in ("NONLINEAR_LS", "CONVEX_OVER_NONLINEAR"):
            setattr(m, "cost_y_expr" + sfx, y)
        if c["type"] in ("LINEAR_LS", "NONLINEAR_LS"):
            setattr(o.cost, "W" + sfx, np.array(c["W"], dtype=float))
        if c["yref"]:
            setattr(o.cost, "yref" + sfx, np.array(c["yref"], dtype=float))
        if c["type"] == "CONVEX_OVER_NONLINEAR":
            r = s["sym"]("r_psi" + sfx, len(c["y"]))
            setattr(m, "cost_r_in_psi_expr" + sfx, r)
            setattr(m, "cost_psi_expr" + sfx, ca_poly(c["psi"], r))
        if c["type"] == "EXTERNAL":
            setattr(m, "cost_expr_ext_cost" + sfx, ca_poly(c["e"], vk))
        sl = d["slack"][k]
        for f_ in ("zl", "zu", "Zl", "Zu"):
            if sl["zl"]:
                setattr(o.cost, f_ + sfx, np.array(sl[f_], dtype=float))
    cs = o.constraints
    for k, sfx in (("0", "_0"), ("p", ""), ("e", "_e")):
        c = d["con"][k]
        if k == "0" and d["x0"]:
            cs.x0 = np.array(c["lbx"], dtype=float)
        elif c["idxbx"]:
            for f_ in ("lbx", "ubx"):
                setattr(cs, f_ + sfx, big(c[f_]))
            setattr(cs, "idxbx" + sfx, np.array(c["idxbx"]))
        if k == "p" and c["idxbu"]:
            cs.lbu, cs.ubu, cs.idxbu = big(c["lbu"]), big(c["ubu"]), np.array(c["idxbu"])
            if c["idxsbu"]:
                cs.idxsbu = np.array(c["idxsbu"])
        if k != "0" and c["C"]:
            setattr(cs, "C" + sfx, np.array(c["C"], dtype=float))
            if k == "p":
                cs.D = np.array(c["D"], dtype=float).reshape(-1, d["nu"])
            setattr(cs, "lg" + sfx, big(c["lg"]))
            setattr(cs, "ug" + sfx, big(c["ug"]))
            if c["idxsg"]:
                setattr(cs, "idxsg" + sfx, np.array(c["idxsg"]))
        if k != "0" and c["idxsbx"]:
            setattr(cs, "idxsbx" + sfx, np.array(c["idxsbx"]))
        if c["h"]:
            setattr(m, "con_h_expr" + sfx, ca_polys(c["h"], v))
            setattr(cs, "lh" + sfx, big(c["lh"]))
            setattr(cs, "uh" + sfx, big(c["uh"]))
            if c["idxsh"]:
                setattr(cs, "idxsh" + sfx, np.array(c["idxsh"]))
        if c["phi"]:
            r = s["sym"]("r_phi" + sfx, len(c["r"]))
            setattr(m, "con_r_expr" + sfx, ca_polys(c["r"], v))
            setattr(m, "con_r_in_phi" + sfx, r)
            setattr(m, "con_phi_expr" + sfx, ca_polys(c["phi"], r))
            setattr(cs, "lphi" + sfx, big(c["lphi"]))
            setattr(cs, "uphi" + sfx, big(c["uphi"]))
            if c["idxsphi"]:
                setattr(cs, "idxsphi" + sfx, np.array(c["idxsphi"]))
    if d["np"]:
        o.parameter_values = np.array(d["p"], dtype=float)
    if d["npg"]:
        o.p_global_values = np.array(d["pg"], dtype=float)
    for k, val in opts.items():
        setattr(so, k, val)
    return o
