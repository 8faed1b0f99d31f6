"""C19: histories of reformulations of a problem description, each followed by looking at its objective and feasible set."""
import copy
import random
import warnings

import casadi as ca
import numpy as np

from . import common, ocpgen
from .common import ints

NOB = 10**9
S = {"0": "_0", "p": "", "e": "_e"}


def A(v):
    return np.array(v, dtype=float)


def env(o):
    """the symbols of a model that has been made consistent"""
    m = o.model
    return [m.x, m.u, m.z, m.p, m.p_global, m.t if isinstance(m.t, (ca.SX, ca.MX)) else type(m.x).sym("t_none")]


def at(o, e, pt):
    """value of an expression at a point (x, u, z, p, pg, t)"""
    s = env(o)
    if not isinstance(e, (ca.SX, ca.MX)):
        e = type(o.model.x)(ca.DM(e))
    f = ca.Function("f", s, [ca.densify(e)])
    return f(*[ca.DM(A(v)) if len(v) else ca.DM.zeros(0, 1) for v in pt]).full().reshape(-1)


def cost_at(o, k, pt):
    """twice the documented objective of stages of kind k"""
    c, m, s = o.cost, o.model, S[k]
    typ = getattr(c, "cost_type" + s)
    x, u, z = (A(v) for v in pt[:3])
    if typ in ("LINEAR_LS", "NONLINEAR_LS"):
        W, y = A(getattr(c, "W" + s)), A(getattr(c, "yref" + s)).reshape(-1)
        if W.size == 0:
            return 0.
        if typ == "LINEAR_LS":
            r = A(getattr(c, "Vx" + s)).reshape(len(W), -1) @ x if x.size else 0
            for n, v in (("Vu", u), ("Vz", z)):
                V = A(getattr(c, n + s)) if k != "e" else A([])
                if V.size and v.size:
                    r = r + V @ v
            r = r - y
        else:
            r = at(o, getattr(m, "cost_y_expr" + s), pt) - y
        return float(r @ W @ r)
    if typ == "EXTERNAL":
        return 2 * float(at(o, getattr(m, "cost_expr_ext_cost" + s), pt)[0])
    r = at(o, getattr(m, "cost_y_expr" + s), pt) - A(getattr(c, "yref" + s)).reshape(-1)
    f = ca.Function("psi", env(o) + [getattr(m, "cost_r_in_psi_expr" + s)], [getattr(m, "cost_psi_expr" + s)])
    return 2 * float(f(*[ca.DM(A(v)) if len(v) else ca.DM.zeros(0, 1) for v in pt], r))


def hess_at(o, k, pt):
    """twice the Hessian an EXTERNAL cost hands to the solver, in (u, x)"""
    m = o.model
    e = getattr(m, "cost_expr_ext_cost_custom_hess" + S[k])
    if not isinstance(e, (ca.SX, ca.MX)) or not e.numel():
        return []
    n = e.shape[0]
    return [ints(r) for r in (2 * at(o, e, pt).reshape(n, n, order="F"))]


def con_at(o, k, pt):
    """does the point satisfy the constraints of stages of kind k"""
    c, m, s = o.constraints, o.model, S[k]
    x, u = A(pt[0]), A(pt[1])
    v, lo, up = [], [], []

    def put(val, l, h):
        val, l, h = A(val).reshape(-1), A(l).reshape(-1), A(h).reshape(-1)
        assert len(val) == len(l) == len(h), (k, len(val), len(l), len(h))
        v.extend(val), lo.extend(l), up.extend(h)
    i = getattr(c, "idxbx" + s).astype(int)
    put(x[i], getattr(c, "lbx" + s), getattr(c, "ubx" + s))
    if k != "e":
        put(u[c.idxbu.astype(int)], c.lbu, c.ubu)
        if A(c.C).size or A(c.D).size:
            n = A(c.lg).size
            put(A(c.C).reshape(n, -1) @ x + (A(c.D).reshape(n, -1) @ u if u.size else 0), c.lg, c.ug)
    elif A(c.C_e).size:
        put(A(c.C_e) @ x, c.lg_e, c.ug_e)
    h = getattr(m, "con_h_expr" + s)
    if isinstance(h, (ca.SX, ca.MX)) and h.numel():
        put(at(o, h, pt), getattr(c, "lh" + s), getattr(c, "uh" + s))
    f = getattr(m, "con_phi_expr" + s)
    if isinstance(f, (ca.SX, ca.MX)) and f.numel():
        put(at(o, ca.substitute(f, getattr(m, "con_r_in_phi" + s), getattr(m, "con_r_expr" + s)), pt), getattr(c, "lphi" + s), getattr(c, "uphi" + s))
    return bool(all(l <= a <= b for a, l, b in zip(v, lo, up)))


class Hist:
    def __init__(self, rng, d, auto):
        self.rng, self.d = rng, d
        self.o = ocpgen.build(d, "m")
        self.t = [d["N"]]
        if auto:
            for k in auto:
                setattr(self.o.cost, "cost_type" + S[k], "AUTO")
        v = ocpgen.symbols(d)
        self.extra_p, self.extra_pg, self.deg = 0, 0, -1
        self.init = {"d": d, "none0": False}
        self.gn = False
        self.ny = {k: len(d["cost"][k]["yref"]) for k in "0pe"}      # residuals of the objective itself, before those of penalties

    def syms(self):
        m = self.o.model
        v = ca.vertcat(m.x, m.u, m.z if self.d["nz"] else type(m.x)(0, 1), m.p[:self.d["np"]] if self.d["np"] else type(m.x)(0, 1),
                       m.p_global[:self.d["npg"]] if self.d["npg"] else type(m.x)(0, 1))
        return v

    def point(self):
        R = self.rng.randint
        d = self.d
        n = d["nu"] * (self.deg + 1) if self.deg >= 0 else d["nu"]
        m = 3 if self.deg < 0 else 1        # powers of the time make the controls larger
        pt = [[R(-q, q) for _ in range(k)] for k, q in ((d["nx"], 3), (n, m), (d["nz"], 3), (d["np"] + self.extra_p, 3), (d["npg"] + self.extra_pg, 3), (1, m))]
        if self.rng.random() < .4 and self.d["x0"]:
            pt[0] = list(d["con"]["0"]["lbx"])
        return pt

    def view(self, hess):
        """look at a copy that was made consistent"""
        o = copy.deepcopy(self.o)
        try:
            o.make_consistent(verbose=False)
        except Exception as e:
            return [{"op": "view", "err": "%s: %s" % (type(e).__name__, str(e)[:200])}]
        N = self.d["N"]
        res = []
        for _ in range(3):
            pt = self.point()
            res.append({"op": "view", "err": "", "pt": pt, "cost": {k: ints(cost_at(o, k, pt)) for k in "0pe"}, "con": {k: con_at(o, k, pt) for k in "0pe"},
                        "type": {k: getattr(o.cost, "cost_type" + S[k]) for k in "0pe"}, "hess": {k: hess_at(o, k, pt) for k in "0pe"},
                        "pval": ints(o.parameter_values), "pgval": ints(o.p_global_values)})
        return res


def poly(rng, h, k, deg=2):
    d = h.d
    nv = d["nx"] + d["nu"] + d["nz"] + d["np"] + d["npg"]
    V = list(range(d["nx"])) + ([] if k == "e" else list(range(d["nx"], d["nx"] + d["nu"]))) + list(range(d["nx"] + d["nu"] + d["nz"], nv))
    return ocpgen.poly(rng, nv, V, deg, 2, 2)


def step(rng, h, q, e):
    """applies one operation to the real description and completes its record; False: makes no sense here"""
    o, d = h.o, h.d
    m, c = o.model, o.cost
    sym = type(m.x).sym
    R = rng.randint
    types = {k: getattr(c, "cost_type" + S[k]) for k in "0pe"}
    if h.deg >= 0:
        return False
    if q in ("conl", "ext") and any(types[k] == "NONLINEAR_LS" and not A(getattr(c, "W" + S[k])).size for k in "0pe"):
        return False            # no objective at all has no such form
    if q in ("l2", "huber"):
        k = rng.choice("0pe")
        p = poly(rng, h, k)
        lo, up = R(-3, 0), R(0, 3)
        e.update(k=k, p=p, w=R(1, 3), lo=lo, up=up, delta=R(1, 3), name="res%d" % R(0, 99), xgn=rng.random() < .5, mh=R(0, 1) * 2)
        if q == "huber":
            two = rng.random() < .5
            if two:
                e["up"] = lo + rng.choice([2, 4])
            else:
                e["lo"] = -NOB
        else:
            x = rng.random()
            if x < .3:
                e["lo"] = -NOB
            elif x < .6:
                e["up"] = NOB
        expr = ocpgen.ca_poly(p, h.syms())
        kw = dict(weight=float(e["w"]), upper_bound=None if e["up"] == NOB else float(e["up"]), lower_bound=None if e["lo"] == -NOB else float(e["lo"]), residual_name=e["name"],
                  constraint_type={"0": "initial", "p": "path", "e": "terminal"}[k])
        if q == "l2":
            o.formulate_constraint_as_L2_penalty(expr, **kw)
        else:
            o.formulate_constraint_as_Huber_penalty(expr, huber_delta=float(e["delta"]), use_xgn=e["xgn"], min_hess=float(e["mh"]), **kw)
    elif q == "conl":
        with_t = [types[k] for k in "0pe"]
        o.translate_nls_cost_to_conl()
    elif q == "ext":
        kw = {}
        e["p"] = []
        hess = "GAUSS_NEWTON" if rng.random() < .4 else "EXACT"
        e["hess"] = hess
        pn, pgn = [], []
        e["yp"], e["wp"], e["pv"], e["pgv"] = {k: -1 for k in "0pe"}, {k: -1 for k in "0pe"}, [], []
        mk = [[], []]
        for k in "0pe":
            if types[k] in ("LINEAR_LS", "NONLINEAR_LS", "CONVEX_OVER_NONLINEAR"):
                ny = len(getattr(c, "yref" + S[k]))
                if rng.random() < .4:
                    s = sym("yp" + k, h.ny[k])
                    e["yp"][k] = d["np"] + h.extra_p + sum(x.numel() for x in pn)
                    pn.append(s)
                    kw["yref" + S[k]] = ca.vertcat(s, ca.DM.zeros(ny - h.ny[k], 1))
                if types[k] != "CONVEX_OVER_NONLINEAR" and rng.random() < .3:
                    s = sym("wp" + k, 1)
                    e["wp"][k] = d["npg"] + h.extra_pg + sum(x.numel() for x in pgn)
                    pgn.append(s)
                    W = ca.DM(getattr(c, "W" + S[k]))
                    n = h.ny[k]
                    kw["W" + S[k]] = ca.diagcat(s * type(m.x)(W[:n, :n]), W[n:, n:])
        if pn:
            kw["p"] = ca.vertcat(*pn)
            e["pv"] = [R(-2, 2) for _ in range(kw["p"].numel())]
            kw["p_values"] = A(e["pv"])
        if pgn:
            kw["p_global"] = ca.vertcat(*pgn)
            e["pgv"] = [R(-2, 2) for _ in range(kw["p_global"].numel())]
            kw["p_global_values"] = A(e["pgv"])
        e["types"] = types
        o.translate_cost_to_external_cost(cost_hessian=hess, **kw)
        h.gn = hess == "GAUSS_NEWTON"
        h.extra_p += len(e["pv"])
        h.extra_pg += len(e["pgv"])
    elif q == "lin":
        n = R(1, 2)
        e.update(C=ocpgen.mat(rng, n, d["nx"]), D=ocpgen.mat(rng, n, d["nu"]), lg=[R(-5, 0) for _ in range(n)], ug=[R(0, 5) for _ in range(n)])
        o.add_linear_constraint(A(e["C"]).reshape(n, -1), A(e["D"]).reshape(n, -1), A(e["lg"]), A(e["ug"]))
    elif q == "feas":
        e.update(keep_x0=rng.random() < .3, keep_cost=rng.random() < .5, par=rng.random() < .3)
        e["x0"] = bool(o.constraints.has_x0)
        o.translate_to_feasibility_problem(keep_x0=e["keep_x0"], keep_cost=e["keep_cost"], parametric_x0=e["par"])
        e["nx0"] = o.parameter_values.size - (d["np"] + h.extra_p) if e["par"] else 0
        h.extra_p += e["nx0"]
        if not e["keep_cost"]:
            h.ny = {k: 0 for k in "0pe"}
        elif types["0"] is None:
            h.ny["0"] = h.ny["p"]
    elif q == "bare":
        e.update(keep_x0=rng.random() < .5, x0=bool(o.constraints.has_x0))
        o.remove_all_constraints(keep_x0=e["keep_x0"])
    elif q == "copy0":
        o.copy_path_cost_to_stage_0()
        h.ny["0"] = h.ny["p"]
    elif q == "x0e":
        o.remove_x0_elimination()
    elif q == "detect":
        from acados_template.mpc_utils import detect_constraint_structure
        e["k"] = rng.choice("0pe")
        m.make_consistent(o.dims)
        detect_constraint_structure(m, o.constraints, {"0": "initial", "p": "path", "e": "terminal"}[e["k"]])
    elif q == "poly":
        if o.constraints.idxbu.size or A(o.constraints.D).size or "LINEAR_LS" in types.values() or h.gn:
            return False        # these stay what they are for the new controls
        e["deg"] = R(0, 2)
        nu = d["nu"]
        f = m.reformulate_with_polynomial_control(e["deg"])
        uc, t = [R(-3, 3) for _ in range(nu * (e["deg"] + 1))], R(-2, 2)
        e.update(uc=uc, t=t, uval=ints(f(A(uc), t).full().reshape(-1)))
        h.deg = e["deg"]
    return True


def history(rng, seed, job):
    R = rng.randint
    q = rng.random()
    g = dict(soft=(), nz=(0, 1), dyn=("DISCRETE",), infb=rng.random() < .3, stages=(1,), N=(2, 3), scaling=False)
    ops = ["l2", "huber", "conl", "ext", "lin", "feas", "bare", "copy0", "x0e", "poly"]
    auto = ""
    plan = [rng.choice(ops) for _ in range(R(1, 4))]
    if q < .2:      # one cost type throughout
        t = rng.choice(["NONLINEAR_LS", "CONVEX_OVER_NONLINEAR"])
        g.update(costs=(t,))
        plan = [rng.choice(["l2", "huber", "conl", "ext", "feas"]) for _ in range(R(2, 5))]
    elif q < .4:
        g.update(costs=("EXTERNAL", "LINEAR_LS"), deg=2)
        auto = "".join(k for k in "0pe" if rng.random() < .7)
        plan = [] if auto else ["ext"]
    elif q < .6:
        g.update(phi=False, bx=False, bu=False, g=False, affine=rng.random() < .5)
        plan = ["detect"] * R(1, 3)
    if q > .6:
        x = rng.random()
        if x < .3:
            plan = ["feas"]
        elif x < .5:
            g.update(costs=("NONLINEAR_LS", "EXTERNAL", "CONVEX_OVER_NONLINEAR"), bu=False, g=False)
            plan = plan[:1] + ["poly"]
    d = ocpgen.gen(seed, **g)
    if d["dyn"]["type"] == "DISCRETE" and d["nz"]:
        pass
    for k in auto:
        d["cost"][k] = autocost(rng, d, k)
    # linear constraints with one entry are what detection is about
    if "detect" in plan:
        for k in "0pe":
            cc = d["con"][k]
            for i in range(len(cc["h"])):
                if rng.random() < .6:
                    cc["h"][i] = linear(rng, d, k)
    h = Hist(rng, d, auto)
    h.init["none0"] = rng.random() < .25 and not auto and "detect" not in plan
    if h.init["none0"]:
        h.o.cost._AcadosOcpCost__cost_type_0 = None
    ev = []
    ev += h.view(False)
    for s in plan:
        e = {"op": s, "err": ""}
        try:
            if not step(rng, h, s, e):
                continue
        except Exception as x:
            e["err"] = "%s: %s" % (type(x).__name__, str(x)[:200])
            ev.append(e)
            break
        ev.append(e)
        ev += h.view(s == "ext")
    return {"tid": "%s/%d" % (job["name"], seed), "init": {"d": d, "none0": h.init["none0"], "auto": [k for k in "0pe" if k in auto]}, "ev": ev}


def hor(rng, seed, job):
    """a problem whose controls move for the first stages only"""
    from acados_template.mpc_utils import create_ocp_with_control_horizon
    R = rng.randint
    d = ocpgen.gen(seed, soft=(), nz=(0, 0), npg=(0, 0), dyn=("DISCRETE", "ERK"), stages=(1,), steps=(1, 1), N=(2, 5), scaling=False, infb=False)
    d["dt"] = [2 * R(1, 3)] * d["N"]
    N, nc = d["N"], R(1, d["N"] - (rng.random() < .9))
    if nc == 1:
        # the first stage of a horizon of one control has neither costs nor constraints of its own
        xs = [R(-2, 2) for _ in range(d["nx"])]
        d["con"]["0"].update(h=[], lh=[], uh=[], phi=[], r=[], lphi=[], uphi=[], idxbx=list(range(d["nx"])), lbx=xs, ubx=xs)
        d["x0"] = True
    o = ocpgen.build(d, "m")
    if nc == 1:
        o.cost._AcadosOcpCost__cost_type_0 = None
    nr = rng.choice([n for n in (1, 2, 3, 4, 6) if (N - nc) * d["dt"][0] % n == 0 and n <= max(N - nc, 1)])
    steps = copy.deepcopy(o.solver_options.time_steps)
    opts = sorted((k, repr(v)) for k, v in vars(o.solver_options).items())
    e = {"op": "hor", "err": "", "nc": nc, "nr": nr}
    ev = [e]
    try:
        m = create_ocp_with_control_horizon(o, nc, nr)
        e.update(same=opts == sorted((k, repr(v)) for k, v in vars(o.solver_options).items()), multi=m is not o)
        if m is not o:
            m.make_consistent(verbose=False)
            e["ts"], e["N"] = ints(m.solver_options.time_steps), list(m.N_list)
            P = m.dummy_ocp_list
            e["types"] = [P[0].cost.cost_type if nc > 1 else "", P[-1].cost.cost_type, P[-1].cost.cost_type_e]
            e["x0kept"] = [bool(P[-1].constraints.has_x0)]
    except Exception as x:
        e["err"] = "%s: %s" % (type(x).__name__, str(x)[:200])
    if not e["err"] and m is not o:
        tr = P[-2]
        for _ in range(4):
            pt = [[R(-3, 3) for _ in range(k)] for k in (d["nx"], d["nu"], 0, d["np"], 0, 1)]
            if rng.random() < .4 and d["x0"]:
                pt[0] = list(d["con"]["0"]["lbx"])
            held = [pt[0] + pt[1], []] + pt[2:]
            v = {"op": "hview", "pt": pt}

            def look(ocp, k, p):
                dyn = [] if k == "e" else ints(at(ocp, ocp.model.disc_dyn_expr if isinstance(ocp.model.disc_dyn_expr, (ca.SX, ca.MX)) and ocp.model.disc_dyn_expr.numel() else ocp.model.f_expl_expr, p))
                return {"cost": ints(cost_at(ocp, k, p)), "con": con_at(ocp, k, p), "dyn": dyn}
            v["free"] = {k: look(P[0], k, pt) for k in "0p"} if nc > 1 else {}
            v["held"] = {k: look(P[-1], k, held) for k in "pe"}
            trp = pt[:3] + [[], [], pt[5]] if not tr.model.p.numel() else pt
            k = "0" if nc == 1 else "p"
            v["trans"] = {"con": con_at(tr, k, trp), "dyn": ints(at(tr, tr.model.disc_dyn_expr, trp)), "cost": bool((tr.cost.cost_type == "LINEAR_LS") and not A(tr.cost.W).size)}
            ev.append(v)
    return {"tid": "%s/%d" % (job["name"], seed), "init": {"d": d, "none0": nc == 1, "auto": []}, "ev": ev}


def linear(rng, d, k):
    """affine in one or two of x and u, sometimes with parameters or an offset"""
    nv = d["nx"] + d["nu"] + d["nz"] + d["np"] + d["npg"]
    V = list(range(d["nx"] + (0 if k == "e" else d["nu"])))
    P = list(range(d["nx"] + d["nu"] + d["nz"], nv))
    out = {}
    for i in rng.sample(V, min(len(V), rng.choice([1, 1, 1, 2]))):
        e = [0] * nv
        e[i] = 1
        out[tuple(e)] = rng.choice([-2, -1, 1, 2])
    if rng.random() < .5:
        out[tuple([0] * nv)] = rng.choice([-2, -1, 1, 2])
    if P and rng.random() < .2:
        e = [0] * nv
        e[rng.choice(P)] = 1
        out[tuple(e)] = 1
    return [[v, list(e)] for e, v in sorted(out.items())]


def autocost(rng, d, k):
    """an objective whose type is to be found: a sum of squares, with or without linear and constant part, parameters, degree three, or nothing"""
    nv = d["nx"] + d["nu"] + d["nz"] + d["np"] + d["npg"]
    V = list(range(d["nx"] + (0 if k == "e" else d["nu"] + d["nz"])))
    P = list(range(d["nx"] + d["nu"] + d["nz"], nv))
    terms = {}

    def add(c, *idx):
        e = [0] * nv
        for i in idx:
            e[i] += 1
        terms[tuple(e)] = terms.get(tuple(e), 0) + c
    W = [i for i in V if rng.random() < .8]
    q = rng.random()
    if q > .08:
        for i in W:
            a = rng.randint(-2, 2)
            add(1, i, i)
            add(-2 * a, i)
            add(a * a)
        if rng.random() < .5 and len(W) > 1:
            i, j = rng.sample(W, 2)
            for a, b in ((i, i), (i, j), (j, i), (j, j)):
                add(1, a, b)
        x = rng.random()
        if x < .1:
            add(rng.randint(1, 3))          # a constant that is no square
        elif x < .2 and V:
            add(1, rng.choice(V))           # linear in something that may not occur otherwise
        elif x < .3 and P:
            add(1, rng.choice(P), rng.choice(V))
        elif x < .45 and len(V) > 1:
            i, j = rng.sample(V, 2)
            add(1, i, i, j)
        elif x < .5 and len(V) > 1:
            i, j = rng.sample(V, 2)
            add(1, i, i, j, j)
        elif x < .6 and len(V) > 1:         # indefinite or semidefinite
            i, j = rng.sample(V, 2)
            terms.clear()
            for a, b in ((i, i), (i, j), (j, i), (j, j)):
                add(1 if rng.random() < .7 else -1, a, b)
    return {"type": "EXTERNAL", "yref": [], "W": [], "Vx": [], "Vu": [], "Vz": [], "y": [], "psi": [], "e": [[c, list(e)] for e, c in sorted(terms.items()) if c] or [[0, [0] * nv]]}


def run(job):
    warnings.simplefilter("ignore")
    out = []
    with common.quiet():
        for k in range(job["n"]):
            seed = job["seed"] * 10000 + k
            rng = random.Random(seed)
            out.append((hor if rng.random() < .12 else history)(rng, seed, job))
    return out


if __name__ == "__main__":
    common.main(run)
