"""C18: shooting grids, time steps and cost scaling: descriptions (no code), and histories of generated solvers.

Times are quarters, scalings are quarters, everything else integers; the integrators are explicit with dyadic coefficients,
so that all recorded numbers are exact.
"""
import random

import casadi as ca
import numpy as np

from . import common

NONINT = -888887
NONE = -1


def nat(x, f=1):
    """f * x as an integer, or NONINT"""
    v = float(np.asarray(x, dtype=float).reshape(-1)[0]) * f if np.size(x) == 1 else float("nan")
    return int(round(v)) if np.isfinite(v) and abs(v) < 2e9 and abs(v - round(v)) <= 1e-9 * max(1, abs(v)) else NONINT


def nats(x, f=1):
    return [nat(v, f) for v in np.asarray(x, dtype=float).flatten()]


# ---- descriptions ----
def gen_grid(rng, N=None, good=False):
    """N, tf, steps, nodes, scaling, in units of 1 / one"""
    N = N or rng.randint(1, 5)
    kind = rng.choice(["uniform", "steps", "steps", "nodes", "nodes", "both"])
    one = 4 if good or rng.random() < .6 else 2**20
    steps = [rng.choice([1, 2, 3, 4, 6, 8]) for _ in range(N)]
    if rng.random() < .2:
        steps = [steps[0]] * N
    if one > 4:                     # steps that are nearly the same
        steps = [2**18 + rng.choice([0, 0, 0, 1, -1, 300, 5000]) for _ in range(N)]
    start = rng.choice([0, 0, 0, 4, -2])
    q = {"N": N, "tf": sum(steps), "steps": [], "nodes": [], "scaling": [], "one": one}
    if kind == "uniform":
        q["tf"] = N * steps[0]
    if kind in ("steps", "both"):
        q["steps"] = steps
        start = 0
    if kind in ("nodes", "both"):
        q["nodes"] = [start + sum(steps[:i]) for i in range(N + 1)]
    if rng.random() < .4:
        q["scaling"] = [rng.choice([0, 1, 2, 4, 8, 12]) for _ in range(N + 1)]
    if good or rng.random() < .6:
        return q
    fault = rng.choice(["tf", "tf", "notf", "len", "scaling", "both"])
    if fault == "tf" and kind != "uniform":
        q["tf"] = max(1, q["tf"] + rng.choice([-1, 1, 4]))
    elif fault == "notf":
        q["tf"] = NONE
    elif fault == "len" and kind in ("steps", "nodes"):
        w = "steps" if kind == "steps" else "nodes"
        q[w] = q[w] + [q[w][-1] + 1] if rng.random() < .5 or len(q[w]) < 2 else q[w][:-1]
        if rng.random() < .5:
            q["tf"] = sum(q["steps"]) if kind == "steps" else q["nodes"][-1] - q["nodes"][0] or 4
    elif fault == "scaling":
        q["scaling"] = [rng.choice([1, 4]) for _ in range(rng.choice([N, N + 2]))]
    return q


def put_grid(rng, so, q, style=True):
    so.N_horizon = q["N"]
    if q["tf"] != NONE:
        so.tf = q["tf"] // q["one"] if style and q["tf"] % q["one"] == 0 and rng.random() < .4 else q["tf"] / q["one"]
    shape = lambda v: np.array(v, dtype=float).reshape(*rng.choice([(-1,), (-1, 1), (1, -1)])) / q["one"]
    if q["steps"]:
        so.time_steps = shape(q["steps"])
    if q["nodes"]:
        so.shooting_nodes = shape(q["nodes"])
    if q["scaling"]:
        so.cost_scaling = shape(q["scaling"])


def base(name):
    from acados_template import AcadosOcp
    o = AcadosOcp()
    o.model.name = name
    return o


def describe(rng, i):
    q = gen_grid(rng)
    o = base("desc")
    x, u, xd = ca.SX.sym("x"), ca.SX.sym("u"), ca.SX.sym("xd")
    o.model.x, o.model.u, o.model.xdot = x, u, xd
    o.model.f_expl_expr, o.model.f_impl_expr = x + u, xd - x - u
    so = o.solver_options
    put_grid(rng, so, q)
    so.integrator_type = rng.choice(["ERK", "IRK"])
    ns = [rng.randint(1, 3)] if rng.random() < .5 else [rng.randint(1, 3) for _ in range(q["N"])]
    so.sim_method_num_steps = ns[0] if len(ns) == 1 and rng.random() < .5 else np.array(ns)
    if len(ns) == 1:
        so.sim_method_num_steps = ns[0]
    o.constraints.x0 = np.zeros(1)
    out = []
    for again in range(2):          # a consistent description is left alone the second time
        e = {"op": "describe", "q": q, "ok": True, "num_steps": ns}
        try:
            with common.quiet():
                o.make_consistent()
            e["got"] = {"N": o.solver_options.N_horizon, "tf": nat(so.tf, q["one"]), "steps": nats(so.time_steps, q["one"]), "nodes": nats(so.shooting_nodes, q["one"]),
                        "scaling": nats(so.cost_scaling, q["one"]), "tsim": nat(so.Tsim, q["one"]), "num_steps": nats(so.sim_method_num_steps)}
        except (ValueError, TypeError) as ex:
            e["ok"] = False
            out.append(e)
            break
        out.append(e)
    return {"tid": "d%d" % i, "light": True, "init": 0, "ev": out}


# ---- solvers ----
TYPES = ["LINEAR_LS", "NONLINEAR_LS", "EXTERNAL", "CONVEX_OVER_NONLINEAR"]


def gen(rng):
    R = rng.randint
    grid = gen_grid(rng, good=True)
    N = grid["N"]
    d = {"grid": grid, "a": R(-2, 2), "b": rng.choice([-1, 1, 2]), "c": R(-1, 1), "dyn": rng.choice(["ERK", "ERK", "ERK", "DISCRETE", "IRK", "LIFTED_IRK", "GNSF"]),
         "vx": R(1, 2), "vu": rng.choice([-1, 1]), "vxe": R(1, 2), "W": R(1, 3), "We": R(1, 3), "y": R(-2, 2), "ye": R(-2, 2),
         "num_steps": [R(1, 2) for _ in range(N)] if rng.random() < .6 else [R(1, 2)] * N,
         "num_stages": [R(1, 2) for _ in range(N)] if rng.random() < .4 else [R(1, 2)] * N,
         "soft": rng.random() < .6, "softe": rng.random() < .5,
         "pen": {k: R(0, 3) for k in ("zl", "zu", "Zl", "Zu")}, "pene": {k: R(0, 3) for k in ("zl", "zu", "Zl", "Zu")},
         "types": [rng.choice(TYPES), rng.choice(TYPES)]}
    if d["dyn"][-3:] in ("IRK", "NSF"):          # exact only without state feedback
        d["a"] = 0
    if d["dyn"] == "LIFTED_IRK":                 # no exact Hessians
        d["types"] = ["NONLINEAR_LS" if t[0] == "E" else t for t in d["types"]]
    d["pen"]["Zl"], d["pene"]["Zu"] = d["pen"]["Zl"] or 1, d["pene"]["Zu"] or 1
    return d


def build(rng, d, name):
    o = base(name)
    x, u, xd = ca.SX.sym("x"), ca.SX.sym("u"), ca.SX.sym("xd")
    m, so, c, k = o.model, o.solver_options, o.constraints, o.cost
    m.x, m.u = x, u
    f = d["a"] * x + d["b"] * u + d["c"]
    if d["dyn"] == "DISCRETE":
        m.disc_dyn_expr = f
    else:
        m.xdot, m.f_expl_expr, m.f_impl_expr = xd, f, xd - f
    put_grid(rng, so, d["grid"])
    so.integrator_type = d["dyn"]
    if d["dyn"] != "DISCRETE":
        so.sim_method_num_steps, so.sim_method_num_stages = np.array(d["num_steps"]), np.array(d["num_stages"])
    so.nlp_solver_type = "SQP_RTI"
    so.qp_solver = rng.choice(["PARTIAL_CONDENSING_HPIPM", "PARTIAL_CONDENSING_HPIPM", "FULL_CONDENSING_HPIPM"])
    d["partial"] = so.qp_solver[0] == "P"
    if d["partial"]:
        so.qp_solver_cond_N = 1
    if "EXTERNAL" in d["types"]:      # needs exact Hessians, which the other one does not have
        d["types"] = ["NONLINEAR_LS" if t[0] == "C" else t for t in d["types"]]
    so.hessian_approx = "EXACT" if "EXTERNAL" in d["types"] or "CONVEX_OVER_NONLINEAR" not in d["types"] and d["dyn"] != "LIFTED_IRK" and rng.random() < .3 else "GAUSS_NEWTON"
    A = lambda v: np.array([[float(v)]])
    for sfx, t in (("", d["types"][0]), ("_e", d["types"][1])):
        r = d["vxe"] * x if sfx else d["vx"] * x + d["vu"] * u
        W, y = (d["We"], d["ye"]) if sfx else (d["W"], d["y"])
        setattr(k, "cost_type" + sfx, t)
        if t == "LINEAR_LS":
            setattr(k, "Vx" + sfx, A(d["vx" + sfx[1:]]))
            if not sfx:
                k.Vu = A(d["vu"])
        elif t == "NONLINEAR_LS":
            setattr(m, "cost_y_expr" + sfx, r)
        elif t == "EXTERNAL":
            setattr(m, "cost_expr_ext_cost" + sfx, .5 * W * (r - y)**2)
        else:
            q = ca.SX.sym("q" + sfx)
            setattr(m, "cost_y_expr" + sfx, r)
            setattr(m, "cost_r_in_psi_expr" + sfx, q)
            setattr(m, "cost_psi_expr" + sfx, .5 * W * q**2)
        if t.endswith("LS"):
            setattr(k, "W" + sfx, A(W))
        if t != "EXTERNAL":
            setattr(k, "yref" + sfx, np.array([float(y)]))
    for sfx, soft, p in (("", d["soft"], d["pen"]), ("_e", d["softe"], d["pene"])):
        if soft:
            setattr(c, "idxbx" + sfx, np.array([0]))
            setattr(c, "lbx" + sfx, np.array([-50.]))
            setattr(c, "ubx" + sfx, np.array([50.]))
            setattr(c, "idxsbx" + sfx, np.array([0]))
            for f_ in p:
                setattr(k, f_ + sfx, np.array([float(p[f_])]))
    c.x0 = np.zeros(1)
    return o


def pyobj(s):
    so = s.ocp.solver_options
    return {"n": s.N, "ts": nats(so.time_steps, 4), "tf": nat(so.tf, 4), "nodes": nats(so.shooting_nodes, 4)}


def point(rng, n):
    return {"xs": [rng.randint(-3, 3) for _ in range(n + 1)], "us": [rng.randint(-3, 3) for _ in range(n)],
            "sl": [rng.randint(0, 2) for _ in range(n + 1)], "su": [rng.randint(0, 2) for _ in range(n + 1)]}


def look(rng, s, d):
    n = s.N
    p = point(rng, n)
    e = {"op": "look", "p": p, "py": pyobj(s)}
    soft = [d["softe"] if k == n else k > 0 and d["soft"] for k in range(n + 1)]
    for k in range(n + 1):
        s.set(k, "x", np.array([float(p["xs"][k])]))
        if k < n:
            s.set(k, "u", np.array([float(p["us"][k])]))
        if soft[k]:
            s.set(k, "sl", np.array([float(p["sl"][k])]))
            s.set(k, "su", np.array([float(p["su"][k])]))
    s.set(0, "lbx", np.array([float(p["xs"][0])]))
    s.set(0, "ubx", np.array([float(p["xs"][0])]))
    e["cost8"] = nat(s.get_cost(), 8)
    with common.quiet():
        s.options_set("rti_phase", 1)
        s.solve()
        s.options_set("rti_phase", 2)
        e["status"] = int(s.solve())
    qp = []
    for k in range(n + 1):
        g = lambda f, m=4: nat(s.get_from_qp_in(k, f), m) if np.size(s.get_from_qp_in(k, f)) else 0
        w = {"sc": nat(s.cost_get(k, "scaling"), 4), "Q": g("Q"), "q": g("q"), "R": 0, "S": 0, "r": 0}
        if k < n:
            w.update(R=g("R"), S=g("S"), r=g("r"), A=g("A", 16384), B=g("B", 16384), b=g("b", 16384))
        if soft[k]:
            w.update({f: g(f) for f in ("zl", "zu", "Zl", "Zu")})
        qp.append(w)
    e["qp"] = qp
    return e


def new_steps(rng, n, cur, keep):
    """an array of new time steps in one of the shapes a user may have at hand"""
    how = rng.choice(["plain", "plain", "int", "strided", "same", "inplace", "inplace", "permute", "permute"])
    if how == "same":
        return list(cur), np.array(cur, dtype=float) / 4
    ts = [rng.choice([1, 2, 3, 4, 6, 8]) for _ in range(n)]
    if how == "permute" and n == len(cur):
        ts = rng.sample(list(cur), n)
    if how == "int":
        ts = [4 * rng.randint(1, 2) for _ in range(n)]
        return ts, np.array(ts) // 4
    if how == "strided":
        return ts, np.array(np.repeat(ts, 2), dtype=float)[::2] / 4 if rng.random() < .5 else (np.array([ts, ts], dtype=float).T / 4)[:, 0]
    if how == "inplace" and keep.get(n) is not None:
        keep[n][:] = np.array(ts, dtype=float) / 4
        return ts, keep[n]
    keep[n] = np.array(ts, dtype=float) / 4
    return ts, keep[n]


def history(rng, i, tag, length):
    d = gen(rng)
    o = build(rng, d, "g%s_%d" % (tag, i))
    keep = {}
    s = common.make_solver(o, "g%s_%d" % (tag, i))
    ev = [{"op": "created", "err": "", "py": pyobj(s)}, look(rng, s, d)]
    cond = 1
    for _ in range(length):
        n = s.N
        op = rng.choice(["steps"] * 4 + ["newN"] * 2 + ["scaling"] * 2 + ["W", "yref", "reset", "reset", "cond"])
        e = {"op": op, "err": ""}
        k = rng.randint(0, n)
        t = d["types"][k == n]
        try:
            if op in ("steps", "newN"):
                e["op"] = "steps"
                m = rng.choice([v for v in range(max(cond, 1), 7)]) if op == "newN" else n
                e["ts"], arr = new_steps(rng, m, nats(s.ocp.solver_options.time_steps, 4), keep)
                with common.quiet():
                    s.set_new_time_steps(arr)
                if m != n:
                    cond = 1
            elif op == "scaling":
                e.update(k=k, v=rng.choice([0, 1, 2, 4, 8]))
                s.cost_set(k, "scaling", e["v"] / 4)
            elif op == "W":
                if not t.endswith("LS"):
                    continue
                e.update(k=k, v=rng.randint(1, 4))
                s.cost_set(k, "W", np.array([[float(e["v"])]]))
            elif op == "yref":
                if t == "EXTERNAL":
                    continue
                e.update(k=k, v=rng.randint(-2, 2))
                s.cost_set(k, "yref", np.array([float(e["v"])]))
            elif op == "reset":
                e["values"], e["options"] = rng.random() < .6, rng.random() < .4
                s.reset(reset_numerical_values=e["values"], reset_solver_options=e["options"], reset_qp_solver_mem=rng.random() < .5)
            elif op == "cond":
                if not d["partial"]:
                    continue
                cond = rng.randint(1, n)
                with common.quiet():
                    s.update_qp_solver_cond_N(cond)
        except Exception as ex:
            e["err"] = "%s: %s" % (type(ex).__name__, str(ex)[:100])
        e["py"] = pyobj(s)
        ev += [e, look(rng, s, d)]
        if e["err"]:
            break
    return {"tid": "%s_%d" % (tag, i), "light": False, "init": d, "ev": ev}


def run(job):
    rng = random.Random(job["seed"])
    if job["what"] == "describe":
        return [describe(rng, i) for i in range(job["n"])]
    return [history(rng, i, job["name"], job["length"]) for i in range(job["n"])]


if __name__ == "__main__":
    common.main(run)
