"""Histories of AcadosOcpQp containers, their CasADi form, and the solvers' answers."""
import json
import os
import random

import numpy as np

from drivers import common, qpgen
from drivers.common import ints

FIELDS = qpgen.MATS + qpgen.VECS


def rec(f, v):
    if v is None:
        return {"r": 0, "c": 0, "v": []} if f in qpgen.MATS else []
    v = np.array(v)
    if f in qpgen.MATS:
        return {"r": v.shape[0], "c": v.shape[1], "v": ints(v) if v.size else [[] for _ in range(v.shape[0])]}
    return ints(v)


def whole(o):
    return [{f: rec(f, getattr(o, f)[i]) for f in FIELDS if not (i == o.N and f in qpgen.DYN)} for i in range(o.N + 1)]


def near(v, tol=2e-3):
    v = np.array(v, dtype=float).flatten()
    r = []
    for x in v:
        if np.isnan(x):
            r.append(common.NAN)
        else:
            k = round(x)
            r.append(int(k) if abs(x - k) <= tol * max(1, abs(x) / 20) and abs(k) < 10**8 else common.NONINT)
    return r


def iterate(s, N):
    d = {f: [near(s.get(i, f)) for i in range(N + 1)] for f in ("x", "u", "sl", "su", "lam")}
    d["pi"] = [near(s.get(i, "pi")) for i in range(N)]
    return d


def raised(fun):
    try:
        with common.quiet():
            fun()
        return False
    except Exception:
        return True


def mutate(rng, q):
    """a change of one entry of the description"""
    i = rng.randint(0, q["N"])
    s = q["st"][i]
    f = rng.choice([f for f in qpgen.fields(q, i) if not (f == "D" and i == q["N"]) and not (f == "S" and not s["R"]["r"])])
    v = json.loads(json.dumps(s[f]))
    if f in qpgen.MATS:
        k = rng.choice(["row", "col", "both"])
        r, c = v["r"] + (k != "col"), v["c"] + (k != "row")
        if f in ("B", "D", "C") and not v["c"] * v["r"]:
            return None
        v = {"r": r, "c": c, "v": [[rng.randint(-2, 2) for _ in range(c)] for _ in range(r)]}
    else:
        k = rng.choice(["drop", "add", "range"] if f in qpgen.INTS else ["drop", "add"])
        if f == "idxe" and k == "drop":
            k = "range"
        if k == "drop":
            if not v:
                return None
            v.pop()
        elif k == "add":
            v.append(0 if f != "idxe" else rng.choice([0, 7]))
        else:
            if not v:
                return None
            v[rng.randrange(len(v))] = rng.choice([-2, 50, -1] if f != "idxs_rev" else [-2, 50, len(s["lls"])])
    return f, i, v


def container(rng, job, k):
    q = qpgen.gen("c%d-%d" % (job["seed"], k), **job["gen"])
    from acados_template import AcadosOcpQp
    N = q["N"]
    o = AcadosOcpQp(N)
    ev = []

    def setf(f, i, v):
        if f in qpgen.MATS:
            val = np.array(v["v"], dtype=float).reshape(v["r"], v["c"])
        else:
            val = np.array(v, dtype=int if f in qpgen.INTS else float)
            if rng.random() < .3:
                val = val.reshape(-1, 1) if rng.random() < .5 else val.reshape(1, -1)
        ev.append({"op": "set", "f": f, "i": i, "v": v, "raised": raised(lambda: o.set(f, i, val))})
    todo = [(f, i) for i in range(N + 1) for f in qpgen.fields(q, i)]
    rng.shuffle(todo)
    for f, i in todo:
        v = q["st"][i][f]
        if (v == [] or isinstance(v, dict) and v["r"] * v["c"] == 0 and f not in ("B",)) and rng.random() < .7:
            continue
        setf(f, i, v)
    cur = q

    def consistent():
        r = raised(lambda: o.make_consistent())
        dm = {k2: [int(x) for x in getattr(o.dims, k2)] for k2 in ("nx", "nu", "nbx", "nbu", "nb", "ng", "ns", "nbxe")} if not r else {}
        ev.append({"op": "consistent", "raised": r, "dims": dm})
        return not r
    ok = consistent()
    for _ in range(job["len"]):
        op = rng.choice(["mutate", "mutate", "bad", "read", "dict", "licq", "hess"])
        if op == "mutate":
            m = mutate(rng, cur)
            if m:
                f, i, v = m
                setf(f, i, v)
                consistent()
                setf(f, i, cur["st"][i][f])
                ok = consistent()
        elif op == "bad":
            f, i = rng.choice([("A", N), ("b", N), ("Q", -1), ("lbx", N + 1), ("foo", 0), ("mass", 0)])
            ev.append({"op": "set", "f": f, "i": i, "v": {"r": 1, "c": 1, "v": [[1]]} if f in qpgen.MATS else [1], "raised": raised(lambda: o.set(f, i, np.ones((1, 1)) if f in qpgen.MATS else np.ones(1)))})
        elif op == "read":
            ev.append({"op": "read", "st": whole(o)})
        elif not ok:
            continue
        elif op == "hess":
            i = rng.randint(0, N)
            ev.append({"op": "hess", "i": i, "v": ints(o.get_hessian_block(i))})
        elif op == "licq":
            from acados_template import AcadosOcpIterate
            X, U = (cur["sol"][f] for f in "xu")
            if rng.random() < .5:
                X, U = [[rng.randint(-2, 2) for _ in v] for v in X], [[rng.randint(-2, 2) for _ in v] for v in U]
            A = lambda v: np.array(v, dtype=float)
            e = [A([])] * (N + 1)
            it = AcadosOcpIterate(x=[A(v) for v in X], u=[A(v) for v in U[:N]], z=e[1:], sl=e, su=e, pi=e[1:], lam=e)
            ev.append({"op": "licq", "x": X, "u": U, "v": bool(o.check_licq(it))})
        else:
            lN = len(str(N + 1))
            data = {}
            for i in range(N + 1):
                for f in FIELDS:
                    if i == N and f in qpgen.DYN:
                        continue
                    v = getattr(o, f)[i]
                    if v is not None and v.size:
                        data["%s_%0*d" % (f, lN, i)] = v
            via = rng.choice(["dict", "json", "file"])
            try:
                with common.quiet():
                    if via == "dict":
                        o2 = AcadosOcpQp.from_dict(data)
                    else:
                        js = {k2: v.tolist() for k2, v in data.items()}
                        if via == "json":
                            o2 = AcadosOcpQp.from_json(json_data=js)
                        else:
                            with open("qp.json", "w") as fh:
                                json.dump(js, fh)
                            o2 = AcadosOcpQp.from_json("qp.json")
                e = {"op": "dict", "via": via, "raised": False, "st": whole(o2), "int": all(np.issubdtype(getattr(o2, f)[i].dtype, np.integer) for f in qpgen.INTS for i in range(N + 1) if getattr(o2, f)[i].size)}
                e["masks"] = [bool(o2.has_slacks()), bool(o2.has_masks()), bool(o2.has_idxs_rev_not_idxs())]
            except Exception as x:
                e = {"op": "dict", "via": via, "raised": True, "st": [], "int": True, "masks": [False] * 3, "err": repr(x)[:200]}
            ev.append(e)
    return {"q": {"N": N, "st": []}, "ev": ev}


def casadi_form(rng, job, k):
    import casadi as ca
    from acados_template import AcadosCasadiOcpQpSolver, AcadosOcpIterate
    q = qpgen.gen("f%d-%d" % (job["seed"], k), **job["gen"])
    N = q["N"]
    o = qpgen.build(q)
    with common.quiet():
        s = AcadosCasadiOcpQpSolver(o, solver_opts={"ipopt.print_level": 0, "print_time": False, "ipopt.sb": "yes", "ipopt.tol": 1e-10, "ipopt.constr_viol_tol": 1e-10, "ipopt.bound_relax_factor": 0.,
                                                    "ipopt.mu_target": 1e-11, "ipopt.dual_inf_tol": 1e-9, "ipopt.compl_inf_tol": 1e-9})
    ev = []
    F = ca.Function("F", [s.casadi_qp["x"]], [s.casadi_qp["f"], s.casadi_qp["g"]])
    im = s.index_map
    ns = [len(t["lls"]) for t in q["st"]]
    nw = s.casadi_qp["x"].shape[0]

    def bound(v):
        return [10**9 if x == np.inf else -10**9 if x == -np.inf else ints(x) for x in np.array(v).flatten()]
    for _ in range(3):
        w = [rng.randint(-3, 3) for _ in range(nw)]
        f, g = F(np.array(w, dtype=float))
        W = {nm: [[w[j] for j in im[key][i]] for i in range(N + 1)] for nm, key in (("x", "x_in_w"), ("u", "u_in_w"), ("sl", "sl_in_w"), ("su", "su_in_w"))}
        used = sorted(j for key in ("x_in_w", "u_in_w", "sl_in_w", "su_in_w") for v in im[key] for j in v)
        B = {nm: [[[a, b] for a, b in zip(bound(s.bounds["lbx"][im[key][i]]), bound(s.bounds["ubx"][im[key][i]]))] for i in range(N + 1)] for nm, key in (("x", "x_in_w"), ("u", "u_in_w"), ("sl", "sl_in_w"), ("su", "su_in_w"))}
        gv = ints(g.full().flatten())
        lg, ug = bound(s.bounds["lbg"]), bound(s.bounds["ubg"])
        R = lambda key, i: [[gv[j], lg[j], ug[j]] for j in im[key][i]]
        ev.append({"op": "form", "w": W, "f": ints(2 * float(f)), "cover": used == list(range(nw)), "B": B, "ng": len(gv),
                   "dyn": [R("pi_in_lam_g", i) for i in range(N)], "rows": [[gv[j], lg[j], ug[j]] for j in range(len(gv))],
                   "hard": [R("lam_g_in_lam_g", i) for i in range(N + 1)],
                   "gl": [R("lam_g_sl_in_lam_g", i) for i in range(N + 1)], "gu": [R("lam_g_su_in_lam_g", i) for i in range(N + 1)],
                   "xl": [R("lam_bx_sl_in_lam_g", i) for i in range(N + 1)], "xu": [R("lam_bx_su_in_lam_g", i) for i in range(N + 1)],
                   "ul": [R("lam_bu_sl_in_lam_g", i) for i in range(N + 1)], "uu": [R("lam_bu_su_in_lam_g", i) for i in range(N + 1)]})
    # writing and reading back
    def rand_it():
        rand = lambda n: [rng.randint(-4, 4) for _ in range(n)]
        it = {"x": [rand(n) for n in q["nx"]], "u": [rand(n) for n in q["nu"]], "sl": [rand(n) for n in ns], "su": [rand(n) for n in ns], "pi": [rand(q["nx"][i + 1]) for i in range(N)], "lam": []}
        for i in range(N + 1):
            t = q["st"][i]
            nc = len(t["idxs_rev"])
            lo, up = [], []
            for j in range(nc):
                d = rng.randint(-4, 4)
                if t["idxs_rev"][j] >= 0:
                    lo.append(rng.randint(0, 4))
                    up.append(rng.randint(0, 4))
                else:
                    lo.append(max(0, -d))
                    up.append(max(0, d))
            it["lam"].append(lo + up + [rng.randint(0, 4) for _ in range(2 * ns[i])])
        return it

    def back():
        s.qp_sol = {"x": 0}
        s.qp_sol_w, s.qp_sol_lam_w, s.qp_sol_lam_g = s.w0, s.lam_x0, s.lam_g0
        if rng.random() < .5:
            r = {f: [ints(np.array(s.get(i, f))) for i in range(N + 1 if f != "pi" else N)] for f in ("x", "u", "sl", "su", "pi", "lam")}
        else:
            t = s.get_iterate()
            r = {f: [ints(np.array(v)) for v in getattr(t, f)] for f in ("x", "u", "sl", "su", "pi", "lam")}
            if len(r["u"]) == N:
                r["u"].append([])
        s.qp_sol = None
        return r
    for _ in range(4):
        it = rand_it()
        how = rng.choice(["set", "flat", "iterate"])
        A = lambda v: np.array(v, dtype=float)

        def put():
            if how == "set":
                keys = [(f, i) for f in it for i in range(len(it[f]))]
                rng.shuffle(keys)
                for f, i in keys:
                    s.set(i, f, A(it[f][i]))
            elif how == "flat":
                for f in rng.sample(list(it), len(it)):
                    s.set_flat(f, A([x for v in it[f] for x in v]))
            else:
                s.set_iterate(AcadosOcpIterate(x=[A(v) for v in it["x"]], u=[A(v) for v in it["u"][:N]], z=[A([])] * N, sl=[A(v) for v in it["sl"]], su=[A(v) for v in it["su"]],
                                               pi=[A(v) for v in it["pi"]], lam=[A(v) for v in it["lam"]]))
        r = raised(put)
        ev.append({"op": "put", "how": how, "it": it, "raised": r, "back": back() if not r else it})
    ev.append(solve_casadi(s, q))
    return {"q": q, "ev": ev}


def solve_casadi(s, q):
    with common.quiet():
        st = s.solve()
    ok = st == 0
    return {"op": "solve", "solver": "casadi", "may_fail": False, "status": 0 if ok else 1, "sol": iterate(CasadiGet(s, q), q["N"]), "hascost": True, "cost": near([2 * s.get_cost()])[0]}


class CasadiGet:
    def __init__(self, s, q):
        self.s, self.q = s, q

    def get(self, i, f):
        return np.array(self.s.get(i, f))


def dump(rng, job, k):
    """the last QP of a real solver, stored in all ways, read into a container"""
    from acados_template import AcadosOcpQp
    from drivers import ocpgen
    d = ocpgen.gen("d%d-%d" % (job["seed"], k), **job["gen"])
    N = d["N"]
    with common.quiet():
        o = ocpgen.build(d, "d%d" % k, hessian_approx="GAUSS_NEWTON", nlp_solver_type="SQP", nlp_solver_max_iter=1, print_level=0, regularize_method="MIRROR", qp_solver="FULL_CONDENSING_HPIPM")
    s = common.make_solver(o, "d%d" % k)
    for i in range(N + 1):
        s.set(i, "x", np.array([rng.choice([rng.randint(-2, 2), rng.random(), rng.random() * 1e-7]) for _ in range(d["nx"])]))
    with common.quiet():
        s.solve()
    codes = {}

    def enc(f, v):
        v = np.array(v)
        rows = [[int(x) if x == round(x) and abs(x) < 10**6 else codes.setdefault(float(x), 10**6 + len(codes)) for x in r] for r in (v if v.ndim == 2 else v.reshape(1, -1))]
        if f in qpgen.MATS:
            return {"r": v.shape[0], "c": v.shape[1], "v": rows}
        return [x for r in rows for x in r]
    flds = lambda i: [f for f in FIELDS if not (i == N and f in qpgen.DYN)]
    init = {"N": N, "st": []}
    for i in range(N + 1):
        r = {}
        for f in flds(i):
            v = s.get_from_qp_in(i, f)
            r[f] = enc(f, v if f in qpgen.MATS else v.flatten())
        init["st"].append(r)
    ev = [{"op": "consistent", "raised": False, "dims": {}}]

    def load(via):
        with common.quiet():
            if via == "dict":
                return AcadosOcpQp.from_dict(s.get_last_qp())
            s.dump_last_qp_to_json("dump.json", overwrite=True, backend=via)
            return AcadosOcpQp.from_json("dump.json")
    for via in ("dict", "Python", "C"):
        try:
            o2 = load(via)
            if via == "dict":
                ev[0]["dims"] = {k2: [int(x) for x in getattr(o2.dims, k2)] for k2 in ("nx", "nu", "nbx", "nbu", "nb", "ng", "ns", "nbxe")}
            e = {"op": "dict", "via": via, "raised": False, "st": [{f: enc(f, getattr(o2, f)[i]) for f in flds(i)} for i in range(N + 1)], "int": True,
                 "masks": [bool(o2.has_slacks()), bool(o2.has_masks()), bool(o2.has_idxs_rev_not_idxs())]}
        except Exception as x:
            e = {"op": "dict", "via": via, "raised": True, "st": [], "int": True, "masks": [False] * 3, "err": repr(x)[:300]}
        ev.append(e)
    return {"q": init, "ev": ev}


def native(rng, job, k):
    from acados_template import AcadosOcpQpSolver, AcadosOcpQpOptions
    q = qpgen.gen("n%d-%d" % (job["seed"], k), **job["gen"])
    N = q["N"]
    ev = []
    for solver in job["solvers"]:
        o = qpgen.build(q)
        opts = AcadosOcpQpOptions()
        opts.qp_solver = solver
        for f in ("tol_stat", "tol_eq", "tol_ineq", "tol_comp"):
            setattr(opts, f, 1e-9 if "HPIPM" in solver else 1e-8)
        opts.iter_max = 200 if "HPIPM" in solver else 40000
        if "PARTIAL" in solver:
            opts.cond_N = rng.choice([N] if "OSQP" in solver else list(range(1, N + 1)))
            if rng.random() < .5 and opts.cond_N < N:
                cuts = sorted(rng.sample(range(1, N + 1), opts.cond_N)) if opts.cond_N else []
                cuts = [0] + cuts
                blocks = [b - a for a, b in zip(cuts, cuts[1:])]
                opts.cond_block_size = blocks + [N - sum(blocks)]
        if "HPIPM" in solver:
            opts.hpipm_mode = rng.choice(["BALANCE", "ROBUST"])
            opts.ric_alg = rng.choice([0, 1])
        opts.cond_ric_alg = rng.choice([0, 1])
        with common.quiet():
            s = AcadosOcpQpSolver(o, opts)
            for r in range(2):
                st = s.solve()
        hc = False      # the installed HPIPM records no objective in its statistics
        ev.append({"op": "solve", "solver": solver + " " + str(opts.cond_N if "PARTIAL" in solver else "") + str(opts.cond_block_size), "may_fail": True, "status": st, "sol": iterate(s, N),
                   "hascost": hc, "cost": near([2 * s.get_cost()])[0] if hc else 0})
    return {"q": q, "ev": ev}


def run(job):
    import warnings
    warnings.simplefilter("ignore")
    out = []
    for k in range(job["n"]):
        rng = random.Random("%s-%d" % (job["seed"], k))
        r = {"container": container, "casadi": casadi_form, "native": native, "dump": dump}[job["kind"]](rng, job, k)
        out.append({"tid": "%s/%d" % (job["name"], k), "init": r["q"], "ev": r["ev"]})
    return out


if __name__ == "__main__":
    common.main(run)
