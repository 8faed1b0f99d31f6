"""Records what the CasADi translation of random problems contains, and histories of its solver object."""
import random

import numpy as np

from drivers import common, ocpgen
from drivers.common import ints

INFB = ocpgen.INFB


def bnd(v):
    out = []
    for x in np.array(v, dtype=float).flatten():
        if x >= 1e9:
            out.append(INFB)
        elif x <= -1e9:
            out.append(-INFB)
        else:
            out.append(ints(x))
    return out


def fl(v):
    """a vector as a flat list of ints"""
    return ints(np.array(v, dtype=float).flatten())


class Fake:
    """stands for the casadi nlpsol object"""

    def __init__(self, rec):
        self.rec = rec
        self.next = None

    def __call__(self, **kw):
        import casadi as ca
        i = {"x0": fl(kw["x0"]), "p": fl(kw["p"]), "lamx0": fl(kw["lam_x0"]), "lamg0": fl(kw["lam_g0"]),
             "lbx": bnd(kw["lbx"]), "ubx": bnd(kw["ubx"]), "lbg": bnd(kw["lbg"]), "ubg": bnd(kw["ubg"])}
        s = self.next(i)
        self.rec.append({"op": "solve", "in": i, "sol": s})
        return {"x": ca.DM(s["w"]), "g": ca.DM(s["g"]), "lam_g": ca.DM(s["lamg"]), "lam_x": ca.DM(s["lamx"]),
                "lam_p": ca.DM.zeros(1, 1), "f": ca.DM(s["f"])}

    def stats(self):
        return {"return_status": "Solve_Succeeded", "iter_count": 1, "t_wall_total": 0.0}


class Rec:
    def __init__(self, d, rng, opts):
        self.d, self.rng = d, rng
        self.ev = []
        from acados_template.acados_casadi_ocp_solver import AcadosCasadiOcpSolver
        self.ocp = ocpgen.build(d, **opts)
        with common.quiet():
            self.s = AcadosCasadiOcpSolver(self.ocp, use_acados_hessian=False)
        self.fake = Fake(self.ev)
        self.s.casadi_solver = self.fake

    def r(self, n, lo=-4, hi=4):
        return [self.rng.randint(lo, hi) for _ in range(n)]

    def ns(self, i):
        return len(self.s.index_map["sl_h_in_w"][i])

    def nu(self, i):
        return self.d["nu"] if i < self.d["N"] else 0

    def kind(self, i):
        return "e" if i == self.d["N"] else "0" if i == 0 else "p"

    def ncon(self, i):
        c = self.d["con"][self.kind(i)]
        return (len(c["idxbu"]) if i < self.d["N"] else 0) + len(c["idxbx"]) + len(c["C"]) + len(c["h"]) + len(c["phi"])

    def nlam(self, i):
        return 2 * self.ncon(i) + 2 * self.ns(i)

    def create(self):
        s = self.s
        im = s.index_map
        L = [[int(v) for v in st] for st in im["x_in_w"]]
        m = {"x": L, "u": [[int(v) for v in st] for st in im["u_in_w"]], "sl": [[int(v) for v in st] for st in im["sl_h_in_w"]],
             "su": [[int(v) for v in st] for st in im["su_h_in_w"]], "pi": [[int(v) for v in st] for st in im["pi_in_lam_g"]]}
        self.ev.append({"op": "create", "w0": fl(s.w0), "p": fl(s.p), "lbw": bnd(s.bounds["lbx"]), "ubw": bnd(s.bounds["ubx"]),
                        "lbg": bnd(s.bounds["lbg"]), "ubg": bnd(s.bounds["ubg"]), "lamx0": fl(s.lam_x0), "lamg0": fl(s.lam_g0), "map": m})

    def evaluate(self, n=2):
        import casadi as ca
        nlp = self.s.casadi_nlp
        F = ca.Function("F", [nlp["x"], nlp["p"]], [nlp["f"], nlp["g"]])
        for _ in range(n):
            w, p = self.r(nlp["x"].numel(), -3, 3), self.r(nlp["p"].numel(), -2, 2)
            f, g = F(w, p)
            self.ev.append({"op": "eval", "w": w, "p": p, "f2": ints(2 * float(f)), "g": fl(g)})

    def single(self):
        """the single-shooting program and the states its solver reports"""
        import casadi as ca
        from acados_template.acados_casadi_ocp_solver import AcadosCasadiOcpSolver
        with common.quiet():
            s = AcadosCasadiOcpSolver(ocpgen.build(self.d), use_single_shooting=True)
        nlp = s.casadi_nlp
        F = ca.Function("F", [nlp["x"], nlp["p"]], [nlp["f"], nlp["g"]])
        w, p = self.r(nlp["x"].numel(), -2, 2), self.r(nlp["p"].numel(), -2, 2)
        f, g = F(w, p)
        fake = Fake([])
        fake.next = lambda i: {"w": w, "lamx": [0] * len(i["x0"]), "lamg": [0] * len(i["lamg0"]), "g": [0] * len(i["lamg0"]), "f": 0}
        s.casadi_solver = fake
        s.p = np.array(p, dtype=float)
        s.solve()
        N = self.d["N"]
        self.ev.append({"op": "single", "w": w, "p": p, "f2": ints(2 * float(f)), "g": fl(g), "x": [fl(s.get(i, "x")) for i in range(N + 1)],
                        "u": [fl(s.get(i, "u")) for i in range(N)], "lbw": bnd(s.bounds["lbx"]), "ubw": bnd(s.bounds["ubx"]),
                        "lbg": bnd(s.bounds["lbg"]), "ubg": bnd(s.bounds["ubg"])})

    def hess(self, ho):
        """the Hessian approximations, in problems of their own"""
        from acados_template.acados_casadi_ocp import AcadosCasadiOcp
        o = ocpgen.build(self.d, hessian_approx="EXACT" if ho["exact"] else "GAUSS_NEWTON")
        if ho["exact"]:
            o.solver_options.exact_hess_dyn = int(ho["dyn"])
            o.solver_options.exact_hess_constr = int(ho["con"])
        with common.quiet():
            n = AcadosCasadiOcp(o, with_hessian=True)
        nlp = n.nlp
        w, p = self.r(nlp["x"].numel(), -2, 2), self.r(nlp["p"].numel(), -2, 2)
        lamf, lamg = self.rng.randint(1, 3), self.r(nlp["g"].numel(), -3, 3)
        H = np.array(n.nlp_hess_l_custom(w, p, lamf, lamg))
        self.ev.append({"op": "hess", "w": w, "p": p, "lamf": lamf, "lamg": lamg, "o": ho, "H": [ints(np.round(2 * row, 6)) for row in H]})

    def lamval(self, i):
        """nonnegative; lower and upper of one constraint may both be nonzero, except where soft (then separate rows)"""
        return [self.rng.choice([0, 0, 1, 2, 3, 5]) for _ in range(self.nlam(i))]

    def value(self, i, f):
        n = {"x": self.d["nx"], "u": self.nu(i), "sl": self.ns(i), "su": self.ns(i), "pi": self.d["nx"]}
        return self.lamval(i) if f == "lam" else self.r(n[f], -9, 9)

    def op(self, name):
        s, d, rng = self.s, self.d, self.rng
        N = d["N"]
        A = lambda v: np.array(v, dtype=float)
        if name == "set":
            f = rng.choice(["x", "u", "sl", "su", "pi", "lam", "lam"])
            i = rng.randint(0, N - 1 if f in ("u", "pi") else N)
            v = self.value(i, f)
            s.set(i, f, A(v))
            self.ev.append({"op": "set", "i": i, "f": f, "v": v})
        elif name in ("setflat", "setit"):
            from acados_template import AcadosOcpIterate, AcadosOcpFlattenedIterate
            fs = [rng.choice(["x", "u", "sl", "su", "pi", "lam"])] if name == "setflat" else ["x", "u", "sl", "su", "pi", "lam"]
            tr = {f: [] for f in ("x", "u", "sl", "su", "pi", "lam")}
            for f in fs:
                tr[f] = [self.value(i, f) for i in range(N if f in ("u", "pi") else N + 1)]
            if name == "setflat":
                s.set_flat(fs[0], A([v for t in tr[fs[0]] for v in t]))
            elif rng.random() < .5:
                s.set_iterate(AcadosOcpIterate(z=[A([])] * N, **{f: [A(v) for v in tr[f]] for f in fs}))
            else:
                s.set_iterate(AcadosOcpFlattenedIterate(z=A([]), **{f: A([v for t in tr[f] for v in t]) for f in fs}))
            self.ev.append({"op": "traj", "tr": tr})
        elif name == "param":
            f = rng.choice(["p", "yref", "pg"])
            i = rng.randint(0, N)
            if f == "p":
                v = self.r(d["np"])
                s.set(i, "p", A(v))
            elif f == "yref":
                v = self.r(len(d["cost"][self.kind(i)]["yref"]))
                (s.set if rng.random() < .5 else s.cost_set)(i, "yref", A(v))
            else:
                v = self.r(d["npg"])
                s.set_p_global_and_precompute_dependencies(A(v))
            self.ev.append({"op": "param", "i": i, "f": f, "v": v})
        elif name == "sparse":
            i = rng.randint(0, N)
            idx = rng.sample(range(d["np"]), rng.randint(0, d["np"]))
            if not idx:
                return
            v = self.r(len(idx))
            s.set_params_sparse(i, np.array(idx), A(v))
            self.ev.append({"op": "sparse", "i": i, "idx": idx, "v": v})
        elif name in ("bound", "bget"):
            i = rng.randint(0, N)
            c = d["con"][self.kind(i)]
            b = rng.choice(["bx", "bu", "g", "h", "phi"] if i < N else ["bx", "g", "h", "phi"])
            if b == "h" and self.ns(i):
                return                      # soft constraints have no single row
            n = {"bx": len(c["idxbx"]), "bu": len(c["idxbu"]), "g": len(c["C"]), "h": len(c["h"]), "phi": len(c["phi"])}[b]
            if not n:
                return
            f = rng.choice("lu") + b
            if name == "bound":
                v = self.r(n, -9, 9)
                if b in ("bx", "bu") and rng.random() < .5:
                    s.set(i, f, A(v))
                else:
                    s.constraints_set(i, f, A(v))
                self.ev.append({"op": "bound", "i": i, "f": f, "v": v})
            else:
                self.ev.append({"op": "bget", "i": i, "f": f, "v": bnd(s.constraints_get(i, f))})
        elif name == "cget":
            i = rng.randint(0, N)
            k = self.kind(i)
            f = rng.choice(["yref", "zl", "zu", "Zl", "Zu"] + (["W"] if d["cost"][k]["type"] in ("LINEAR_LS", "NONLINEAR_LS") else []))
            v = s.cost_get(i, f)
            v = [fl(row) for row in np.array(v)] if f == "W" else fl(v)
            self.ev.append({"op": "cget", "i": i, "f": f, "v": v})
        elif name == "solve":
            def answer(i):
                a = answer0(i)
                a.update(g=self.r(len(i["lamg0"]), -9, 9), f=rng.randint(-9, 9))
                return a

            def answer0(i):
                if rng.random() < .4:       # a solver that returns its initial guess
                    return {"w": i["x0"], "lamx": i["lamx0"], "lamg": i["lamg0"]}
                lamg = self.r(len(i["lamg0"]), -9, 9)
                lamx = self.r(len(i["lamx0"]), -9, 9)
                im = s.index_map
                for k in range(N + 1):
                    for j in im["lam_gnl_sl_in_lam_g"][k]:
                        lamg[j] = -abs(lamg[j])
                    for j in im["lam_gnl_su_in_lam_g"][k]:
                        lamg[j] = abs(lamg[j])
                    for j in list(im["lam_sl_h_in_lam_w"][k]) + list(im["lam_su_h_in_lam_w"][k]):
                        lamx[j] = -abs(lamx[j])
                return {"w": self.r(len(i["x0"]), -9, 9), "lamx": lamx, "lamg": lamg}
            self.fake.next = answer
            s.solve()
        elif name == "get":
            if s.nlp_sol is None:
                return
            f = rng.choice(["x", "u", "sl", "su", "pi", "lam", "lam", "p", "z"])
            i = rng.randint(0, N - 1 if f in ("u", "pi", "z") else N)
            self.ev.append({"op": "get", "i": i, "f": f, "v": fl(s.get(i, f))})
        elif name == "cval":
            if s.nlp_sol is None:
                return
            i = rng.randint(0, N)
            v, lam = s.constraints_value_get(i)
            self.ev.append({"op": "cval", "i": i, "v": fl(v), "lam": fl(lam), "f": ints(s.get_cost())})
        elif name == "getflat":
            if s.nlp_sol is None:
                return
            f = rng.choice(["x", "u", "sl", "su", "pi", "lam", "p", "p_global", "z"])
            self.ev.append({"op": "getflat", "f": f, "v": fl(s.get_flat(f))})
        elif name == "getit":
            if s.nlp_sol is None:
                return
            it = s.get_iterate()
            fi = s.get_flat_iterate()
            self.ev.append({"op": "getit", "it": {f: [fl(v) for v in getattr(it, f)] for f in ("x", "u", "z", "sl", "su", "pi", "lam")}})
            for f in ("x", "u", "z", "sl", "su", "pi", "lam"):
                self.ev.append({"op": "getflat", "f": f, "v": fl(getattr(fi, f))})


OPS = ["set"] * 4 + ["setflat", "setit", "param", "param", "sparse", "bound", "bound", "bget", "cget", "solve", "solve", "get", "get", "get", "getflat", "getit", "cval"]


def run(job):
    import warnings
    warnings.simplefilter("ignore")
    out = []
    for k in range(job["n"]):
        seed = job["seed"] * 10000 + k
        rng = random.Random(seed)
        d = ocpgen.gen(seed, stages=(4,), **job["gen"])
        r = Rec(d, rng, {})
        r.create()
        r.evaluate()
        if job.get("single") and d["x0"]:
            r.single()
        for ho in job["hess"]:
            if ho["exact"] is False and len({d["cost"][q]["type"] for q in "0pe"}) > 1:
                continue
            r.hess(ho)
        for _ in range(job["len"]):
            r.op(rng.choice(OPS))
        out.append({"tid": "%s/%d" % (job["name"], seed), "init": d, "ev": r.ev})
    return out


if __name__ == "__main__":
    common.main(run)
