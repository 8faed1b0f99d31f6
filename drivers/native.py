"""What generated solvers compute at integer points of random problems of one or several phases (specs/Native.tla).

A Sys holds the problem as the specification sees it (phases, phase lengths, time steps, scaling) and the real solver.
"""
import copy
import random

import numpy as np

from drivers import common, ocpgen
from drivers.ocpgen import INFB, big, vec

QPM = ["Q", "R", "S", "A", "B", "C", "D"]
QPV = ["q", "r", "b", "zl", "zu", "Zl", "Zu", "lls", "lus"]
QPB = ["lbu", "lbx", "lg", "ubu", "ubx", "ug"]
TWICE = {"Q", "R", "S", "q", "r", "zl", "zu", "Zl", "Zu"}


def near(x, f=1):
    x = float(x) * f
    if np.isnan(x):
        return common.NAN
    y = round(x)
    return int(y) if abs(x - y) <= 1e-9 * max(1, abs(x)) and abs(y) < 2**31 - 1 else common.NONINT


def nears(v, f=1):
    return [near(x, f) for x in np.asarray(v, dtype=float).flatten()]


def nearm(m, f=1):
    return [nears(r, f) for r in np.asarray(m, dtype=float)]


def A(v):
    return np.array(v, dtype=float)


class Sys:
    """phases: descriptions (ocpgen), Ns: their lengths"""

    def __init__(self, phases, Ns=None, opt=None, multi=False):
        self.ph = phases
        self.Ns = Ns or [phases[0]["N"]]
        self.N = sum(self.Ns)
        self.dt = phases[0]["dt"] if Ns is None else [t for d, n in zip(phases, Ns) for t in d["dt"][:n]]
        self.scaling = phases[0]["scaling"] if Ns is None else self.dt + [1]
        self.opt = opt or {"exact": False, "cost": True, "dyn": True, "con": True}
        self.multi = multi
        self.same_names = False
        self.of = [k for k, n in enumerate(self.Ns) for _ in range(n)] + [len(self.Ns) - 1]

    def desc(self):
        return {"phases": self.ph, "Ns": self.Ns, "dt": self.dt, "scaling": self.scaling, "opt": self.opt}

    def d(self, i):
        return self.ph[self.of[i]]

    def kind(self, i):
        return "e" if i == self.N else "0" if i == 0 else "p"

    def con(self, i):
        return self.d(i)["con"][self.kind(i)]

    def nx(self, i):
        return self.d(i)["nx"]

    def nu(self, i):
        return 0 if i == self.N else self.d(i)["nu"]

    def dims(self, i):
        """numbers of constraints by block, in the order of the multipliers"""
        c = self.con(i)
        return [(b, len(c["l" + b]) if b != "bu" or i < self.N else 0) for b in ("bu", "bx", "g", "h", "phi")]

    def nc(self, i):
        return sum(n for _, n in self.dims(i))

    def ns(self, i):
        return len(self.d(i)["slack"][self.kind(i)]["zl"])

    def bounds(self, i):
        c = self.con(i)
        return [[v for b, n in self.dims(i) for v in c[s + b][:n]] for s in "lu"]

    def ny(self, i):
        return len(self.d(i)["cost"][self.kind(i)]["yref"])

    # ---- the real solver
    def make(self, name, edit=None, **so):
        o = self.ocp(name, **so)
        if edit:
            edit(o)
        self.s = common.make_solver(o, None if self.multi else name, **({"save_p_global": True} if self.ph[0]["npg"] else {}))
        return self.s

    def ocp(self, name, **so):
        if len(self.Ns) == 1 and not self.multi:
            return ocpgen.build(self.ph[0], name, **so)
        from acados_template import AcadosMultiphaseOcp
        m = AcadosMultiphaseOcp(N_list=list(self.Ns))
        pg = None
        with common.quiet():
            for k, d in enumerate(self.ph):
                o = ocpgen.build(d, name + ("" if self.same_names else "p%d" % k), pg)
                pg = o.model.p_global if self.ph[0]["npg"] else None
                m.set_phase(o, k)
        m.name = name
        if self.ph[0]["npg"]:
            m.p_global_values = A(self.ph[0]["pg"])
        m.solver_options.time_steps = A(self.dt)
        m.solver_options.tf = float(sum(self.dt))
        if self.scaling != self.dt + [1]:
            m.solver_options.cost_scaling = A(self.scaling)
        m.mocp_opts.integrator_type = [d["dyn"]["type"] for d in self.ph]
        for f, v in so.items():
            setattr(m.solver_options, f, v)
        k = [d["dyn"]["stages"] for d in self.ph], [d["dyn"]["steps"] for d in self.ph]
        # number of stages and steps of the integrator: one entry per shooting interval
        m.solver_options.sim_method_num_stages = np.array([k[0][self.of[i]] for i in range(self.N)])
        m.solver_options.sim_method_num_steps = np.array([k[1][self.of[i]] for i in range(self.N)])
        return m

    def set_bounds(self, i, lo, up):
        k = 0
        for b, n in self.dims(i):
            if n:
                self.s.constraints_set(i, "l" + b, big(lo[k:k + n]))
                self.s.constraints_set(i, "u" + b, big(up[k:k + n]))
            k += n

    def point(self, rng, lo=-2, hi=2, dual=3):
        N = self.N
        w = {"x": [vec(rng, self.nx(i), lo, hi) for i in range(N + 1)], "u": [vec(rng, self.nu(i), lo, hi) for i in range(N)],
             "sl": [vec(rng, self.ns(i), 0, 2) for i in range(N + 1)], "su": [vec(rng, self.ns(i), 0, 2) for i in range(N + 1)],
             "pi": [vec(rng, self.nx(i + 1), -2, 2) for i in range(N)], "lam": [vec(rng, 2 * self.nc(i) + 2 * self.ns(i), 0, dual) for i in range(N + 1)]}
        return w

    def put(self, w):
        for f in ("x", "u", "sl", "su", "pi", "lam"):
            for i, v in enumerate(w[f]):
                if v:
                    self.s.set(i, f, A(v))

    def read(self, scale=None):
        """the solver's iterate; multipliers of absent bounds are whatever it reports"""
        w = {}
        for f in ("x", "u", "sl", "su", "pi", "lam"):
            n = self.N + (f not in ("u", "pi"))
            w[f] = [np.array(self.s.get(i, f)).flatten() for i in range(n)]
        return w

    def qp(self, skip=()):
        out = []
        s = self.s
        for i in range(self.N + 1):
            r = {}
            for f in QPM + QPV:
                if f in skip or i == self.N and f in ("A", "B", "b"):
                    continue
                v = s.get_from_qp_in(i, f)
                m = 2 if f in TWICE else 1
                if f in QPM:
                    r[f] = nearm(v, m) if np.shape(v)[0] else []
                else:
                    r[f] = nears(v, m)
            if i == self.N:
                r["A"], r["B"], r["b"] = [], [], []
                r["R"], r["S"], r["r"] = [], [], []
                r["D"] = [[] for _ in r["C"]]
            for f in QPB:
                mk = nears(s.get_from_qp_in(i, f + "_mask"))
                v = nears(s.get_from_qp_in(i, f))
                r[f + "_mask"], r[f] = mk, [x if k else 0 for x, k in zip(v, mk)]
            out.append(r)
        return out

    def masked(self, w):
        """lam is zero where the bound is absent"""
        w = copy.deepcopy(w)
        for i in range(self.N + 1):
            nc = self.nc(i)
            for s, k0 in ((self.lo[i], 0), (self.up[i], nc)):
                for k, v in enumerate(s):
                    if abs(v) >= INFB:
                        w["lam"][i][k0 + k] = 0
        return w

    def start(self):
        """the data of the stages, as the history changes them"""
        self.lo, self.up = [list(v) for v in zip(*[self.bounds(i) for i in range(self.N + 1)])]
        self.p = [list(self.d(i)["p"]) for i in range(self.N + 1)]

    # ---- events
    def look(self, rng, w=None, ask=True):
        s = self.s
        w = self.masked(w or self.point(rng))
        self.put(w)
        rti = s.ocp.solver_options.nlp_solver_type == "SQP_RTI" and rng.random() < .5
        with common.quiet():
            c = s.get_cost()
            if rti:
                s.options_set("rti_phase", 1)
                s.solve()
                s.options_set("rti_phase", 2)
                s.solve()
            else:
                r = s.get_residuals(recompute=True)
        if not rti:
            return {"op": "look", "w": w, "cost2": near(c, 2), "qp": self.qp(("Zl", "Zu")), "res": [near(r[0], 2)] + nears(r[1:])}
        return {"op": "look", "w": w, "cost2": near(c, 2), "qp": self.qp(), "res": []}

    def change(self, rng, what):
        """one update of the data, or None if there is nothing to change"""
        s, N = self.s, self.N
        i = rng.randint(0, N)
        if what == "p":
            if not self.p[i]:
                return None
            how = rng.choice(["set", "sparse", "flat"])
            n = len(self.p[i])
            if how == "set":
                v = vec(rng, n, -2, 2)
                self.p[i] = list(v)
                s.set(i, "p", A(v))
                return {"op": "set", "i": i, "f": "p", "v": v}
            if how == "sparse":
                idx = rng.sample(range(n), rng.randint(1, n))
                v = vec(rng, len(idx), -2, 2)
                for j, x in zip(idx, v):
                    self.p[i][j] = x
                s.set_params_sparse(i, np.array(idx), A(v))
                return {"op": "sparse", "i": i, "idx": idx, "v": v}
            v = [vec(rng, len(q), -2, 2) for q in self.p]
            self.p = [list(x) for x in v]
            v = [x for q in v for x in q]
            s.set_flat("p", A(v))
            return {"op": "flatp", "v": v}
        if what == "pg":
            n = self.ph[0]["npg"]
            if not n:
                return None
            v = vec(rng, n, -2, 2)
            with common.quiet():
                s.set_p_global_and_precompute_dependencies(A(v))
            return {"op": "pg", "v": v}
        if what == "yref":
            n = self.ny(i)
            if not n:
                return None
            v = vec(rng, n)
            s.cost_set(i, "yref", A(v))
            return {"op": "set", "i": i, "f": "yref", "v": v}
        if what == "W":
            c = self.d(i)["cost"][self.kind(i)]
            if not c["type"].endswith("LS"):
                return None
            v = ocpgen.psd(rng, len(c["W"]))
            s.cost_set(i, "W", A(v))
            return {"op": "set", "i": i, "f": "W", "v": v}
        if what == "sc":
            v = rng.randint(1, 4)
            s.cost_set(i, "scaling", float(v))
            return {"op": "set", "i": i, "f": "sc", "v": v}
        if what == "S":
            n = self.ns(i)
            if not n:
                return None
            v = {f: vec(rng, n, 1, 5) for f in ("zl", "zu", "Zl", "Zu")}
            for f in v:
                s.cost_set(i, f, A(v[f]))
            return {"op": "set", "i": i, "f": "S", "v": v}
        if what in ("lo", "up"):
            if not self.nc(i):
                return None
            fixed = i == 0 and self.d(0)["x0"]
            v = []
            k = 0
            for b, n in self.dims(i):
                for _ in range(n):
                    x = rng.randint(-6, 0) if what == "lo" else rng.randint(0, 6)
                    if self.infb and rng.random() < .2:
                        x = -INFB if what == "lo" else INFB
                    v.append(self.lo[i][k] if fixed and b == "bx" else x)
                    k += 1
            if what == "lo":
                self.lo[i] = v
            else:
                self.up[i] = v
            self.set_bounds(i, self.lo[i], self.up[i])
            return {"op": "set", "i": i, "f": what, "v": v}
        raise KeyError(what)


def sysgen(rng, job, seed):
    g = dict(job["gen"])
    g.setdefault("phi", False)
    if rng.random() < job.get('phi', .3):
        g.update(phi=True, h=False)
    d = ocpgen.gen(seed, **g)
    return d


def opts(rng, d, g):
    so = {"nlp_solver_type": rng.choice(["SQP_RTI", "SQP_RTI", "SQP", "SQP_WITH_FEASIBLE_QP"]), "hessian_approx": "GAUSS_NEWTON", "print_level": 0,
          "qp_solver": rng.choice(["PARTIAL_CONDENSING_HPIPM", "FULL_CONDENSING_HPIPM"]), "qp_solver_iter_max": 20}
    types = {d["cost"][k]["type"] for k in "0pe"}
    opt = {"exact": False, "cost": True, "dyn": True, "con": True}
    smooth = d["dyn"]["type"] == "DISCRETE" or g.get("affine")
    if smooth and "CONVEX_OVER_NONLINEAR" not in types and not any(c["phi"] for c in d["con"].values()) and rng.random() < .5:
        so["hessian_approx"] = "EXACT"
        opt["exact"] = True
        for k, f in (("cost", "exact_hess_cost"), ("dyn", "exact_hess_dyn"), ("con", "exact_hess_constr")):
            opt[k] = rng.random() < .75 or k == "cost" and "EXTERNAL" in types
            so[f] = int(opt[k])
    return so, opt


def one(rng, job, k):
    d = sysgen(rng, job, "%s-%d-%d" % (job["name"], job["seed"], k))
    so, opt = opts(rng, d, job["gen"])
    return history(rng, job, k, Sys([d], None, opt), so)


def history(rng, job, k, y, so):
    y.infb = job["gen"].get("infb", False)
    y.make("nv%s%d" % (job["name"], k), **so)
    y.start()
    ev = [y.look(rng)]
    for _ in range(job["len"]):
        op = rng.choice(job["ops"])
        if op == "look":
            e = y.look(rng)
        else:
            e = y.change(rng, op)
        if e:
            ev.append(e)
    return {"tid": "%s-%d" % (job["name"], k), "opts": repr(so), "init": y.desc(), "ev": ev}


def phases(rng, job, k):
    """descriptions that can follow each other: the number of states changes only over a discrete phase of one step"""
    seed = "%s-%d-%d" % (job["name"], job["seed"], k)
    n = rng.choice([1, 2, 2, 3])
    g = dict(job["gen"])
    g.setdefault("phi", False)
    sym = rng.choice(["SX", "MX"])
    pg = rng.choice([0, 0, 1, 2])
    g.update(npg=(pg, pg), sym=(sym,))
    nxs = [rng.randint(1, 3)]
    out, Ns = [], []
    pgv = vec(rng, pg)
    for j in range(n):
        Ns.append(rng.randint(1, 3))
        gj = dict(g, nx=(nxs[-1],) * 2, N=(3, 3))
        trans = j < n - 1 and rng.random() < .4
        if trans:
            Ns[-1] = 1
            gj["dyn"] = ["DISCRETE"]
        d = ocpgen.gen("%s-%d" % (seed, j), **gj)
        if trans:
            nx2 = rng.randint(1, 3)
            d["dyn"]["f"] = (d["dyn"]["f"] * 3)[:nx2]
            nxs.append(nx2)
        else:
            nxs.append(nxs[-1])
        d["pg"] = pgv
        d["explicit_scaling"] = False
        out.append(d)
    return out, Ns


def multi(rng, job, k):
    ds, Ns = phases(rng, job, k)
    so, opt = opts(rng, ds[0], job["gen"])
    opt["exact"] = False
    so["hessian_approx"] = "GAUSS_NEWTON"
    y = Sys(ds, Ns, opt, True)
    so.pop("exact_hess_cost", 0), so.pop("exact_hess_dyn", 0), so.pop("exact_hess_constr", 0)
    y.same_names = rng.random() < .5
    if rng.random() < .4:
        y.scaling = [rng.randint(1, 3) for _ in range(y.N + 1)]
    return history(rng, job, k, y, so)


def run(job):
    rng = random.Random("%s-%d" % (job["name"], job["seed"]))
    return [{"one": one, "multi": multi}[job.get("kind", "one")](rng, job, k) for k in range(job["n"])]


if __name__ == "__main__":
    common.main(run)
