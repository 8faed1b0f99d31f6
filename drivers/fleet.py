"""Histories of calls on several solver objects of one problem, alone and in a batch (specs/Fleet.tla)."""
import hashlib
import random

import casadi as ca
import numpy as np

from drivers import common

IT = ["x", "u", "z", "sl", "su", "pi", "lam"]
INNER = ("u", "z", "pi")
GRAIN = 1e-6


def tok(a):
    a = np.asarray(a, dtype=float).ravel(order="F") + 0.0
    if not a.size:
        return "-"
    a = np.where(np.isnan(a), np.nan, a)
    return hashlib.blake2b(a.tobytes(), digest_size=5).hexdigest()


def fixed(vs):
    out, good = [], True
    for v in vs:
        for x in np.asarray(v, dtype=float).ravel():
            if not np.isfinite(x) or abs(x) > 50:
                return [], False
            out.append(int(round(x / GRAIN)))
    return out, good


def problem(rng, kind, c):
    """one problem; c: choices"""
    from acados_template import AcadosModel, AcadosOcp
    o = AcadosOcp()
    m = AcadosModel()
    nx, nu, N = c["nx"], c["nu"], c["N"]
    x, u, p = ca.SX.sym("x", nx), ca.SX.sym("u", nu), ca.SX.sym("p", 2)
    pg = ca.SX.sym("pg", 1)
    m.x, m.u, m.p = x, u, p
    A = np.array([[rng.choice([-1, -.5, 0, .5]) for _ in range(nx)] for _ in range(nx)])
    B = np.array([[rng.choice([-1, .5, 1, 2]) for _ in range(nu)] for _ in range(nx)])
    f = ca.mtimes(A, x) + ca.mtimes(B, u) + .2 * ca.sin(x) * p[0]
    if c["pg"]:
        m.p_global = pg
        o.p_global_values = np.array([.25])
        f = f + .1 * pg * ca.cos(x)
    if c["dyn"] == "DISCRETE":
        m.disc_dyn_expr = x + .2 * f
    else:
        m.f_expl_expr = f
        xdot = ca.SX.sym("xdot", nx)
        m.xdot = xdot
        if c["z"]:
            z = ca.SX.sym("z", 1)
            m.z = z
            m.f_impl_expr = ca.vertcat(xdot - f - .1 * z, z - .5 * ca.sin(z) - x[0] - .2 * u[0])
        else:
            m.f_impl_expr = xdot - f
    o.model = m
    o.dims.N = o.solver_options.N_horizon = N
    o.parameter_values = np.array([1., .5])
    if c["cost"] == "LINEAR_LS":
        o.cost.cost_type = o.cost.cost_type_e = "LINEAR_LS"
        ny = nx + nu
        o.cost.W = np.diag([float(rng.choice([1, 2, 3])) for _ in range(ny)])
        o.cost.Vx, o.cost.Vu = np.vstack([np.eye(nx), np.zeros((nu, nx))]), np.vstack([np.zeros((nx, nu)), np.eye(nu)])
        if c["z"]:
            o.cost.Vz = np.zeros((ny, 1))
        o.cost.yref = np.array([rng.randint(-2, 2) / 4 for _ in range(ny)])
        o.cost.W_e, o.cost.Vx_e, o.cost.yref_e = 2 * np.eye(nx), np.eye(nx), np.zeros(nx)
    elif c["cost"] == "NONLINEAR_LS":
        o.cost.cost_type = o.cost.cost_type_e = "NONLINEAR_LS"
        m.cost_y_expr = ca.vertcat(x, u, .3 * ca.sin(x[0] * p[1]))
        o.cost.W, o.cost.yref = np.eye(nx + nu + 1), np.array([rng.randint(-2, 2) / 4 for _ in range(nx + nu + 1)])
        m.cost_y_expr_e, o.cost.W_e, o.cost.yref_e = x, np.eye(nx), np.zeros(nx)
    else:
        o.cost.cost_type = o.cost.cost_type_e = "EXTERNAL"
        m.cost_expr_ext_cost = ca.sumsqr(x - p[1]) + 2 * ca.sumsqr(u) + .1 * ca.cos(x[0])
        m.cost_expr_ext_cost_e = 3 * ca.sumsqr(x)
    o.constraints.x0 = np.array([rng.randint(-2, 2) / 4 for _ in range(nx)])
    if c["bounds"]:
        o.constraints.idxbu, o.constraints.lbu, o.constraints.ubu = np.arange(nu), -2. * np.ones(nu), 2. * np.ones(nu)
    if c["h"]:
        m.con_h_expr = ca.vertcat(x[0] + .3 * ca.sin(u[0]))
        o.constraints.lh, o.constraints.uh = np.array([-1.]), np.array([1.])
        o.constraints.idxsh = np.array([0])
        o.cost.zl = o.cost.zu = np.array([1.])
        o.cost.Zl = o.cost.Zu = np.array([2.])
    s = o.solver_options
    s.tf = .2 * N
    s.integrator_type = c["dyn"]
    s.sim_method_num_stages, s.sim_method_num_steps = (4, 1) if c["dyn"] == "ERK" else (2, c.get("steps", 1))
    s.nlp_solver_type = kind
    s.qp_solver = c["qp_solver"]
    s.hessian_approx = "EXACT" if c["exact"] else "GAUSS_NEWTON"
    if c["exact"]:
        s.regularize_method = c["reg"]
    s.qp_tol = 1e-10
    s.nlp_solver_max_iter = 1 if c.get("one") else c["max_iter"]
    if c.get("one"):
        s.tol = 1e-13
        s.qp_tol = 1e-10
    if kind != "SQP_RTI":
        s.globalization = c["glob"]
    s.levenberg_marquardt = c["lm"]
    s.qp_solver_warm_start = c["warm"]
    s.nlp_solver_warm_start_first_qp = c["warm_first"]
    s.nlp_solver_warm_start_first_qp_from_nlp = False
    s.with_batch_functionality = bool(c.get("batch"))
    if c.get("cond"):
        s.qp_solver_cond_N = rng.randint(1, N)
    return o


def choose(rng, kind, **kw):
    c = dict(nx=rng.randint(1, 2), nu=1, N=rng.randint(1, 3), dyn=rng.choice(["ERK", "ERK", "DISCRETE", "IRK"]), cost=rng.choice(["LINEAR_LS", "NONLINEAR_LS", "EXTERNAL"]), bounds=rng.random() < .7, h=rng.random() < .6,
             qp_solver=rng.choice(["PARTIAL_CONDENSING_HPIPM", "FULL_CONDENSING_HPIPM"]), exact=False, reg="NO_REGULARIZE", max_iter=rng.choice([1, 3, 20]), glob=rng.choice(["FIXED_STEP", "MERIT_BACKTRACKING", "FUNNEL_L1PEN_LINESEARCH"]),
             lm=rng.choice([0., .1]), warm=rng.choice([0, 0, 1, 2]), warm_first=rng.random() < .4, cond=rng.random() < .5, pg=rng.random() < .4)
    if rng.random() < .3:
        c.update(exact=True, reg=rng.choice(["MIRROR", "PROJECT"]))
    c["z"] = kw.get("dyn", c["dyn"]) == "IRK" and rng.random() < .5
    if c["z"]:
        c["glob"] = "FIXED_STEP"
        c["exact"] = False
        c["reg"] = "NO_REGULARIZE"
    c["steps"] = rng.choice([1, 1, 2])       # of IRK
    c.update(kw)
    return c


class Fleet:
    def __init__(self, job, seed, mode):
        self.rng = rng = random.Random(seed)
        self.mode, self.seed = mode, seed
        self.kind = {"history": rng.choice(["SQP", "SQP", "SQP_RTI"]), "rti": "SQP_RTI", "batch": rng.choice(["SQP", "SQP", "SQP_RTI"])}[mode]
        kw = dict(job.get("choices", {}))
        if self.kind == "SQP_WITH_FEASIBLE_QP":
            kw.update(qp_solver="PARTIAL_CONDENSING_HPIPM", glob="FUNNEL_L1PEN_LINESEARCH", exact=True, reg="MIRROR", z=False, lm=0., dyn=rng.choice(["ERK", "DISCRETE"]), cond=False)
        if mode == "rti":
            kw.update(warm=0, warm_first=False, z=False, dyn=rng.choice(["ERK", "DISCRETE"]))
        if mode == "batch":
            kw["batch"] = True
        # (the start of the first QP of SQP is that of the QP before, which a reset leaves alone)
        kw["warm_first"] = False
        if mode == "history":
            # what the condensing of the installed HPIPM returns depends on what it did before
            kw.update(qp_solver="PARTIAL_CONDENSING_HPIPM", cond=False)
        self.c = choose(rng, self.kind, **kw)
        if mode == "rti" and self.c["h"]:
            # condensing of soft constraints in two phases is not that at once in the installed HPIPM
            self.c["cond"] = False
        self.ev, self.objs = [], []
        self.inf_pool = {}

    # ------------------------------------------------------------ reading
    def stages(self, f):
        return range(self.N if f in INNER else self.N + 1)

    def data_fields(self, k):
        f = ["p"]
        if k == 0 or (k < self.N and False):
            f += ["lbx", "ubx"]
        if self.c["bounds"] and k < self.N:
            f += ["lbu", "ubu"]
        if self.c["h"] and 0 < k < self.N:
            f += ["lh", "uh", "zl", "Zu"]
        if self.c["cost"] != "EXTERNAL":
            f += ["yref", "W"]
        f.append("scaling")
        return f

    def read(self, s, f, k):
        if f in IT or f == "p":
            return s.get(k, f)
        if f in ("yref", "W", "zl", "Zu", "scaling"):
            return s.cost_get(k, f)
        return s.constraints_get(k, f)

    def write(self, s, f, k, v):
        if f in IT or f == "p":
            s.set(k, f, v)
        elif f in ("yref", "W", "zl", "Zu", "scaling"):
            s.cost_set(k, f, v, **({"api": "new"} if f == "W" else {}))
        else:
            s.constraints_set(k, f, v)

    def raw(self, s, only_it=False):
        r = {"%s:%d" % (f, k): self.read(s, f, k) for f in IT for k in self.stages(f)}
        if not only_it:
            for k in range(self.N + 1):
                for f in self.data_fields(k):
                    r["%s:%d" % (f, k)] = self.read(s, f, k)
        return r

    def hold(self, s, only_it=False):
        r = {k: tok(v) for k, v in self.raw(s, only_it).items()}
        if not only_it and self.c["pg"]:
            r["pg"] = tok(s.get_flat("p_global"))
        return r

    def outcome(self, s, status):
        raw = self.raw(s, True)
        fx, good = fixed([raw[k] for k in sorted(raw)])
        stats = []
        for q in ("nlp_iter", "qp_iter", "qp_stat", "statistics", "alpha"):
            try:
                with common.quiet():
                    stats.append(tok(s.get_stats(q)))
            except Exception as e:
                stats.append(type(e).__name__)
        good = good and status in (0, 2)
        rti = self.kind_of(s) == "SQP_RTI"
        if good and self.mode == "rti":
            with common.quiet():
                if rti:
                    good = status == 0 and int(np.ravel(s.get_stats("qp_stat"))[-1]) == 0
                else:
                    good = int(np.ravel(s.get_stats("nlp_iter"))[-1]) == 1 and int(np.ravel(s.get_stats("qp_stat"))[-1]) == 0
        return {"status": int(status), "val": {k: tok(v) for k, v in raw.items()}, "stats": stats, "fx": fx, "good": bool(good)}

    def kind_of(self, s):
        return self.kinds[[id(o) for o in self.objs].index(id(s))]

    # ------------------------------------------------------------ objects
    def build(self):
        rng = self.rng
        base = rng.getrandbits(40)
        self.N = self.c["N"]
        self.protos = {}
        kinds = [self.kind] + (["SQP"] if self.mode == "rti" else [])
        for kd in kinds:
            c = dict(self.c, one=self.mode == "rti" and kd == "SQP")
            if c["one"]:
                c["glob"] = "FIXED_STEP"
            o = problem(random.Random(base), kd, c)
            o.model.name = "fl%d_%d" % (self.seed, len(self.protos))
            self.protos[kd] = o
        self.kinds, self.objs, self.pgs = [], [], {}
        self.built = set()
        if self.mode != "batch":
            for kd in kinds:
                self.new(kd)
            if self.mode == "history":
                self.new(self.kind)

    def new(self, kd):
        from acados_template import AcadosOcpSolver
        o = self.protos[kd]
        if kd not in self.built:
            s = common.make_solver(o, o.model.name, save_p_global=self.c["pg"])
            self.built.add(kd)
        else:
            with common.quiet():
                s = AcadosOcpSolver(o, build=False, generate=False, verbose=False, save_p_global=self.c["pg"], check_reuse_possible=False)
        self.adopt(s, kd)
        self.ev.append({"op": "new", "kind": kd})
        self.dump()

    def adopt(self, s, kd):
        self.objs.append(s)
        self.kinds.append(kd)
        if not hasattr(self, "header"):
            raw = self.raw(s)
            val = self.hold(s)
            names = ("qp_warm_start", "warm_start_first_qp", "max_iter", "tol_stat", "levenberg_marquardt", "qp_tol_stat", "rti_phase", "globalization_fixed_step_length", "print_level")
            so = self.protos[kd].solver_options
            opt = {n: "default" for n in names}
            opt.update(qp_warm_start=str(self.c["warm"]), warm_start_first_qp=str(bool(self.c["warm_first"])), rti_phase="0")
            it = [k for k in raw if k.split(":")[0] in IT]
            self.header = {"zero": {k: tok(np.zeros(np.shape(raw[k]))) for k in it}, "def": {k: v for k, v in val.items() if k not in it}, "opt": opt, "fresh": val,
                           "carry": self.c["dyn"] == "IRK", "xkeys": ["x:%d" % k for k in range(self.N + 1)], "tol": int(1e-5 / GRAIN)}

    def dump(self):
        self.ev.append({"op": "hold", "vals": [self.hold(s) for s in self.objs], "st": [int(s.status) for s in self.objs]})

    # ------------------------------------------------------------ data
    def pool(self):
        """a few sets of values, so that situations recur"""
        rng, s = self.rng, self.objs[0]
        raw = self.raw(s)
        self.sets = []
        for n in range(3):
            v = {}
            for k in raw:
                f, i = k.split(":")[0], int(k.split(":")[1])
                q = np.asarray(raw[k])
                if f in IT:
                    if rng.random() < .5:
                        r = np.array([rng.randint(-4, 4) / 4 for _ in range(q.size)]).reshape(q.shape)
                        v[k] = np.abs(r) if f in ("sl", "su", "lam") else r
                    elif rng.random() < .5:
                        v[k] = np.zeros(q.shape)
                elif f == "p" and rng.random() < .4:
                    v[k] = q + rng.randint(-2, 2) / 4
                elif f == "yref" and rng.random() < .4:
                    v[k] = q + rng.randint(-2, 2) / 2
                elif f == "scaling" and rng.random() < .2:
                    v[k] = q * 2
                elif f in ("lbu", "lh") and rng.random() < .3:
                    v[k] = q - .5
                elif f in ("ubu", "uh") and rng.random() < .3:
                    v[k] = q + .5
                elif f == "W" and rng.random() < .2:
                    v[k] = 2 * q
            self.sets.append(v)
        self.x0s = [np.array([rng.randint(-3, 3) / 4 for _ in range(self.c["nx"])]) for _ in range(2)]
        self.lamz()

    def lamz(self):
        # multipliers of infinite bounds read as zero: keep what the object keeps
        s = self.objs[0]
        before = self.raw(s)
        for v in self.sets:
            for k in list(v):
                if k.startswith("lam"):
                    self.write(s, "lam", int(k[4:]), v[k])
                    v[k] = s.get(int(k[4:]), "lam")
                    self.write(s, "lam", int(k[4:]), before[k])

    def put(self, n, v):
        s = self.objs[n]
        for k in v:
            f, i = k.split(":")
            self.write(s, f, int(i), v[k])
        self.ev.append({"op": "set", "s": n + 1, "v": {k: tok(q) for k, q in v.items()}})

    def put_pg(self, n, x):
        v = np.array([x])
        with common.quiet():
            self.objs[n].set_p_global_and_precompute_dependencies(v)
        self.ev.append({"op": "set", "s": n + 1, "v": {"pg": tok(v)}})

    def put_x0(self, n, x):
        self.put(n, {"lbx:0": x, "ubx:0": x})

    def option(self, n, name, v):
        with common.quiet():
            self.objs[n].options_set(name, v)
        self.ev.append({"op": "opt", "s": n + 1, "name": name, "v": str(v)})

    def reset(self, n, **r):
        r = dict(dict(qp=True, num=False, opt=False, x0=False), **r)
        with common.quiet():
            self.objs[n].reset(reset_qp_solver_mem=r["qp"], reset_numerical_values=r["num"], reset_solver_options=r["opt"], reset_x_to_x0_bar=r["x0"])
        self.ev.append({"op": "reset", "s": n + 1, "r": r})
        self.dump()

    def solve(self, n):
        s = self.objs[n]
        with common.quiet():
            st = s.solve()
        self.ev.append({"op": "solve", "s": n + 1, "o": self.outcome(s, st)})

    # ------------------------------------------------------------ histories
    def bad(self, n):
        """something that makes a solve fail (the condensing of the installed HPIPM does not recover from nan)"""
        if self.c["qp_solver"] != "PARTIAL_CONDENSING_HPIPM" or self.c["cond"]:
            return
        w = self.rng.choice(["nan", "inf", "crossed", "huge"])
        if w == "nan":
            self.put(n, {"x:%d" % self.rng.randint(0, self.N): np.full(self.c["nx"], np.nan)})
        elif w == "inf":
            self.put(n, {"p:0": np.array([np.inf, 1.])})
        elif w == "crossed" and self.c["bounds"]:
            self.put(n, {"lbu:0": np.full(self.c["nu"], 3.), "ubu:0": np.full(self.c["nu"], -3.)})
        else:
            self.put(n, {"x:0": np.full(self.c["nx"], 1e200), "u:0": np.full(self.c["nu"], -1e200)})

    def good_again(self, n):
        d = self.first
        self.put(n, {k: v for k, v in d.items() if k.split(":")[0] not in IT})

    def history(self, length):
        rng = self.rng
        self.first = self.raw(self.objs[0])
        self.pool()
        for _ in range(length):
            n = rng.randrange(len(self.objs))
            r = rng.random()
            if self.c["pg"] and rng.random() < .3:
                self.put_pg(n, rng.choice([.25, -.5, 1.]))
            if r < .3:
                self.put(n, rng.choice(self.sets))
                if rng.random() < .5:
                    self.put_x0(n, rng.choice(self.x0s))
                self.solve(n)
            elif r < .55:
                # the situation of a new object, with data and options set again
                kw = dict(num=rng.random() < .6, opt=rng.random() < .6, x0=rng.random() < .3, qp=rng.random() < .9)
                if not kw["num"]:
                    self.good_again(n)
                self.reset(n, **kw)
                if rng.random() < .5:
                    self.put(n, rng.choice(self.sets))
                self.solve(n)
            elif r < .7:
                self.bad(n)
                self.solve(n)
                if rng.random() < .7:
                    self.good_again(n)
                    self.reset(n, num=rng.random() < .5, opt=rng.random() < .5)
                    self.solve(n)
            elif r < .85:
                names = [("qp_warm_start", [0, 1, 2]), ("levenberg_marquardt", [0., .5]), ("qp_tol_stat", [1e-8])]
                if self.kind != "SQP_RTI":
                    names += [("max_iter", [1, self.c["max_iter"]]), ("tol_stat", [1e-2, 1e-9])]
                name, vs = rng.choice(names)
                self.option(n, name, rng.choice(vs))
            else:
                self.solve(n)
                self.solve(n)
        self.dump()

    def rti(self, length):
        rng = self.rng
        self.first = self.raw(self.objs[0])
        self.pool()
        for _ in range(length):
            v = rng.choice(self.sets)
            x0 = rng.choice(self.x0s)
            start = dict(self.first)
            start.update(v)
            lm = rng.choice([0., .5])
            for n in (0, 1):
                self.put(n, start)
                if rng.random() < .2 or n == 1:
                    pass
            for n in (0, 1):
                self.option(n, "levenberg_marquardt", lm)
            todo = ["once", "split", "split_x0", "sqp"]
            rng.shuffle(todo)
            for w in todo:
                n = 1 if w == "sqp" else 0
                self.put(n, start)
                if w != "split_x0":
                    self.put_x0(n, x0)
                if w in ("split", "split_x0"):
                    self.option(0, "rti_phase", 1)
                    for _ in range(rng.choice([1, 1, 2])):
                        self.solve(0)
                    if w == "split_x0":
                        self.put_x0(0, x0)
                    self.option(0, "rti_phase", 2)
                    self.solve(0)
                    if rng.random() < .2:
                        self.solve(0)
                else:
                    if n == 0:
                        self.option(0, "rti_phase", 0)
                    self.solve(n)
                    if w == "once" and rng.random() < .3:
                        self.solve(0)
            if rng.random() < .3:
                self.bad(0)
                self.option(0, "rti_phase", 0)
                self.solve(0)
                self.put(0, start)
                self.reset(0, num=False)
            self.dump()

    # ------------------------------------------------------------ batch
    def split(self, f, row):
        out, k0 = {}, 0
        for k in self.stages(f) if f != "p" else range(self.N + 1):
            n = np.size(self.read(self.objs[0], f, k))
            out["%s:%d" % (f, k)] = row[k0:k0 + n]
            k0 += n
        return out

    def batch(self, length):
        import ctypes
        ctypes.CDLL("libgomp.so.1")          # its threads outlive the libraries of solvers
        from acados_template import AcadosOcpBatchSolver
        rng = self.rng
        o = self.protos[self.kind]
        n0 = rng.randint(1, 4)
        import os
        o.code_gen_opts.code_export_directory = os.path.abspath("c_" + o.model.name)
        o.code_gen_opts.json_file = os.path.abspath(o.model.name + ".json")
        with common.quiet():
            b = AcadosOcpBatchSolver(o, n0, num_threads_in_batch_solve=rng.randint(1, 4), verbose=False, save_p_global=self.c["pg"])
        self.b = b
        for s in b.ocp_solvers:
            self.adopt(s, self.kind)
            self.ev.append({"op": "new", "kind": self.kind})
        self.dump()
        self.first = self.raw(self.objs[0])
        self.pool()

        def grown():
            for s in b.ocp_solvers[len(self.objs):]:
                self.adopt(s, self.kind)
        def some(m):
            """how many: said, or as before"""
            return m if rng.random() < .6 else None

        for _ in range(length):
            if rng.random() < .2:
                b.num_threads_in_batch_solve = rng.randint(1, 4)
            r = rng.random()
            n = rng.randint(1, 5)
            if r < .35:
                f = rng.choice(IT + ["p"])
                vals = [rng.choice(self.sets) for _ in range(n)]
                stg = list(self.stages(f)) if f != "p" else list(range(self.N + 1))

                def of(v, k):
                    q = v.get(k, self.first[k])
                    return np.ravel(q)
                if rng.random() < .4:
                    k = rng.choice(stg)
                    key = "%s:%d" % (f, k)
                    a = np.array([of(v, key) for v in vals]).reshape(n, -1)
                    if f == "p" and a.shape[1] == 0:
                        continue
                    with common.quiet():
                        b.set(k, f, a)
                    self.ev.append({"op": "bset", "cur": b.n_batch_current, "vals": [{key: tok(of(v, key))} for v in vals]})
                else:
                    keys = ["%s:%d" % (f, k) for k in stg]
                    a = np.array([np.concatenate([of(v, k) for k in keys]) if keys else [] for v in vals])
                    with common.quiet():
                        b.set_flat(f, a)
                    self.ev.append({"op": "bset", "cur": b.n_batch_current, "vals": [{k: tok(of(v, k)) for k in keys} for v in vals]})
                grown()
            elif r < .45:
                m = some(rng.randint(1, b.n_batch_current))
                f = rng.choice(IT + ["p"])
                stg = list(self.stages(f)) if f != "p" else list(range(self.N + 1))
                if rng.random() < .5:
                    with common.quiet():
                        a = b.get_flat(f, m)
                    self.ev.append({"op": "bget", "cur": b.n_batch_current, "n": m or -1, "vals": [{k: tok(v) for k, v in self.split(f, row).items()} for row in a]})
                else:
                    k = rng.choice(stg)
                    with common.quiet():
                        a = b.get(k, f, m)
                    self.ev.append({"op": "bget", "cur": b.n_batch_current, "n": m or -1, "vals": [{"%s:%d" % (f, k): tok(row)} for row in a]})
            elif r < .5:
                with common.quiet():
                    m = some(rng.randint(1, b.n_batch_current))
                    it = b.get_flat_iterate(m)
                v = [{} for _ in range(it.N_batch)]
                for f in IT:
                    for i, row in enumerate(getattr(it, f)):
                        v[i].update({k: tok(q) for k, q in self.split(f, row).items()})
                self.ev.append({"op": "bget", "cur": b.n_batch_current, "n": m or -1, "vals": v})
                if rng.random() < .7:
                    # the iterates of the first objects, in another order
                    perm = [rng.randrange(it.N_batch) for _ in range(n)]
                    from acados_template.acados_ocp_iterate import AcadosOcpFlattenedBatchIterate
                    new = AcadosOcpFlattenedBatchIterate(**{f: getattr(it, f)[perm] for f in IT}, N_batch=n)
                    with common.quiet():
                        b.set_iterate(new)
                    self.ev.append({"op": "bset", "cur": b.n_batch_current, "vals": [v[i] for i in perm]})
                    grown()
            elif r < .58:
                k = "lbx" if rng.random() < .5 or not self.c["bounds"] else "ubu"
                vals = [rng.choice(self.x0s) if k == "lbx" else np.full(self.c["nu"], float(rng.randint(1, 3))) for _ in range(n)]
                with common.quiet():
                    b.constraints_set(0, k, np.array(vals))
                    if k == "lbx":
                        b.constraints_set(0, "ubx", np.array(vals))
                self.ev.append({"op": "bset", "cur": b.n_batch_current, "vals": [dict({k + ":0": tok(v)}, **({"ubx:0": tok(v)} if k == "lbx" else {})) for v in vals]})
                grown()
            elif r < .63 and self.c["pg"]:
                vals = np.array([[rng.choice([.25, -.5, 1.])] for _ in range(n)])
                with common.quiet():
                    b.set_p_global_and_precompute_dependencies(vals)
                self.ev.append({"op": "bset", "cur": b.n_batch_current, "vals": [{"pg": tok(v)} for v in vals]})
                grown()
            elif r < .7:
                kw = dict(qp=True, num=rng.random() < .5, opt=False, x0=rng.random() < .3)
                with common.quiet():
                    n = some(n)
                    b.reset(n, reset_qp_solver_mem=True, reset_numerical_values=kw["num"], reset_x_to_x0_bar=kw["x0"])
                self.ev.append({"op": "breset", "cur": b.n_batch_current, "n": n or -1, "r": kw})
                grown()
            elif r < .8:
                m = rng.randrange(len(self.objs))
                self.put(m, rng.choice(self.sets))
                if rng.random() < .5:
                    self.solve(m)
            elif r < .85:
                self.bad(rng.randrange(len(self.objs)))
            else:
                if rng.random() < .2:
                    m = len(self.objs) + rng.randint(1, 2)
                    try:
                        with common.quiet():
                            b.solve(m)
                        ref = False
                    except ValueError:
                        ref = True
                    self.ev.append({"op": "refused", "refused": ref})
                m = some(rng.randint(1, b.n_batch_current))
                with common.quiet():
                    b.solve(m)
                    st = b.status
                    os_ = [self.outcome(s, s._status if i % 2 else st[i]) for i, s in enumerate(b.ocp_solvers[:len(st)])]
                self.ev.append({"op": "bsolve", "cur": b.n_batch_current, "n": m or -1, "os": os_, "statuses": [int(q) for q in st]})
            self.dump()

    def run(self, length):
        self.build()
        {"history": self.history, "rti": self.rti, "batch": self.batch}[self.mode](length)
        c = {k: repr(v) for k, v in self.c.items()}
        return {"tid": "%s%d" % (self.mode, self.seed), "kind": self.kind, "opts": c, "init": self.header, "ev": self.ev}


def run(job):
    return [Fleet(job, job["seed"] * 1000 + k, job["mode"]).run(job["len"]) for k in range(job["n"])]


if __name__ == "__main__":
    common.main(run)
