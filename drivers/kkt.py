"""Problems with a known point that satisfies the optimality conditions, solved by real solvers (specs/Native.tla).

The point is constructed on the real solver: states by rollout, multipliers chosen, bounds and references of each stage set
such that the conditions hold.  The specification judges the data and what the solver returns."""
import random

import numpy as np

from drivers import common, native, ocpgen
from drivers.native import A, Sys, near
from drivers.ocpgen import vec

MK = 1000


def strict(d, free_u):
    """squares of all states and controls in every cost: the objective is strictly convex if it was convex"""
    nx, nu = d["nx"], d["nu"]
    nv = nx + nu + d["nz"] + d["np"] + d["npg"]
    for k in "0pe":
        c = d["cost"][k]
        vs = list(range(nx if k == "e" else nx + nu))
        n = len(vs)
        if c["type"] == "EXTERNAL":
            for v in vs:
                e = [0] * nv
                e[v] = 2
                c["e"].append([1, e])
            continue
        m = len(c["yref"])
        if c["type"] == "LINEAR_LS":
            for v in vs:
                c["Vx"].append([int(v == j) for j in range(nx)])
                if k != "e":
                    c["Vu"].append([int(v - nx == j) for j in range(nu)])
                if c["Vz"]:
                    c["Vz"].append([0] * d["nz"])
        else:
            for v in vs:
                e = [0] * nv
                e[v] = 1
                c["y"].append([[1, e]])
        c["yref"] = c["yref"] + [0] * n
        if c["type"].endswith("LS"):
            c["W"] = [r + [0] * n for r in c["W"]] + [[0] * m + [int(i == j) for j in range(n)] for i in range(n)]
        else:
            c["psi"] = [[t[0], t[1] + [0] * n] for t in c["psi"]] + [[1, [0] * (m + i) + [2] + [0] * (n - i - 1)] for i in range(n)]


def describe(seed, g, free_u):
    d = ocpgen.gen(seed, x0=(True,), **g)
    for q in range(50):
        if d["x0"]:
            break
        d = ocpgen.gen("%s'%d" % (seed, q), x0=(True,), **g)
    d["scaling"] = [1] * (d["N"] + 1) if free_u else d["scaling"]
    d["explicit_scaling"] = True
    strict(d, free_u)
    c = d["con"]["p"]
    rng = random.Random(str(seed))
    if not free_u:
        c["idxbu"] = rng.sample(range(d["nu"]), d["nu"])
        c["lbu"], c["ubu"] = [-5] * d["nu"], [5] * d["nu"]
        gone = len(c["idxsbu"])
        c["idxsbu"] = []
        for k in "0p":
            for f in d["slack"][k]:
                d["slack"][k][f] = d["slack"][k][f][gone:]
        for f in ("idxbu", "lbu", "ubu", "idxsbu"):
            d["con"]["0"][f] = c[f]
    return d


class Known(Sys):
    """manufactures a point and the data that make it satisfy the conditions"""

    def setlo(self, i, lo, up):
        self.lo[i], self.up[i] = lo, up
        self.set_bounds(i, lo, up)
        return [{"op": "set", "i": i, "f": "lo", "v": lo}, {"op": "set", "i": i, "f": "up", "v": up}]

    def lin(self, w):
        self.put(w)
        with common.quiet():
            self.s.get_residuals(recompute=True)
        return self.qp(("Zl", "Zu"))

    def make_point(self, rng, free_u):
        """(events, point) or None"""
        N, s = self.N, self.s
        w = {"x": [vec(rng, self.nx(0), -1, 1)] + [[0] * self.nx(i) for i in range(1, N + 1)], "u": [vec(rng, self.nu(i), -1, 1) for i in range(N)],
             "sl": [[0] * self.ns(i) for i in range(N + 1)], "su": [[0] * self.ns(i) for i in range(N + 1)],
             "pi": [[0] * self.nx(i + 1) for i in range(N)], "lam": [[0] * (2 * self.nc(i) + 2 * self.ns(i)) for i in range(N + 1)]}
        for i in range(N):
            b = self.lin(w)[i]["b"]
            w["x"][i + 1] = [x + y for x, y in zip(w["x"][i + 1], b)]
            if max(map(abs, w["x"][i + 1])) > 30:
                return None
        qp = self.lin(w)
        ev = []
        S = self.S
        dull = rng.choice([0, 0, 3, 6])
        pi = None
        bounds, yrefs = [], []
        for i in range(N, -1, -1):
            q = qp[i]
            val = [l - v for l, v in zip(self.lo[i], q["lbu"] + q["lbx"] + q["lg"])]
            nbu, nbx = len(q["lbu"]), len(q["lbx"])
            c, nc, ns, nx, nu = self.con(i), self.nc(i), self.ns(i), self.nx(i), self.nu(i)
            rows = [([0] * nx, [int(j == v) for j in range(nu)]) for v in (c["idxbu"] if i < N else [])] + \
                   [([int(j == v) for j in range(nx)], [0] * nu) for v in c["idxbx"]] + \
                   [(q["C"][k], q["D"][k] if i < N else []) for k in range(nc - nbu - nbx)]
            off, so = 0, [0] * nc
            m = 0
            for b, n in self.dims(i):
                for j in (c["idxs" + b] if not (b == "bx" and i == 0) else []):
                    m += 1
                    so[off + j] = m
                off += n
            lo, up = [0] * nc, [0] * nc
            lam = [0] * (2 * nc + 2 * ns)
            sc = self.sc[i]
            for k in range(nc):
                side = rng.choice(["l", "u", "n", "n"] + ["n"] * dull)
                fixed = i == 0 and nbu <= k < nbu + nbx
                for sd, o, sg in (("l", 0, 1), ("u", nc, -1)):
                    arr = lo if sd == "l" else up
                    mult, slack, margin = 0, 0, rng.randint(1, 4)
                    if fixed:
                        margin = 0
                    elif k < nbu and not free_u:
                        pass
                    elif side == sd:
                        margin = 0
                        mult = rng.randint(1, 3)
                        if so[k]:
                            z = sc * S[i]["z" + sd][so[k] - 1]
                            if z < 2 or rng.random() < .5:
                                slack = rng.randint(1, 2)
                                mult = z + sc * S[i]["Z" + sd][so[k] - 1] * slack
                            else:
                                mult = rng.randint(1, z - 1)       # strict complementarity: where it fails, solutions are as good as the root of the tolerance
                    if so[k]:
                        w["s" + sd][i][so[k] - 1] = slack
                        if slack == 0:
                            lam[2 * nc + (0 if sd == "l" else ns) + so[k] - 1] = sc * S[i]["z" + sd][so[k] - 1] - mult
                    lam[o + k] = mult
                    arr[k] = val[k] + sg * slack - sg * margin
            # stationarity
            tot = [lam[nc + k] - lam[k] for k in range(nc)]
            gx = [2 * sum(tot[k] * rows[k][0][j] for k in range(nc)) + q["q"][j] for j in range(nx)]
            gu = [2 * sum(tot[k] * rows[k][1][j] for k in range(nc)) + q["r"][j] for j in range(nu)] if i < N else []
            if i < N:
                gx = [g + 2 * sum(q["A"][r][j] * pi[r] for r in range(len(pi))) for j, g in enumerate(gx)]
                gu = [g + 2 * sum(q["B"][r][j] * pi[r] for r in range(len(pi))) for j, g in enumerate(gu)]
                w["pi"][i] = list(pi)
            if any(g % 2 for g in gx + gu):
                return None         # cannot happen
            gx, gu = [g // 2 for g in gx], [g // 2 for g in gu]
            if max(map(abs, gx + gu + [0])) > 2000:
                return None
            if i < N and free_u:
                y = list(self.yref[i])
                for j in range(nu):          # the last rows of the residual are x and u
                    y[len(y) - nu + j] += gu[j]
                yrefs.append((i, y))
            elif i < N:
                for k in range(nbu):
                    g = gu[c["idxbu"][k]]
                    if g > 0:
                        lam[k], lo[k] = g, val[k]
                    elif g < 0:
                        lam[nc + k], up[k] = -g, val[k]
            if i == 0:
                for k in range(nbu, nbu + nbx):
                    g = gx[c["idxbx"][k - nbu]]
                    lam[k if g > 0 else nc + k] = abs(g)
            w["lam"][i] = lam
            bounds.append((i, lo, up))
            pi = gx
        for i, y in yrefs:
            self.yref[i] = y
            s.cost_set(i, "yref", A(y))
            ev.append({"op": "set", "i": i, "f": "yref", "v": y})
        for i, lo, up in bounds:
            ev += self.setlo(i, lo, up)
        return ev, w

    def start(self):
        super().start()
        self.S = [self.d(i)["slack"][self.kind(i)] for i in range(self.N + 1)]
        self.sc = self.scaling
        self.yref = [list(self.d(i)["cost"][self.kind(i)]["yref"]) for i in range(self.N + 1)]

    def restore(self):
        """a reset leaves the data alone"""

    def answer(self):
        """what the solver returns: x, u, s as integers if they are, multipliers in fixed point"""
        r = self.read()
        w = {f: [[near6(x) for x in v] for v in r[f]] for f in ("x", "u", "sl", "su")}
        w.update({f: [[int(round(x * MK)) if abs(x) < 2e5 else common.NONINT for x in v] for v in r[f]] for f in ("pi", "lam")})
        return w


def near6(x):
    y = round(float(x)) if np.isfinite(x) else common.NAN
    if abs(y) > 10**7:
        return common.NONINT
    return int(y) if abs(x - y) < 5e-4 * max(1, abs(x)) else common.NONINT


def bad(w):
    return any(x == common.NONINT for f in w for v in w[f] for x in v)


def solver_opts(rng, d, g, kinds):
    types = {d["cost"][k]["type"] for k in "0pe"}
    N = d["N"]
    so = {"nlp_solver_type": rng.choice(kinds), "print_level": 0, "nlp_solver_max_iter": 60, "tol": rng.choice([1e-6, 1e-7]), "qp_solver_iter_max": 100,
          "qp_solver": rng.choice(["PARTIAL_CONDENSING_HPIPM"] * 3 + ["FULL_CONDENSING_HPIPM"] * 2),
          "hessian_approx": "GAUSS_NEWTON"}
    if not g.get("affine"):
        so["regularize_method"] = rng.choice(["MIRROR", "PROJECT"])
    else:
        so["regularize_method"] = rng.choice(["NO_REGULARIZE", "NO_REGULARIZE", "MIRROR", "PROJECT", "PROJECT_REDUC_HESS", "CONVEXIFY"][: 4])
    if so["qp_solver"][0] == "P":
        if rng.random() < .7:
            so["qp_solver_cond_N"] = rng.randint(1, N)
            if rng.random() < .5 and so["qp_solver_cond_N"] < N:
                c = so["qp_solver_cond_N"]
                cut = sorted(rng.sample(range(1, N + 1), c))          # HPIPM does not survive an empty block that is not the last
                bs = [b - a for a, b in zip([0] + cut, cut + [N])]
                so["qp_solver_cond_block_size"] = bs
    so["qp_solver_ric_alg"] = rng.choice([0, 1, 1])
    if so["qp_solver"][0] == "P":
        so["qp_solver_cond_ric_alg"] = rng.choice([0, 1])
    so["qp_solver_warm_start"] = rng.choice([0, 0, 1, 2])
    so["hpipm_mode"] = rng.choice(["BALANCE", "BALANCE", "SPEED", "ROBUST"])
    if rng.random() < .4:
        so["qpscaling_scale_objective"] = "OBJECTIVE_GERSHGORIN"
    if rng.random() < .4:
        so["qpscaling_scale_constraints"] = "INF_NORM"
    if so["nlp_solver_type"] == "SQP":
        so["globalization"] = rng.choice(["FIXED_STEP", "FIXED_STEP", "MERIT_BACKTRACKING", "FUNNEL_L1PEN_LINESEARCH"])
    if so["nlp_solver_type"] == "SQP_WITH_FEASIBLE_QP":
        so["globalization"] = "FUNNEL_L1PEN_LINESEARCH"
        so.pop("qpscaling_scale_objective", 0), so.pop("qpscaling_scale_constraints", 0)
    if so["nlp_solver_type"] == "SQP_RTI":
        so.pop("nlp_solver_max_iter")
        so.pop("qpscaling_scale_objective", 0), so.pop("qpscaling_scale_constraints", 0)
    return so


def one(rng, job, k):
    free_u = rng.random() < .5
    g = dict(job["gen"])
    if free_u:
        g["costs"] = ("LINEAR_LS", "NONLINEAR_LS")
    g.setdefault("phi", False)
    if rng.random() < job.get("phi", 0):
        g.update(phi=True, h=False, affine=False)
    d = describe("%s-%d-%d" % (job["name"], job["seed"], k), g, free_u)
    so = solver_opts(rng, d, g, job["kinds"])
    y = Known([d], None, None)
    y.infb = False
    name = "kk%s%d" % (job["name"], k)
    block = so.pop("qp_solver_cond_block_size", None)
    y.make(name, (lambda o: setattr(o.solver_options, "qp_solver_cond_block_size", block)) if block else None, **so)
    y.start()
    ev, stat, raw = [], [], []
    for _ in range(job["len"]):
        r = y.make_point(rng, free_u)
        if r is None:
            continue
        ev += r[0]
        w = r[1]
        ev.append({"op": "kkt", "w": w, "mk": 1, "cost2": cost(y, w)})
        best = ev[-1]["cost2"]
        start = rng.choice(["zero", "near", "last", "exact"]) if g.get("affine") else "near"
        if start == "zero":
            y.put({f: [[0] * len(v) for v in w[f]] for f in w})
        elif start != "last":
            y.put({f: [[x + (rng.uniform(-.05, .05) if start == "near" and f in ("x", "u") else 0) for x in v] for v in w[f]] for f in w})
        with common.quiet():
            st = y.s.solve()
            if so["nlp_solver_type"] == "SQP_RTI" and st == 0:
                st = y.s.solve()
                for _ in range(0 if g.get("affine") else 25):
                    st = y.s.solve() if st == 0 else st
                if not g.get("affine") and st == 0 and max(y.s.get_residuals(recompute=True)) > 1e-6:
                    st = 2
        stat.append([st, start])
        if st == 2 and g.get("affine") and so.get("globalization") == "FIXED_STEP" and so["nlp_solver_type"] == "SQP":
            # full steps with solved QPs of an affine problem that go nowhere: judged as an answer
            if not np.any(np.ravel(y.s.get_stats("qp_stat"))) and max(y.s.get_residuals()) > 1e-2:
                st = 0
        if st != 0:
            y.s.reset()
            y.restore()
            continue
        a = y.answer()
        raw.append(repr(y.read()))
        c2 = 2 * y.s.get_cost()
        c2 = round(c2) if abs(c2) < 10**8 and abs(c2 - round(c2)) < max(1e-2, min(.4, 1e-6 * abs(c2))) else common.NONINT
        unbounded = any(abs(x) == abs(common.NONINT) or abs(x) > 10**7 for f in ("pi", "lam") for v in a[f] for x in v)
        if bad({f: a[f] for f in ("x", "u", "sl", "su")}):
            if unbounded:
                stat[-1].append("unbounded multipliers, inexact")
                continue
            stat[-1].append("elsewhere")
            if g.get("affine"):          # the solution is unique, and it is w
                ev.append({"op": "elsewhere", "w": w, "got": a})
            continue
        if unbounded and not g.get("affine") and any(a[f] != w[f] for f in ("x", "u", "sl", "su")):
            stat[-1].append("elsewhere")
            continue
        if unbounded:            # no constraint qualification: the multipliers are not bounded
            a["pi"], a["lam"] = w["pi"], w["lam"]
            stat[-1].append("unbounded multipliers")
        ev.append({"op": "point" if unbounded else "kkt", "w": a, "mk": MK, "cost2": c2, "best": best})
    return {"tid": "%s-%d" % (job["name"], k), "raw": raw, "opts": repr(so), "kind": so["nlp_solver_type"], "stat": stat, "init": y.desc(), "ev": ev}


def cost(y, w):
    y.put(w)
    return near(y.s.get_cost(), 2)


def run(job):
    rng = random.Random("%s-%d" % (job["name"], job["seed"]))
    return [one(rng, job, k) for k in range(job["n"])]


if __name__ == "__main__":
    common.main(run)
