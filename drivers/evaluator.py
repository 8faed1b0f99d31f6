"""Records what AcadosCostConstraintEvaluator and create_model_with_cost_state compute for random problems."""
import random

import numpy as np

from drivers import common, ocpgen
from drivers.common import ints


def fl(v):
    return ints(np.array(v, dtype=float).flatten())


class FakeSolver:
    def __init__(self, p, pg, saved):
        self.p, self.pg, self.save_p_global = p, pg, saved

    def get(self, i, f):
        assert f == "p"
        return np.array(self.p[i], dtype=float)

    def get_flat(self, f):
        assert f == "p_global"
        return np.array(self.pg, dtype=float)


def run(job):
    import warnings
    warnings.simplefilter("ignore")
    import casadi as ca
    from acados_template import AcadosOcpIterate
    from acados_template.mpc_utils import AcadosCostConstraintEvaluator, create_model_with_cost_state
    out = []
    for k in range(job["n"]):
        seed = job["seed"] * 10000 + k
        rng = random.Random(seed)
        d = ocpgen.gen(seed, **job["gen"])
        N, nx, nu = d["N"], d["nx"], d["nu"]
        R = lambda n, m=3: [rng.randint(-m, m) for _ in range(n)]
        A = lambda v: np.array(v, dtype=float)
        ev = []
        with common.quiet():
            e = AcadosCostConstraintEvaluator(ocpgen.build(d))
        for _ in range(job["len"]):
            op = rng.choice(["update", "eval", "eval", "ocpcost"])
            p = [R(d["np"], 2) for _ in range(N + 1)]
            pg = R(d["npg"], 2)
            given = rng.random() < .5
            kw = {"p": A(p).reshape(N + 1, d["np"]).T if d["np"] else None, "p_global": A(pg) if d["npg"] else None} if given else {}
            if op == "update":
                saved = rng.random() < .7
                with common.quiet():
                    e.update_all(FakeSolver(p, pg, saved))
                ev.append({"op": "update", "p": p, "pg": pg, "saved": saved})
            elif op == "eval":
                x, u, step = R(nx), R(nu), rng.randint(0, N - 1)
                r = e.evaluate(A(x), A(u), step, **kw)
                ev.append({"op": "eval", "x": x, "u": u, "step": step, "given": given, "p": p, "pg": pg,
                           "r": {"cost": ints(2 * r["cost"]), "noslack": ints(2 * r["cost_without_slacks"]), "slack": ints(2 * r["cost_slacks"]),
                                 "soft": fl(r["violation_soft_constraints"]), "hard": fl(r["violation_hard_constraints"])}})
            else:
                X, U = [R(nx) for _ in range(N + 1)], [R(nu) for _ in range(N)]
                o = [A([])] * (N + 1)
                it = AcadosOcpIterate(x=[A(v) for v in X], u=[A(v) for v in U], z=o[1:], sl=o, su=o, pi=o[1:], lam=o)
                ev.append({"op": "ocpcost", "x": X, "u": U, "given": given, "p": p, "pg": pg, "v": ints(2 * e.evaluate_ocp_cost(it, **kw))})
        if d["dyn"]["type"] == "ERK":
            with common.quiet():
                o = ocpgen.build(d)
                o.make_consistent()
                m, pv = create_model_with_cost_state(o)
            F = ca.Function("F", [m.x, m.xdot, m.u, m.p, m.p_global], [m.f_expl_expr, m.f_impl_expr])
            for _ in range(2):
                x, u, p, pg, xd = R(nx), R(nu), R(d["np"], 2), R(d["npg"], 2), R(nx)
                f = F(A(x + [0]), A(xd + [0]), A(u), A(p), A(pg))
                fe, cd = fl(f[0])[:nx], 2 * float(f[0][nx])
                G = F(A(x + [0]), A(xd + [cd / 2]), A(u), A(p), A(pg))
                ev.append({"op": "costdot", "x": x, "u": u, "p": p, "pg": pg, "xdot": xd, "f": fe, "impl": fl(G[1]), "v": ints(cd), "pv": fl(pv)})
        out.append({"tid": "%s/%d" % (job["name"], seed), "init": d, "ev": ev})
    return out


if __name__ == "__main__":
    common.main(run)
