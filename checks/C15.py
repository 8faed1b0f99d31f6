"""C15: a stage-structured QP object means the same QP in every representation."""
from vlib import *

TECHNIQUE = "TLA+ specification of QP data, consistency and optimality conditions (OcpQp); trace validation of container histories, CasADi form and solver answers"
NOTE = ("Random integer QPs (varying dimensions, soft, shared slacks, masks, equalities) with a known strictly complementary solution: container histories, storing and loading, the CasADi form "
        "at integer points, writing and reading iterates, and the solutions of HPIPM (partial with every block size, full), OSQP and IPOPT judged against the optimality conditions in TLA+ after "
        "rounding (2e-3). Masked slack bounds are not given to the installed HPIPM, which does not support them. Solver failures are tolerated up to 10%.")


def main(ctx):
    q = ctx.quick
    jobs = []
    for k, g in enumerate([dict(shared=True, unsorted=True), dict(N=(8, 11), nx=(1, 2), nu=(0, 1), unsorted=True, rank=False), dict(N=(1, 4), nu=(1, 2))]):
        jobs.append({"name": "con%d" % k, "kind": "container", "seed": ctx.seed * 100 + k, "n": 15 if q else 150, "len": 18, "gen": g})
    for k, g in enumerate([dict(shared=True, unsorted=True), dict(N=(1, 2), unsorted=True), dict(masks=False)]):
        jobs.append({"name": "cas%d" % k, "kind": "casadi", "seed": ctx.seed * 100 + k, "n": 25 if q else 200, "gen": g})
    hp = ["PARTIAL_CONDENSING_HPIPM", "FULL_CONDENSING_HPIPM"]
    for k, (g, s) in enumerate([(dict(N=(1, 5), nu=(1, 2), smask=False), hp), (dict(N=(1, 5), nu=(0, 2), eq=False, smask=False), hp), (dict(N=(1, 3), nu=(1, 2), smask=False, shared=True, eq=False), hp),
                                (dict(masks=False), ["PARTIAL_CONDENSING_OSQP"])]):
        jobs.append({"name": "nat%d" % k, "kind": "native", "seed": ctx.seed * 100 + k, "n": 60 if q else 600, "gen": g, "solvers": s})
    dj = dict(phi=False, dyn=["DISCRETE"], nx=[1, 2], infb=True, soft=["bu", "bx", "g", "h"])
    for k, N in enumerate([(9, 9), (1, 3), (1, 12)]):
        jobs.append({"name": "dump%d" % k, "kind": "dump", "seed": ctx.seed * 100 + k, "n": 2 if q else 20, "gen": dict(dj, N=N)})
    p = build_prefix(ctx)
    traces = []
    fail = tot = 0
    for j, out in collect(ctx, "ocpqp", jobs, p, timeout=800):
        traces += out
        if j["kind"] == "native":
            fail += sum(e["status"] != 0 for t in out for e in t["ev"])
            tot += sum(len(t["ev"]) for t in out)
    ops = {}
    for t in traces:
        for e in t["ev"]:
            ops[e["op"]] = ops.get(e["op"], 0) + 1
    ctx.cov["events"] = ops
    ctx.cov["native solver failures"] = "%d of %d" % (fail, tot)
    if tot and fail > 0.1 * tot:
        ctx.violation("native:failures", "%d of %d strictly convex feasible QPs are not solved by the native solvers" % (fail, tot))
    if traces:
        ctx.samples.append({"trace": traces[0]["tid"], "events": traces[0]["ev"][-2:]})
    validate_and_report(ctx, "OcpQpTrace", traces, what="QP history", max_rejections=3)
