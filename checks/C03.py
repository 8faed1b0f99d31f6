"""C03: a real-time iteration prepared and completed is the one done at once."""
from vlib import *

TECHNIQUE = "TLA+ specification of solver objects and of real-time iterations in phases; trace validation of calls on the real solvers"
NOTE = ("Random histories on random problems: the same situation (iterate, data, options) is met by a step at once, by preparation and feedback with the initial state given before either, and by one "
        "full step of the SQP solver; the specification has one function of the situation for all of them. Equal up to rounding for the same way of computing, 1e-5 between ways. PARTIAL_CONDENSING_HPIPM (no condensing of soft constraints), integrators without start values.")


def main(ctx):
    p = build_prefix(ctx)
    n = 3 if ctx.quick else 12
    jobs = [{"name": "rti%d" % k, "seed": ctx.seed * 40 + k, "n": n, "len": 5 if ctx.quick else 12, "mode": "rti", "choices": {"qp_solver": "PARTIAL_CONDENSING_HPIPM"}} for k in range(8 if ctx.quick else 24)]
    traces = []
    for j, out in collect(ctx, "fleet", jobs, p):
        traces += out
    ops = {}
    for t in traces:
        for e in t["ev"]:
            k = e["op"] + (" " + str(e["v"]) if e["op"] == "opt" and e["name"] == "rti_phase" else "")
            ops[k] = ops.get(k, 0) + 1
            if e["op"] == "solve":
                ops["good" if e["o"]["good"] else "not compared between ways"] = ops.get("good" if e["o"]["good"] else "not compared between ways", 0) + 1
    ctx.cov["events"] = ops
    if traces:
        ctx.samples.append({"trace": traces[0]["tid"], "options": traces[0]["opts"]})
    validate_and_report(ctx, "FleetTrace", traces, what="history of real-time iterations", max_rejections=3)
