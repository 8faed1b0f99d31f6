"""C19: reformulations of a problem describe the same objective and feasible set."""
from vlib import *

TECHNIQUE = "TLA+ specification of what reformulations mean (Reform), model checked on a small problem over all histories; trace validation of generated histories of reformulations of generated problems, looking at objective and feasible set at integer points after every step"
NOTE = ("Problems are polynomial, points are small integers; a look at the objective is by the documented meaning of the fields of the description (C01 and C23 bind that meaning to solvers). "
        "Detection of bounds and linear constraints is for constraints given by h alone; the horizon with few controls is for problems without p_global.")

MC = """SPECIFICATION Spec
CONSTANT Depth = %d
INVARIANTS PenaltiesPositive
PROPERTIES SameObjective DetectKeeps FeasExact FeasKeeps
CHECK_DEADLOCK FALSE
"""


def main(ctx):
    q = ctx.quick
    r = tlc("ReformMC", MC % (2 if q else 3), {}, workers="8")
    if not r.ok:
        raise CheckError("the specification itself fails:\n" + r.out[-3000:])
    ctx.add_tlc(r)
    ctx.cov["model_states"] = r.distinct
    jobs = [{"name": "r%d" % k, "seed": ctx.seed * 100 + k, "n": 80 if q else 1500} for k in range(8)]
    traces, ops, refused = [], {}, 0
    for j, out in collect(ctx, "reform", jobs):
        traces += out
    for t in traces:
        for e in t["ev"]:
            ops[e["op"]] = ops.get(e["op"], 0) + 1
            refused += bool(e.get("err"))
    ctx.cov["events"] = ops
    ctx.cov["refused_operations"] = refused
    if traces:
        ctx.samples.append({"trace": traces[0]["tid"], "events": [e["op"] for e in traces[0]["ev"]]})
    validate_and_report(ctx, "ReformTrace", traces, what="history of reformulations", max_rejections=3)
