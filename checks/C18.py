"""C18: shooting grid, time steps and cost scaling."""
from vlib import *

TECHNIQUE = "TLA+ specification of grids and weights (Grid: completion of descriptions, changes at run time, matrices of the QP as functions of both), model checked over all short histories; trace validation of descriptions and of histories of generated solvers"
NOTE = ("Times and scalings are multiples of 1/4, dynamics are affine in one state and one control with explicit integrators of one or two stages and steps, so that all numbers are exact. "
        "Descriptions that give both time steps and shooting nodes give the same grid twice.")

MC = """SPECIFICATION Spec
CONSTANT Depth = %d
INVARIANTS Known Agree Weighted LikeBuilt FirstOrder
CHECK_DEADLOCK FALSE
"""


def main(ctx):
    q = ctx.quick
    r = tlc("GridMC", MC % (2 if q else 4), {}, workers="8")
    if not r.ok:
        raise CheckError("the specification itself fails:\n" + r.out[-3000:])
    ctx.add_tlc(r)
    ctx.cov["model_states"] = r.distinct
    p = build_prefix(ctx)
    jobs = [{"name": "d", "what": "describe", "seed": ctx.seed * 100, "n": 150 if q else 3000}]
    jobs += [{"name": "g%d" % k, "what": "history", "seed": ctx.seed * 100 + k + 1, "n": 14 if q else 130, "length": 8 if q else 14} for k in range(8)]
    traces, seen = [], {}
    for j, out in collect(ctx, "grid", jobs, p):
        traces += out
    for t in traces:
        for e in t["ev"]:
            n = e["op"] if e["op"] != "describe" else "describe, accepted %s" % e["ok"]
            seen[n] = seen.get(n, 0) + 1
    ctx.cov["events"] = seen
    if len(traces) > 150:
        ctx.samples.append({"trace": traces[-1]["tid"], "grid": traces[-1]["init"]["grid"], "events": [e["op"] for e in traces[-1]["ev"]]})
    validate_and_report(ctx, "GridTrace", traces, what="grid history", max_rejections=3)
