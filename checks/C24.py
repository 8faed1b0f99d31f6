"""C24: zero-order robust optimisation: covariances, feedback gains and tightening."""
from vlib import *

TECHNIQUE = "TLA+ specification of the zoRO update (Zoro: payloads, covariance propagation, Riccati gains, back-offs), model checked on scalar systems over all short histories; trace validation of histories of linearisations and updates of generated problems, compiled from the templates"
NOTE = ("All data is integer: covariances are compared exactly, tightening by the square of the distance to the bounds of the description, Riccati gains by the equation they have to solve. "
        "Barrier variants: one update per problem, at points where weights of the barrier are integers. Stage 0 and the bounds of all other fields are compared too.")

MC = """SPECIFICATION Spec
CONSTANT Depth = %d
INVARIANTS Psd Inward MonotoneW ModesAgree
PROPERTIES OnlyAnnounced
CHECK_DEADLOCK FALSE
"""


def main(ctx):
    q = ctx.quick
    r = tlc("ZoroMC", MC % (2 if q else 3), {}, workers="8")
    if not r.ok:
        raise CheckError("the specification itself fails:\n" + r.out[-3000:])
    ctx.add_tlc(r)
    ctx.cov["model_states"] = r.distinct
    p = build_prefix(ctx)
    jobs = [{"name": "z%d" % k, "seed": ctx.seed * 100 + k, "n": 16 if q else 250, "times": 4 if q else 6} for k in range(8)]
    traces, seen = [], {}
    for j, out in collect(ctx, "zoro", jobs, p):
        traces += out
    for t in traces:
        for e in t["ev"]:
            n = "%s %s" % (e["op"], e.get("how", ""))
            seen[n] = seen.get(n, 0) + 1
        n = "%s, uncertainty %s" % (t["init"]["fb"], t["init"]["unc"])
        seen[n] = seen.get(n, 0) + 1
    ctx.cov["events_and_problems"] = seen
    if traces:
        ctx.samples.append({"trace": traces[0]["tid"], "mode": traces[0]["init"]["fb"], "events": [e["op"] for e in traces[0]["ev"]]})
    validate_and_report(ctx, "ZoroTrace", traces, what="zoRO history", max_rejections=3)
