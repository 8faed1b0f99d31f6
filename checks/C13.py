"""C13: inconsistent problem descriptions are rejected, consistent ones completed."""
from vlib import *

TECHNIQUE = "TLA+ specification of consistent problem descriptions and their completion (ProblemDesc); trace validation of AcadosOcp.make_consistent on generated consistent and mutated descriptions"
NOTE = ("Descriptions of random dimensions with zero, one or two mutations of shapes, indices, expressions, options; the rules are those of the documentation of the fields. "
        "Silent documentation (repeated bound indices, state dimensions changing over a single interval) allows either verdict; AUTO cost and constraint detection is C19's, multi-phase descriptions C11's.")


def main(ctx):
    q = ctx.quick
    jobs = [{"name": "d%d" % k, "seed": ctx.seed * 100 + k, "n": 150 if q else 1200, "sweep": 2 if q else 8} for k in range(8)]
    traces = []
    for j, out in collect(ctx, "probdesc", jobs):
        traces += out
    n = {"accepted": 0, "refused": 0}
    for t in traces:
        n["accepted" if t["ev"][0]["ok"] else "refused"] += 1
    ctx.cov["descriptions"] = n
    if traces:
        ctx.samples.append({"trace": traces[0]["tid"], "dims": traces[0]["ev"][0]["d"]["m"], "ok": traces[0]["ev"][0]["ok"], "why": traces[0]["ev"][0]["why"]})
    validate_and_report(ctx, "ProblemDescTrace", traces, what="problem description", max_rejections=3)
