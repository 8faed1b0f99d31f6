"""C10: a batch is its solvers, one by one."""
from vlib import *

TECHNIQUE = "TLA+ specification of solver objects and of batch calls on them; trace validation of histories on real batch solvers (OpenMP) mixed with calls on their members"
NOTE = ("Random histories of batch set, get, flat, iterates, constraints, p_global, reset and solve with 1..5 members and 1..4 threads, growing and shrinking batches, mixed with calls on single members; what every member holds "
        "is read after each call and must be what the specification says (members outside the call untouched), a member's solve the result of the same call elsewhere. Batched sensitivities and simulators are not covered.")


def main(ctx):
    p = build_prefix(ctx, "omp")
    jobs = [{"name": "b%d" % k, "seed": ctx.seed * 40 + k, "n": 3 if ctx.quick else 12, "len": 14 if ctx.quick else 25, "mode": "batch"} for k in range(8 if ctx.quick else 24)]
    traces = []
    for j, out in collect(ctx, "fleet", jobs, p):
        traces += out
    ops = {}
    for t in traces:
        for e in t["ev"]:
            ops[e["op"]] = ops.get(e["op"], 0) + 1
    ctx.cov["events"] = ops
    if traces:
        ctx.samples.append({"trace": traces[0]["tid"], "kind": traces[0]["kind"], "options": traces[0]["opts"]})
    validate_and_report(ctx, "FleetTrace", traces, what="history of a batch", max_rejections=3)
