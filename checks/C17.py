"""C17: what a solve returns depends only on what the object holds; reset gives back a new object."""
from vlib import *

TECHNIQUE = "TLA+ specification of solver objects whose solve is one function of what they hold; trace validation of histories of calls on real solver objects"
NOTE = ("Random histories (set, solve, failed solves by nan, infinities, crossed bounds, change and reset of options, reset in its parts) on two objects of one random problem; the same held values, "
        "options and memory must give the same result (up to rounding), whatever came before and on whichever object, after a reset those of a new object. The memory of a failed solve counts until reset. QP solver PARTIAL_CONDENSING_HPIPM, cond_N = N.")


def main(ctx):
    p = build_prefix(ctx)
    jobs = [{"name": "h%d" % k, "seed": ctx.seed * 40 + k, "n": 4 if ctx.quick else 16, "len": 8 if ctx.quick else 14, "mode": "history"} for k in range(8 if ctx.quick else 24)]
    traces = []
    for j, out in collect(ctx, "fleet", jobs, p):
        traces += out
    ops = {}
    for t in traces:
        for e in t["ev"]:
            ops[e["op"]] = ops.get(e["op"], 0) + 1
            if e["op"] == "solve":
                k = "status %d" % e["o"]["status"]
                ops[k] = ops.get(k, 0) + 1
    ctx.cov["events"] = ops
    if traces:
        ctx.samples.append({"trace": traces[0]["tid"], "kind": traces[0]["kind"], "options": traces[0]["opts"]})
    validate_and_report(ctx, "FleetTrace", traces, what="history of solver calls", max_rejections=3)
