"""C06: a solver's numerical fields are one store per stage."""
from vlib import *

TECHNIQUE = "TLA+ specification of the solver's stores; trace validation of random write/read histories on generated solvers"
NOTE = ("Random problems (all cost types, soft bounds and constraints, absent bounds, differing stages) and random histories of every setter and getter, valid and invalid; full state dumps "
        "must equal the state the specification reaches. Values include subnormal and huge numbers. Process-ending rejections (unknown field name) are not exercised.")

GEN = [dict(N=(1, 3), np=(1, 3), npg=(1, 2), dyn=["DISCRETE"]), dict(N=(2, 3), np=(0, 2), npg=(0, 1), dyn=["DISCRETE"], uniform=True),
       dict(N=(1, 4), np=(0, 2), dyn=["ERK"], stages=(4,)), dict(N=(1, 2), nx=(1, 4), nu=(1, 3), np=(0, 2), dyn=["DISCRETE"], costs=("LINEAR_LS", "NONLINEAR_LS"))]


def main(ctx):
    p = build_prefix(ctx)
    n = 2 if ctx.quick else 14
    jobs = []
    for k in range(8):
        g = dict(phi=False, soft=["bu", "bx", "g", "h"], infb=True)
        g.update(GEN[k % 4])
        jobs.append({"name": "st%d" % k, "kind": "solver", "seed": ctx.seed * 100 + k, "n": n, "len": 40, "hist": 2, "gen": g,
                     "ops": ["set", "set", "vec", "vec", "mat", "flat", "flatp", "sparse", "sparse", "pg", "read", "read"]})
    traces = []
    for j, out in collect(ctx, "store", jobs, p):
        traces += out
    ops, rej = {}, 0
    for t in traces:
        for e in t["ev"]:
            ops[e["op"]] = ops.get(e["op"], 0) + 1
            rej += e.get("ok") is False
    ctx.cov["events"], ctx.cov["refused_writes"] = ops, rej
    if traces:
        ctx.samples.append({"trace": traces[0]["tid"], "events": [e for e in traces[0]["ev"] if e["op"] != "dump"][:4]})
    validate_and_report(ctx, "StoreTrace", traces, what="history of a solver's data", max_rejections=3)
