"""C25: the problem evaluator and the cost-state model compute the documented objective and violations."""
from vlib import *

TECHNIQUE = "TLA+ specification of objective, violations and parameter store; trace validation of the real evaluator on random problems"
NOTE = ("Random integer problems (all cost types, soft bounds and constraints, one-sided bounds, several parameters, SX and MX) and random histories of update/evaluate: "
        "every value the real evaluator returns must be the one the TLA+ semantics gives. Initial stage: path cost without slack penalty, as the code documents. Trusts CasADi.")


def main(ctx):
    n = 25 if ctx.quick else 250
    jobs = []
    for k, gen in enumerate([{}, {"infb": True}, {"N": (2, 4), "infb": True, "np": (1, 3)}, {"dyn": ["ERK"]}, {"dyn": ["ERK"], "np": (2, 3), "one_cost": True}, {"sym": ["MX"], "nx": (1, 2), "nu": (1, 1)}]):
        g = dict(phi=False, soft=["bu", "bx", "g", "h"])
        g.update(gen)
        jobs.append({"name": "ev%d" % k, "seed": ctx.seed * 100 + k, "n": n, "gen": g, "len": 12})
    traces = []
    for j, out in collect(ctx, "evaluator", jobs):
        traces += out
    ops = {}
    for t in traces:
        for e in t["ev"]:
            ops[e["op"]] = ops.get(e["op"], 0) + 1
    ctx.cov["events"] = ops
    if traces:
        ctx.samples.append({"trace": traces[0]["tid"], "events": traces[0]["ev"][:2]})
    validate_and_report(ctx, "OcpEvalTrace", traces, what="evaluator history", max_rejections=3)
