"""C27: generated functions evaluate the user's expressions and their derivatives."""
from vlib import *

TECHNIQUE = "TLA+ specification of every generated function of a problem (which exist, argument order, outputs as exact derivatives of the user's polynomials: FunGen), trace validation of the compiled generated code, called directly and through acados' C wrappers for casadi functions"
NOTE = ("Problems are polynomial, evaluation points small integers, derivatives are taken in the specification and compared exactly. "
        "Direct calls go through casadi.external; calls through external_function_{casadi,param_casadi,external_param_casadi} use every argument representation with offsets, "
        "and the memory around the outputs is compared. GNSF functions and the template for zoRO are left to C20 and C24.")


def main(ctx):
    q = ctx.quick
    p = build_prefix(ctx, shims=("extfun",))
    jobs = [{"name": "f%d" % k, "seed": ctx.seed * 100 + k, "n": 22 if q else 400, "times": 2 if q else 4} for k in range(8)]
    traces, calls, refused = [], {}, {}
    for j, out in collect(ctx, "fungen", jobs, p):
        traces += out["traces"]
        for k, v in out["refused"].items():
            refused[k] = refused.get(k, 0) + v
    for t in traces:
        for e in t["ev"]:
            n = "%s %s" % (e["op"], e.get("fn", ""))
            calls[n] = calls.get(n, 0) + 1
    ctx.cov["calls"] = calls
    ctx.cov["refused_problems"] = refused
    if traces:
        ctx.samples.append({"trace": traces[0]["tid"], "functions": [e.get("fn") for e in traces[0]["ev"]][:20]})
    validate_and_report(ctx, "FunGenTrace", traces, what="generated functions", max_rejections=3)
