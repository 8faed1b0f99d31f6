"""C07: saved iterates are restored exactly."""
import json
import os
from vlib import *
sys.path.insert(0, VERIF)

TECHNIQUE = "TLA+ specification of iterates and their saved forms; TLC over all short histories; trace validation of real solvers and iterate objects"
NOTE = ("All histories up to a depth on one small problem in the model; on the real code random histories of save/load/convert over file, object, flat and batch forms, horizons 0..100 with "
        "varying and empty dimensions, exact doubles including subnormals. An iterate that does not fit must be refused (it may be loaded in part). Multipliers of absent bounds read as zero.")


def main(ctx):
    from drivers import ocpgen
    d = ocpgen.gen(5, N=(2, 2), nx=(1, 1), nu=(1, 1), dyn=["DISCRETE"], phi=False, g=False, soft=["h"], infb=True)
    r = tlc("StoreMC", "SPECIFICATION MCSpec\nCONSTANTS DEPTH = %d\nINVARIANTS InvMask InvDims InvFlat\nPROPERTIES OneField RoundTrip\nCHECK_DEADLOCK FALSE\n" % (3 if ctx.quick else 4),
            {"d.json": json.dumps(d)}, workers="8")
    if not r.ok:
        raise CheckError("the specification itself fails:\n" + r.out[-3000:])
    ctx.add_tlc(r)
    ctx.cov["model_states"] = r.distinct
    jobs = [{"name": "obj%d" % k, "kind": "objects", "seed": ctx.seed * 100 + 50 + k, "n": 40 if ctx.quick else 400, "len": 14} for k in range(2)]
    gens = [dict(N=(9, 10), nx=(1, 2), nu=(1, 1)), dict(N=(1, 3), soft=["bu", "bx", "g", "h"]), dict(N=(2, 2), soft=["bu", "h"], infb=True), dict(N=(1, 2), phi=True, h=False), dict(N=(11, 11), nx=(1, 1), nu=(1, 2)),
            dict(N=(1, 4), infb=True, soft=["bx", "g", "h"])]
    for k, g in enumerate(gens):
        gg = dict(phi=False, dyn=["DISCRETE"])
        gg.update(g)
        jobs.append({"name": "sv%d" % k, "kind": "solver", "seed": ctx.seed * 100 + k, "n": 1 if ctx.quick else 8, "len": 30, "hist": 3, "gen": gg,
                     "ops": ["set", "flat", "read", "saved", "saved", "saved", "vec"] if not gg["phi"] else ["set", "flat", "read", "saved", "saved"], "nodat": gg["phi"]})
    p = build_prefix(ctx)
    traces = []
    for j, out in collect(ctx, "store", jobs, p):
        traces += out
    ops = {}
    for t in traces:
        for e in t["ev"]:
            ops[e["op"]] = ops.get(e["op"], 0) + 1
    ctx.cov["events"] = ops
    if traces:
        ctx.samples.append({"trace": traces[0]["tid"], "events": traces[0]["ev"][-3:]})
    validate_and_report(ctx, "StoreTrace", traces, what="history of saved iterates", max_rejections=3)
