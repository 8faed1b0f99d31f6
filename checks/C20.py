"""C20: structured (GNSF) models and their integrator."""
from vlib import *

TECHNIQUE = "TLA+ specification of structured models (Gnsf: residuals of both forms as functions of a point, what the integrator needs), model checked over all systems of two components and all legal splits; trace validation of detected structures and of generated integrators on both forms"
NOTE = ("Models are polynomial with integer coefficients, so that both forms are compared exactly at integer points. Integrators are compared with Newton iterations run to convergence, numbers rounded to 1e-6, a difference of two units is tolerated. "
        "A model whose blocks of E cannot be made invertible may be refused.")

MC = """SPECIFICATION Spec
INVARIANTS Same
CHECK_DEADLOCK FALSE
"""


def main(ctx):
    q = ctx.quick
    r = tlc("GnsfMC", MC, {}, workers="8")
    if not r.ok:
        raise CheckError("the specification itself fails:\n" + r.out[-3000:])
    ctx.add_tlc(r)
    ctx.cov["model_states"] = r.distinct
    p = build_prefix(ctx)
    jobs = [{"name": "d%d" % k, "sim": False, "seed": ctx.seed * 1000 + k, "n": 40 if q else 500} for k in range(8)]
    jobs += [{"name": "s%d" % k, "sim": True, "seed": ctx.seed * 1000 + 100 + k, "n": 10 if q else 150} for k in range(8)]
    traces, seen = [], {"refused": 0, "all linear": 0, "with x2": 0, "with z1": 0, "with z2": 0, "nontrivial f_LO": 0, "simulations": 0}
    for j, out in collect(ctx, "gnsf", jobs, p):
        traces += out
    for t in traces:
        s = t["ev"][0]["s"]
        if not s:
            seen["refused"] += 1
            continue
        d = t["init"]
        for k, c in (("all linear", s["linear"]), ("with x2", s["nx1"] < d["nx"]), ("with z1", s["nz1"] > 0), ("with z2", s["nz1"] < d["nz"]), ("nontrivial f_LO", s["nontrivial"])):
            seen[k] += bool(c)
        seen["simulations"] += sum(e["op"] == "sim" for e in t["ev"])
    ctx.cov["models"] = seen
    ctx.samples.append({"trace": traces[-1]["tid"], "model": traces[-1]["init"], "structure": traces[-1]["ev"][0]["s"]})
    validate_and_report(ctx, "GnsfTrace", traces, what="structured model", max_rejections=3)
