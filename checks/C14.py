"""C14: a problem description survives its JSON file."""
from vlib import *

TECHNIQUE = "TLA+ specification of a description and its file (JsonStore), model checked over all histories of two fields; trace validation of write/read/compare/reuse histories of generated single and multi-phase descriptions"
NOTE = ("Content is every public field, arrays exactly (in units of 1/1024), expressions by their values at integer points. Paths of files and the version are no content. "
        "Options are sampled from their accepted values; custom external functions in C are left out.")

MC = """SPECIFICATION Spec
INVARIANTS FileIsLast ReuseIsSound ReuseIsMonotone
PROPERTY RoundTrip
CHECK_DEADLOCK FALSE
"""


def main(ctx):
    q = ctx.quick
    r = tlc("JsonStoreMC", MC, {}, workers="8")
    if not r.ok:
        raise CheckError("the specification itself fails:\n" + r.out[-3000:])
    ctx.add_tlc(r)
    ctx.cov["model_states"] = r.distinct
    jobs = [{"name": "j%d" % k, "seed": ctx.seed * 100 + k, "n": 50 if q else 600} for k in range(8)]
    traces, ops, refused = [], {}, 0
    for j, out in collect(ctx, "jsonstore", jobs):
        traces += out["traces"]
        refused += sum(out["refused"].values())
    for t in traces:
        for e in t["ev"]:
            ops[e["op"]] = ops.get(e["op"], 0) + 1
    ctx.cov["events"] = ops
    ctx.cov["descriptions_not_consistent"] = refused
    if traces:
        ctx.samples.append({"trace": traces[0]["tid"], "events": [e["op"] for e in traces[0]["ev"]]})
    validate_and_report(ctx, "JsonStoreTrace", traces, what="history of a description and its file", max_rejections=3)
