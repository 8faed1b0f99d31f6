"""The parts that the checks on specs/Native.tla share."""
from vlib import *

MC = """SPECIFICATION MCSpec
CONSTANT Depth = %d
CONSTANT Vals = {1, 2}
INVARIANTS Written Concat Order Lengths
PROPERTIES Local
CHECK_DEADLOCK FALSE
"""


def model(ctx, traces, depth=2, n=2):
    """the specification itself, on small recorded problems"""
    small = sorted((t for t in traces if t["ev"] and t["ev"][0]["op"] == "look" and any(len(p) for p in [d["p"] for d in t["init"]["phases"]])), key=lambda t: len(json.dumps(t["init"])))[:n]
    if not small:
        return
    r = tlc("NativeMC", MC % depth, files={"descs.ndjson": "".join(json.dumps({"init": t["init"], "w": t["ev"][0]["w"]}) + "\n" for t in small)}, workers="8")
    if not r.ok:
        raise CheckError("the specification itself fails:\n" + r.out[-3000:])
    ctx.add_tlc(r)
    ctx.cov["model_states"] = ctx.cov.get("model_states", 0) + r.distinct


def run(ctx, work, prefix):
    """the traces of all jobs of the drivers, run together"""
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(len(work)) as ex:
        got = list(ex.map(lambda w: collect(ctx, w[0], w[1], prefix, timeout=240 if ctx.quick else 800), work))
    traces = [t for g in got for _, out in g for t in out]
    count(ctx, traces)
    kinds = {}
    for t in traces:
        k = ", ".join("%d phase%s" % (n, "s" * (n > 1)) for n in [len(t["init"]["Ns"])])
        kinds[k] = kinds.get(k, 0) + 1
    ctx.cov["problems"] = kinds
    if traces:
        t = traces[-1]
        ctx.samples.append({"trace": t["tid"], "options": t["opts"], "phases": t["init"]["Ns"], "events": [e["op"] for e in t["ev"]]})
    return traces


def count(ctx, traces):
    ops, kinds = {}, {}
    for t in traces:
        for e in t["ev"]:
            ops[e["op"]] = ops.get(e["op"], 0) + 1
        for s in t.get("stat", []):
            q = "%s: status %d%s" % (t.get("kind"), s[0], ", " + s[2] if len(s) > 2 else "")
            kinds[q] = kinds.get(q, 0) + 1
    ctx.cov["events"] = ops
    if kinds:
        ctx.cov["solves"] = kinds
