"""C26: option values are validated when they are set, and are the ones the solver is generated with."""
from vlib import *

TECHNIQUE = "TLA+ specification of the option objects (OptTable, OptStore); trace validation of assignment histories and of the options generated solvers hand to the library"
NOTE = ("Every documented option of the four option classes with values of every type at and around its bounds; the C library's own handling of the fields is covered by the behavioural checks. "
        "Where documentation and code differ only at a boundary (gt?) both verdicts are allowed. Enumeration of combinations of options for generated solvers is random.")


def main(ctx):
    q = ctx.quick
    jobs = [{"name": "h%d" % k, "kind": "hist", "seed": ctx.seed * 100 + k, "n": 14 if q else 120, "len": 160} for k in range(8)]
    traces = []
    for j, out in collect(ctx, "optstore", jobs):
        traces += out
    prefix = build_prefix(ctx, "plain", ["optlog"])
    jobs = [{"name": "g%d" % k, "kind": "gen", "seed": ctx.seed * 100 + k, "n": 5 if q else 60} for k in range(8)]
    for j, out in collect(ctx, "optstore", jobs, prefix, timeout=800):
        traces += out
    n = {}
    for t in traces:
        for e in t["ev"]:
            key = e["op"] if e["op"] != "set" else ("set accepted" if e["ok"] else "set refused")
            n[key] = n.get(key, 0) + 1
    ctx.cov["events"] = n
    if traces:
        ctx.samples.append({"trace": traces[0]["tid"], "events": [{k: v for k, v in e.items() if k != "all"} for e in traces[0]["ev"][:4]]})
    validate_and_report(ctx, "OptStoreTrace", traces, what="options history", max_rejections=3)
