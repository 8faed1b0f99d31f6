"""C11: a multi-phase problem is the concatenation of its phases."""
from vlib import *
import nativelib

TECHNIQUE = "TLA+ specification of problems of several phases (Native: which phase governs a stage, where initial, path and terminal data act), model checked: a phase cut in two is the same problem; trace validation of histories of generated multi-phase solvers"
NOTE = ("Up to three phases of random dynamics, cost, constraints, slacks and parameters, transitions to another number of states by discrete dynamics; updates by stage. Gauss-Newton Hessians (multi-phase problems have no other for least squares costs of mixed type).")


def main(ctx):
    q = ctx.quick
    s = ctx.seed * 100
    p = build_prefix(ctx)
    gen = {"np": [0, 3], "dyn": ["DISCRETE", "ERK"], "soft": ["bu", "bx", "g", "h", "phi"], "infb": True}
    jobs = [{"name": "m", "kind": "multi", "seed": s + k, "phi": .3, "n": 9 if q else 60, "len": 8 if q else 14, "ops": ["look", "look", "look", "p", "p", "pg", "yref", "W", "sc", "S", "lo", "up"], "gen": gen} for k in range(7)]
    jobs += [{"name": "o", "kind": "one", "seed": s + 50, "phi": .3, "n": 4, "len": 2, "ops": ["look", "p"], "gen": dict(gen, np=[1, 2], infb=False)}]
    traces = nativelib.run(ctx, [("native", jobs)], p)
    validate_and_report(ctx, "NativeTrace", traces, what="history of a multi-phase solver", max_rejections=3)
    nativelib.model(ctx, [t for t in traces if len(t["init"]["Ns"]) == 1], 1, 3)
    nativelib.model(ctx, [t for t in traces if len(t["init"]["Ns"]) > 1], 1, 2)
