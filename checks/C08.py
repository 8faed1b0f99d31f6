"""C08: parameters act exactly at the stages where they are set."""
from vlib import *
import nativelib

TECHNIQUE = "TLA+ specification of stage and global parameters as state of the problem (Native: what each update changes, and cost, QP and residuals as functions of the state alone), model checked over all short histories of updates of recorded problems; trace validation of histories of generated solvers, of one phase and of several"
NOTE = ("Polynomial problems with whole-number data; updates by stage, of single entries, of all stages at once and of the global parameters; cost, QP matrices and residuals at a random point are compared exactly after them. "
        "Precomputed dependencies on global parameters are those CasADi's cse detects in polynomials.")


def main(ctx):
    q = ctx.quick
    s = ctx.seed * 100
    p = build_prefix(ctx)
    gen = {"dyn": ["DISCRETE", "ERK"], "soft": ["g", "h"], "np": [1, 4], "npg": [0, 3]}
    jobs = [{"name": "p", "kind": "one" if k < 5 else "multi", "seed": s + k, "phi": .3, "n": 9 if q else 60, "len": 12 if q else 20, "ops": ["look", "look", "p", "p", "p", "pg"], "gen": gen} for k in range(8)]
    traces = nativelib.run(ctx, [("native", jobs)], p)
    validate_and_report(ctx, "NativeTrace", traces, what="history of updates", max_rejections=3)
    nativelib.model(ctx, traces, 2 if q else 3, 2 if q else 4)
