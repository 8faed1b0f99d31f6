"""C05: the QP back end does not change the answer."""
from vlib import *
import nativelib

TECHNIQUE = "TLA+ specification of the optimality conditions of the problem (Native), in which no option of the QP back end occurs; trace validation of the solutions that generated solvers with random QP solver, condensing, scaling, Riccati and warm start options give"
NOTE = ("Convex problems with affine dynamics and constraints and strictly convex cost: the solution is unique and every option must give it, with multipliers in the user's order and scaling. "
        "QP solvers at hand: HPIPM with full and partial condensing (also with given block sizes). A status other than success is not judged: HPIPM of this sandbox gives up on some feasible problems.")


def main(ctx):
    q = ctx.quick
    s = ctx.seed * 100
    p = build_prefix(ctx)
    gen = {"dyn": ["DISCRETE", "ERK"], "soft": ["bx", "g", "h", "phi"], "affine": True, "convex": True, "stages": [1, 2], "np": [0, 1], "npg": [0, 0], "N": [1, 5]}
    jobs = [{"name": "k", "seed": s + k, "n": 11 if q else 80, "len": 6, "kinds": ["SQP", "SQP", "SQP", "SQP_RTI", "SQP_WITH_FEASIBLE_QP"], "gen": gen} for k in range(8)]
    traces = nativelib.run(ctx, [("kkt", jobs)], p)
    validate_and_report(ctx, "NativeTrace", traces, what="solutions of a solver", max_rejections=3)
