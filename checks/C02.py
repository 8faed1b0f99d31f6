"""C02: a reported solution satisfies the optimality conditions of the user's problem."""
from vlib import *
import nativelib

TECHNIQUE = "TLA+ specification of the problem as the solver linearizes it (Native: which data act at which stage, the QP of a point, its residuals, the optimality conditions), model checked on recorded problems; trace validation of histories of generated solvers that ask for QPs, residuals and solutions"
NOTE = ("Problems are polynomial with whole-number data, so that costs, QP matrices and residuals are compared exactly; solutions are at points manufactured from the solver's own linearization, which the specification judges for itself. "
        "Where no constraint qualification holds (multipliers above 10^4), solutions are judged for feasibility and least cost only; other solutions of nonlinear problems than the manufactured one are not judged. Only HPIPM solves the QPs. Dynamics are discrete or explicit integrators.")

OPS = ["look", "look", "p", "pg", "yref", "W", "sc", "S", "lo", "up"]
GEN = {"dyn": ["DISCRETE", "ERK"]}
KK = dict(GEN, soft=["bx", "g", "h", "phi"], stages=[1, 2], np=[0, 1], npg=[0, 1])


def main(ctx):
    q = ctx.quick
    s = ctx.seed * 100
    p = build_prefix(ctx)
    nat = [{"name": "b", "seed": s + k, "phi": .4, "n": 9 if q else 60, "len": 10 if q else 16, "ops": OPS, "gen": dict(GEN, soft=["bu", "bx", "g", "h", "phi"], infb=True)} for k in range(3)]
    kk = [{"name": "n", "seed": s + 10 + k, "phi": .4, "n": 9 if q else 60, "len": 5, "kinds": ["SQP", "SQP", "SQP_WITH_FEASIBLE_QP"], "gen": KK} for k in range(3)]
    kk += [{"name": "k", "seed": s + 20 + k, "n": 9 if q else 60, "len": 5, "kinds": ["SQP", "SQP_WITH_FEASIBLE_QP", "SQP_RTI"], "gen": dict(KK, affine=True, convex=True)} for k in range(2)]
    traces = nativelib.run(ctx, [("native", nat), ("kkt", kk)], p)
    validate_and_report(ctx, "NativeTrace", traces, what="history of a solver", max_rejections=3)
    nativelib.model(ctx, traces, 1 if q else 2)
