"""C01: the SQP loop stops for the reason it reports, when it should, with consistent statistics."""
from vlib import *

TECHNIQUE = "TLA+ model of the SQP loop, TLC; trace validation of recorded solve histories (scripted QP solver)"
NOTE = ("TLC explores all residual/QP outcomes of the loop for small iteration limits; recorded solve() histories of the real solver on an exactly "
        "representable problem, with a scripted QP solver choosing steps, failures and NaN, must be behaviours of the specification. Trusts the stub and BLAS.")


def main(ctx):
    r = tlc("SqpLoopMC", "SPECIFICATION Spec\nCONSTANT MaxIters = %d\nVIEW view\nINVARIANTS SuccessMeansConverged NanReported "
            "IterBoundMC QpCountMC MaxiterMeansExhausted UnboundedMeansBelow MinstepMeansSmall RowsMatch LoopTypeOK\n"
            "CHECK_DEADLOCK FALSE\n" % (2 if ctx.quick else 3), workers="8")
    if not r.ok:
        raise CheckError("the specification itself fails:\n" + r.out[-3000:])
    ctx.add_tlc(r)
    ctx.cov["model_states"] = r.distinct
    p = build_prefix(ctx, shims=["stubqp"])
    n = 60 if ctx.quick else 400
    jobs = []
    for k, (glob, ws, wsf, eam, ms, unb, step) in enumerate([
            ("FIXED_STEP", 0, False, True, 0, -2**31+1, [1, 1]), ("FIXED_STEP", 1, False, False, 2, -2**31+1, [1, 1]),
            ("FIXED_STEP", 2, True, True, 3, -2**31+1, [1, 1]),
            ("MERIT_BACKTRACKING", 0, False, True, 0, -2**31+1, None), ("MERIT_BACKTRACKING", 1, True, False, 9, -2**31+1, None)]):
        o = {"eval_residual_at_max_iter": eam, "nlp_solver_tol_min_step_norm": float(ms)}
        if glob != "FIXED_STEP":
            o.update(globalization_alpha_min=0.1, globalization_alpha_reduction=0.5, globalization_eps_sufficient_descent=0.5)
        jobs.append({"name": "sqp%d" % k, "glob": glob, "ws": ws, "wsFirst": wsf, "evalAtMax": eam, "minStep": ms,
                     "unb": unb, "step": step or [1, 1], "n": n, "seed": ctx.seed * 100 + k, "opts": o})
    traces = []
    for job, out in collect(ctx, "sqp_toy", jobs, p):
        traces += out
    ctx.log("%d traces recorded" % len(traces))
    ctx.samples.append({"trace": traces[0]["tid"], "events": traces[0]["ev"][:6]} if traces else {})
    stat = {}
    for t in traces:
        for e in t["ev"]:
            if e["op"] == "done":
                stat[e["status"]] = stat.get(e["status"], 0) + 1
    ctx.cov["solve_calls_by_status"] = stat
    validate_and_report(ctx, "SqpToyTrace", traces, cfg_extra="INVARIANTS InvSuccess InvUnb InvMax", what="solve history")
