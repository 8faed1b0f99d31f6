"""C12: the CasADi translation of a problem is the same problem, and its solver object a faithful store."""
from vlib import *

TECHNIQUE = "TLA+ specification of the equivalent NLP and of the solver's store, TLC; trace validation of the real translation and solver object"
NOTE = ("The specification defines objective, constraints, bounds, layout, Hessian approximations and multiplier conversion of the NLP from the problem "
        "description; random integer problems are translated by the real code and evaluated exactly, and random histories of set/get/solve on the real solver object "
        "(with a scripted NLP solver) must be behaviours of the specification. TLC checks round-trip and non-interference on the store. Trusts CasADi's evaluation.")


def main(ctx):
    jobs = []
    n = 14 if ctx.quick else 120

    def job(name, n, ln=30, hess=(), single=False, **gen):
        for k in range(2):
            jobs.append({"name": "%s%d" % (name, k), "seed": ctx.seed * 1000 + len(jobs), "n": n, "gen": gen, "hess": list(hess), "len": ln, "single": single})
    E = {"exact": True, "dyn": True, "con": True}
    job("any", n)
    job("infb", n // 2, infb=True, N=(1, 4))
    job("hnls", n // 2, 0, [E, {"exact": True, "dyn": False, "con": True}, {"exact": True, "dyn": True, "con": False}, {"exact": False, "dyn": False, "con": False}],
        costs=["NONLINEAR_LS"], dyn=["DISCRETE"], N=(1, 2))
    job("hls", n // 3, 0, [E, {"exact": False, "dyn": False, "con": False}], costs=["LINEAR_LS"], N=(1, 2), dyn=["DISCRETE"], deg=3)
    job("single", n, 0, [], True, affine=True, bx=False, x0=[True], N=(1, 3))
    job("single1", n, 0, [], True, dyn=["DISCRETE"], bx=False, x0=[True], N=(1, 1), nx=(1, 2))
    traces = []
    for j, out in collect(ctx, "casadi_nlp", jobs):
        traces += out
    ctx.log("%d traces recorded" % len(traces))
    ops = {}
    for t in traces:
        for e in t["ev"]:
            ops[e["op"]] = ops.get(e["op"], 0) + 1
    ctx.cov["events"] = ops
    if traces:
        ctx.samples.append({"trace": traces[0]["tid"], "events": traces[0]["ev"][:2]})
        small = sorted((t["init"] for t in traces if t["init"]["con"]["p"]["idxsh"] and t["init"]["con"]["e"]["C"]), key=lambda d: len(json.dumps(d)))[:2]
        m = tlc("CasadiNlpMC", "SPECIFICATION MCSpec\nINVARIANTS RoundTrip Untouched DataKept\nCHECK_DEADLOCK FALSE\n",
                files={"descs.ndjson": "".join(json.dumps(d) + "\n" for d in small)}, workers="8")
        if not m.ok:
            raise CheckError("the specification itself fails:\n" + m.out[-3000:])
        ctx.add_tlc(m)
        ctx.cov["model_states"] = m.distinct
    validate_and_report(ctx, "CasadiNlpTrace", traces, what="translation/solver history", max_rejections=3)
