#!/opt/acados-env/venv/bin/python
"""run_check.py ID [--tier quick|thorough] [--replay FILE]: runs one property's check; see lib/vlib.py"""
import argparse
import importlib
import json
import os
import shutil
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, "lib"))
sys.path.insert(0, os.path.join(HERE, "checks"))
import vlib  # noqa: E402


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    a = ap.parse_args()
    mod = importlib.import_module(a.prop)
    level = getattr(mod, "LEVEL", "model_checking")
    ctx = vlib.Ctx(a.prop, a.tier, a.seed, level)
    ctx.t0 = time.time()
    try:
        mod.main(ctx)
    finally:
        shutil.rmtree(ctx.scratch, ignore_errors=True)
    cov = {"states": ctx.states, "transitions": ctx.transitions,
           "traces_validated_against_impl": ctx.traces, "samples": ctx.samples[:5]}
    cov.update(ctx.cov)
    ev = {"property": a.prop, "tier": a.tier if a.tier in ("quick", "thorough") else "quick", "seed": a.seed,
          "level": level, "coverage": cov, "wall_s": round(time.time() - ctx.t0, 2)}
    if ctx.assumptions:
        ev["assumptions"] = ctx.assumptions
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", a.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    for key, what in sorted(set(ctx.known)):
        print("KNOWN-FINDING: property=%s %s" % (a.prop, what))
    if ctx.violations:
        rp = os.path.join(HERE, "evidence", a.prop + ".replay.json")
        with open(rp, "w") as f:
            json.dump([{"key": k, "what": w, "data": d} for k, w, d in ctx.violations], f, indent=1, default=str)
        for k, w, d in ctx.violations[:4]:
            print("  %s: %s" % (k, w if len(w) < 1500 else w[:1500] + " ..."))
        print("VIOLATION property=%s replay=%s" % (a.prop, rp))
        sys.exit(1)
    if not ctx.traces and not ctx.cov.get("traces_validated_against_impl"):
        print("check %s validated nothing" % a.prop)
        sys.exit(3)
    print("OK %s: %d states, %d traces validated, %.1fs" % (a.prop, ctx.states, ctx.traces, time.time() - ctx.t0))


if __name__ == "__main__":
    main()
