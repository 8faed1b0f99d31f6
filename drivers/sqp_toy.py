"""Drives the real SQP solver on the toy problem with a scripted QP solver and records what it does."""
import os
import random

import numpy as np

from drivers import common, toyocp
from drivers.common import ints, NAN


def kkt_points():
    """integer KKT points of the toy problem: (iterate, p, xbar)"""
    out = []
    for x1 in range(-2, 3):
        for x2 in range(-3, 4):
            for x0 in range(-3, 4):
                for u0 in range(-2, 4):
                    for u1 in range(-2, 4):
                        h = x1 * x1 - u1
                        if not -4 < h < 6:
                            continue
                        pi2 = 4 * (x2 + 1)
                        r = 2 * u1 + x1 + (1 + x1) * pi2
                        if r and not (u1 == -2 and r > 0 or u1 == 3 and r < 0):
                            continue
                        lam1 = [max(r, 0), 0, max(-r, 0), 0, 3, 5]
                        pi1 = 2 * (x1 - 1) + u1 + (1 + u1) * pi2
                        r0 = 2 * u0 + x0 + (1 + x0) * pi1
                        if r0 and not (u0 == -2 and r0 > 0 or u0 == 3 and r0 < 0):
                            continue
                        rx = 2 * (x0 - 1) + u0 + (1 + u0) * pi1
                        lam0 = [max(r0, 0), max(rx, 0), max(-r0, 0), max(-rx, 0)]
                        p = [x1 - (x0 + u0 + x0 * u0), x2 - (x1 + u1 + x1 * u1)]
                        if max(map(abs, p)) > 40:
                            continue
                        out.append(({"x": [x0, x1, x2], "u": [u0, u1], "s": [0] * 4, "pi": [pi1, pi2],
                                     "l0": lam0, "l1": lam1, "l2": [0, 0, 7, 9]}, p, x0))
    return out


def rnd_iterate(rng, big=False):
    m = 512 if big else 1
    return {"x": [rng.randint(-4, 4) for _ in range(3)], "u": [rng.randint(-3, 4) for _ in range(2)],
            "s": [rng.choice([0, 0, 1, 3]) for _ in range(4)], "pi": [m * rng.randint(-3, 3) for _ in range(2)],
            "l0": [m * rng.choice([0, 0, 1, 2]) for _ in range(4)], "l1": [m * rng.choice([0, 0, 1, 2]) for _ in range(6)],
            "l2": [m * rng.choice([0, 0, 1, 2]) for _ in range(4)]}


def flat_step(st):
    """in the order of the QP solution: per stage (u, x, sl, su), pi, lam"""
    v = [st["u"][0], st["x"][0], st["pi"][0]] + st["l0"]
    v += [st["u"][1], st["x"][1], st["s"][0], st["s"][1], st["pi"][1]] + st["l1"]
    v += [st["x"][2], st["s"][2], st["s"][3]] + st["l2"]
    return v


def set_iterate(s, it, p, xbar):
    for k in range(3):
        s.set(k, "x", np.array([float(it["x"][k])]))
        s.set(k, "lam", np.array([float(v) for v in it["l%d" % k]]))
    for k in range(2):
        s.set(k, "u", np.array([float(it["u"][k])]))
        s.set(k, "pi", np.array([float(it["pi"][k])]))
        s.set(k, "p", np.array([np.nan if p[k] == NAN else float(p[k])]))
    for k, i in ((1, 0), (2, 2)):
        s.set(k, "sl", np.array([float(it["s"][i])]))
        s.set(k, "su", np.array([float(it["s"][i + 1])]))
    s.set(0, "lbx", np.array([float(xbar)]))
    s.set(0, "ubx", np.array([float(xbar)]))


def read_iterate(s):
    return {"x": ints([s.get(k, "x")[0] for k in range(3)]), "u": ints([s.get(k, "u")[0] for k in range(2)]),
            "s": ints([s.get(1, "sl")[0], s.get(1, "su")[0], s.get(2, "sl")[0], s.get(2, "su")[0]]),
            "pi": ints([s.get(k, "pi")[0] for k in range(2)]),
            "l0": ints(s.get(0, "lam")), "l1": ints(s.get(1, "lam")), "l2": ints(s.get(2, "lam"))}


def conv_iterate(a):
    return {"x": ints([a.x[k][0] for k in range(3)]), "u": ints([a.u[k][0] for k in range(2)]),
            "s": ints([a.sl[1][0], a.su[1][0], a.sl[2][0], a.su[2][0]]), "pi": ints([a.pi[k][0] for k in range(2)]),
            "l0": ints(a.lam[0]), "l1": ints(a.lam[1]), "l2": ints(a.lam[2])}


def qp_fields(q):
    s0, s1, s2 = q["qp"]
    return {"g": ints([s0["g"], s1["g"], s2["g"]]), "H": [ints(s0["H"]), ints(s1["H"]), ints(s2["H"])],
            "BA": [ints(s0["BAt"]), ints(s1["BAt"])], "b": [ints(s0["b"]), ints(s1["b"])],
            "d": [ints(s0["d"]), ints(s1["d"]), ints(s2["d"])], "DC": ints(s1["DCt"])}


def sub(a, b):
    return [x - y for x, y in zip(a, b)]


def make_script(rng, glob, start, kkts, target):
    """a list of (status, iters, step); steps are chosen without knowledge of the accepted lengths"""
    n = 7
    hit = rng.randrange(4)
    big = glob != "FIXED_STEP"
    script = []
    cur = start
    for i in range(n):
        st = {}
        r = rng.random()
        status = 0
        if r < 0.08:
            status = rng.choice([1, 3, 4, 5, 6, 99])
        elif r < 0.2:
            status = 2
        if big:
            z = rnd_iterate(rng, True)
            st = {"x": [8 * rng.randint(-1, 1) for _ in range(3)], "u": [8 * rng.randint(-1, 1) for _ in range(2)],
                  "s": [8 * rng.choice([0, 0, 1]) for _ in range(4)], "pi": z["pi"], "l0": z["l0"], "l1": z["l1"], "l2": z["l2"]}
        else:
            z = rnd_iterate(rng)
            if target is not None and i == hit:
                z = target
            st = {k: sub(z[k], cur[k]) for k in ("x", "u", "s")}
            st.update({k: z[k] for k in ("pi", "l0", "l1", "l2")})
            if rng.random() < 0.1:
                st = {k: [0] * len(v) for k, v in st.items()}
                z = dict(cur, **{k: st[k] for k in ("pi", "l0", "l1", "l2")})
            cur = z
        script.append((status, rng.randint(0, 9), st))
    return script


def record(s, stub, script, opt, ev):
    stub.clear()
    for status, iters, st in script:
        stub.push(status, iters, flat_step(st))
    ev.append({"op": "solve", "opt": opt})
    with common.quiet():
        status = s.solve()
    nit = int(s.get_stats("nlp_iter"))
    stat = np.atleast_2d(s.get_stats("statistics"))
    log = stub.log()
    its = [conv_iterate(s.get_iterate(i)) for i in range(nit + 1)]
    nqp = stub.used()
    for i in range(nqp):
        ev.append({"op": "eval", "it": its[i]})
        ev.append({"op": "row", "res": ints(stat[1:5, i])})
        ev.append({"op": "qp", "status": script[i][0], "step": script[i][2], "qp": qp_fields(log[i]),
                   "ws": log[i]["warm_start"]})
        if i + 1 < stat.shape[1]:
            # columns: qp status and iterations of the last QP belong to the next row
            ok = int(stat[5, i + 1]) == script[i][0] and int(stat[6, i + 1]) == script[i][1]
            if not ok:
                ev[-1]["ws"] = "statistics of QP %d wrong: %s" % (i, stat[5:7, i + 1].tolist())
        if script[i][0] in (0, 2) and not (i == nqp - 1 and status == 1 and nit == i):
            a = float(stat[7, i + 1]) if i + 1 < stat.shape[1] else -1.0
            ev.append({"op": "accept", "alpha": list(a.as_integer_ratio()) if a == a and abs(a) < 1e6 else [-1, 1]})
    if len(log) != nqp:
        ev.append({"op": "unscripted QP"})
    if not (nqp and script[nqp - 1][0] not in (0, 2)):
        ev.append({"op": "eval", "it": its[nit]})
        ev.append({"op": "row", "res": ints(stat[1:5, nit])})
    ev.append({"op": "done", "status": int(status), "iter": nit, "nqp": nqp, "it": read_iterate(s),
               "res": ints([s.get_stats("residuals")[j] for j in range(4)]), "iters": its, "cost": ints(s.get_cost())})


def run(job):
    glob = job["glob"]
    rng = random.Random(job["seed"])
    kw = dict(job.get("opts", {}))
    ocp = toyocp.build("SQP", glob, store_iterates=True, nlp_solver_max_iter=6, qp_solver_warm_start=job["ws"],
                       nlp_solver_warm_start_first_qp=job["wsFirst"], **kw)
    s = common.make_solver(ocp, job["name"])
    stub = common.Stub(os.environ["ACADOS_SOURCE_DIR"])
    stub.install(s)
    stub.mode(False)
    s.options_set("qp_warm_start", job["ws"])    # what was set before the stand-in was installed, it has not seen
    kkts = kkt_points()
    traces = []
    ws, wsf = job["ws"], job["wsFirst"]
    for t in range(job["n"]):
        ev = []
        for call in range(rng.choice([1, 1, 2, 3])):
            target = None
            if rng.random() < 0.5:
                target, p, xbar = rng.choice(kkts)
                p = list(p)
            else:
                p, xbar = [rng.randint(-3, 3), rng.randint(-3, 3)], rng.randint(-2, 2)
            if rng.random() < 0.05:
                p[rng.randrange(2)] = NAN
            if target is not None and glob == "FIXED_STEP" and rng.random() < 0.1:
                start = target
            else:
                start = rnd_iterate(rng, glob != "FIXED_STEP")
            keep = call > 0 and glob == "FIXED_STEP" and rng.random() < 0.3      # continue from where the last call ended
            if keep:
                start = read_iterate(s)
                if any(v in (NAN, common.NONINT) for f in start.values() for v in f):
                    break
            set_iterate(s, start, p, xbar)
            ev.append({"op": "set", "it": start, "pr": {"p": p, "xbar": xbar}})
            maxit = rng.choice([0, 1, 2, 3, 6] if job["evalAtMax"] else [1, 2, 3, 6])
            if glob != "FIXED_STEP":
                maxit = min(maxit, 3)       # every further step could need another three bits
            tol = [rng.choice([1, 1, 5, 20]) for _ in range(4)]
            s.options_set("nlp_solver_max_iter", maxit)
            for f, v in zip(("tol_stat", "tol_eq", "tol_ineq", "tol_comp"), tol):
                s.options_set(f, float(v))
            if rng.random() < 0.3:
                ws = rng.randint(0, 2)
                s.options_set("qp_warm_start", ws)
            if rng.random() < 0.3:
                wsf = not wsf
                s.options_set("warm_start_first_qp", wsf)
            opt = {"maxIter": maxit, "evalAtMax": job["evalAtMax"], "tol": tol, "minStep": job["minStep"],
                   "minStepOn": job["minStep"] > 0, "unb": job["unb"], "needsObj": glob != "FIXED_STEP",
                   "glob": glob, "step": [1, 1], "fullDual": False, "ws": ws, "wsFirst": wsf,
                   "armijo": False, "epsInv": 2, "minAlphaInv": 10}
            if glob == "FIXED_STEP":
                opt["step"] = job.get("step", [1, 1])
            else:
                opt["armijo"] = bool(rng.randint(0, 1))
                s.options_set("globalization_line_search_use_sufficient_descent", int(opt["armijo"]))
            opt["fullDual"] = bool(rng.randint(0, 1))
            s.options_set("globalization_full_step_dual", int(opt["fullDual"]))
            record(s, stub, make_script(rng, glob, start, kkts, target), opt, ev)
        traces.append({"tid": "%s-%d" % (job["name"], t), "ev": ev})
    return traces


if __name__ == "__main__":
    common.main(run)
