"""Histories of AcadosParamManager (C23)."""
import random

import casadi as ca
import numpy as np

from drivers.common import main


def ints(a):
    a = np.asarray(a)
    if a.dtype == object or not np.all(np.isfinite(a.astype(float))) or np.any(a != np.round(a)):
        return "not integers"
    return a.astype(int).tolist()


def mat(rng, r, c, flt=None):
    m = np.array([[rng.randint(-99, 99) for _ in range(c)] for _ in range(r)]).reshape(r, c)
    k = rng.randint(0, 2) if flt is None else flt
    return m.astype(float) if k else (np.asfortranarray(m) if rng.random() < .5 else m)


def history(rng, tid, n, solver=False):
    from acados_template import AcadosParamManager, AcadosParam
    P = []
    for k in range(rng.randint(1, 4)):
        r, c = rng.choice([(1, 1), (1, 1), (2, 1), (1, 3), (2, 2), (2, 3), (3, 2)])
        P.append((rng.choice("abcxyz") + str(k), mat(rng, r, c)))
    N = rng.choice([0, 0, 1, 2, 3, 5])
    args = [AcadosParam(nm, v if rng.random() < .7 else v.tolist()) for nm, v in P]
    kw = {}
    if rng.random() < .5:
        kw["use_SX"] = rng.random() < .5
    pm = AcadosParamManager(args, N, **kw) if N or rng.random() < .5 else AcadosParamManager(args, **kw)
    init = [{"name": nm, "r": v.shape[0], "c": v.shape[1], "def": v.astype(int).tolist()} for nm, v in P]
    ev = []
    expr = pm.get_p_stagewise_expression()
    F = ca.Function("F", [expr], [pm.get_expression(nm) for nm, _ in P])

    def allv():
        ev.append({"op": "all", "N": pm.N_horizon, "v": [[ints(pm.get_value(nm, k)) for nm, _ in P] for k in range(pm.N_horizon + 1)]})

    for _ in range(n):
        o = rng.choice(["setN", "set", "set", "set", "set", "set", "get", "vec", "flat", "flat", "expr", "all"])
        NN = pm.N_horizon
        if o == "setN":
            v = rng.choice([rng.randint(0, 6), max(NN - 1, 0), NN + 1, NN + 1, NN, -1, 2.0, "3"])
            try:
                pm.N_horizon = v
                ok = True
            except (ValueError, TypeError):
                ok = False
            isint = isinstance(v, int)
            ev.append({"op": "setN", "n": v if isint else 0, "int": isint, "ok": ok})
            allv()
        elif o == "set":
            nm, d = rng.choice(P)
            r, c = d.shape
            i = rng.choice([rng.randint(0, NN), rng.randint(0, NN), NN, 0, 0, NN + 1, -1] if rng.random() < .4 else [rng.randint(0, NN)])
            nd, bad = 2, rng.random()
            v = mat(rng, r, c)
            if bad < .06:
                nm = nm + "_"
            elif bad < .1:
                v = mat(rng, r + 1, c)
            elif bad < .14 and r != c:
                v = v.T
            elif bad < .2:
                v = mat(rng, r, c + 1)
            elif bad < .4 and (r == 1 or c == 1):
                v, nd = v.flatten(), 1
            elif bad < .45 and r == c == 1:
                v, nd = float(v[0, 0]), 0
            elif bad < .5:
                v = v.flatten()
                nd = 1
                if not (r == 1 or c == 1):
                    pass
            rec = np.array(v, dtype=int)
            w = rec.reshape(1, -1) if nd < 2 else rec
            given = v.tolist() if isinstance(v, np.ndarray) and rng.random() < .2 else v
            try:
                pm.set_value(nm, given, i)
                ok = True
            except (KeyError, IndexError, ValueError, TypeError):
                ok = False
            ev.append({"op": "set", "name": nm, "v": w.tolist(), "r": w.shape[0], "c": w.shape[1], "nd": nd, "i": i, "ok": ok})
            if isinstance(given, np.ndarray) and rng.random() < .5:
                given += 1000           # the caller's array is the caller's
            if not ok or rng.random() < .4:
                allv()
        elif o == "get":
            nm, _ = rng.choice(P)
            i = rng.choice([rng.randint(0, NN), rng.randint(0, NN), NN + 1, -1])
            try:
                v, ok = pm.get_value(nm, i), True
            except IndexError:
                v, ok = 0, False
            ev.append({"op": "get", "name": nm, "i": i, "ok": ok, "v": ints(v)})
        elif o == "vec":
            i = rng.choice([rng.randint(0, NN), rng.randint(0, NN), NN + 1, -1])
            try:
                v, ok = pm.get_p_stagewise_values(i), True
            except IndexError:
                v, ok = 0, False
            ev.append({"op": "vec", "i": i, "ok": ok, "v": ints(np.array(v).flatten())})
        elif o == "flat":
            ev.append({"op": "flat", "N": pm.N_horizon, "v": ints(pm.get_p_stagewise_values_flat().flatten())})
        elif o == "expr":
            i = rng.randint(0, NN)
            r = F.call([ca.DM(pm.get_p_stagewise_values(i))])
            ev.append({"op": "expr", "i": i, "v": [ints(x.full()) for x in r]})
        else:
            allv()
    allv()
    for nm, d in P:     # arrays given as defaults belong to the caller as well
        if isinstance(d, np.ndarray):
            d += 500
    allv()
    return {"tid": tid, "ps": init, "N": N, "ev": ev}


def run(job):
    rng = random.Random(job["seed"])
    return [history(rng, "%s.%d" % (job["name"], k), job["len"]) for k in range(job["n"])]


if __name__ == "__main__":
    main(run)
