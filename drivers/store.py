"""Histories of writes, reads and save/restore on real solver objects and iterate objects (specs/Store.tla)."""
import math
import os
import random

import numpy as np

from drivers import common, ocpgen

INFB = ocpgen.INFB
WEIRD = [0.1, 1 / 3, math.pi, 1e-300, 5e-324, 1.7976931348623157e308, -0.2, 1e22 + 2.0**21, 2.0**-1074 * 3, 123456789.123456789, 1 + 2.0**-52, -1e-17]
CODE = {w: 1000 + k for k, w in enumerate(WEIRD)}
FIELDS = ["x", "u", "z", "sl", "su", "pi", "lam"]
INNER = ["u", "z", "pi"]


def dec(v):
    return np.array([1e10 if c == INFB else -1e10 if c == -INFB else WEIRD[c - 1000] if c >= 1000 else float(c) for c in v], dtype=float)


def enc(a):
    out = []
    for x in np.asarray(a, dtype=float).ravel(order="F"):
        x = float(x) + 0.0
        if x in CODE:
            out.append(CODE[x])
        elif x == 1e10:
            out.append(INFB)
        elif x == -1e10:
            out.append(-INFB)
        elif math.isnan(x):
            out.append(common.NAN)
        else:
            out.append(int(x) if x == int(x) and abs(x) < 1000 else common.NONINT) if abs(x) < 1e15 else out.append(common.NONINT)
    return out


def val(rng, n, inf=0, weird=.5):
    out = []
    for _ in range(n):
        r = rng.random()
        out.append(inf if inf and r < .25 else 1000 + rng.randrange(len(WEIRD)) if rng.random() < weird else rng.randint(-9, 9))
    return [1000 if inf and c in (1005, 1007) else c for c in out]      # no bound beyond infinity


def nstages(N, f):
    return N if f in INNER else N + 1


def it_of(iterate):
    return {f: [enc(v) for v in getattr(iterate, f)] for f in FIELDS}


def obj_of(it):
    from acados_template import AcadosOcpIterate
    return AcadosOcpIterate(**{f: [dec(v) for v in it[f]] for f in FIELDS})


def flat_of(fi):
    return {f: enc(getattr(fi, f)) for f in FIELDS}


# ------------------------------------------------------------------ solver
class Run:
    def __init__(self, job, seed):
        self.rng = random.Random(seed)
        self.d = ocpgen.gen(seed, **job["gen"])
        o = ocpgen.build(self.d, qp_solver="PARTIAL_CONDENSING_HPIPM", nlp_solver_type="SQP", hessian_approx="GAUSS_NEWTON")
        o.model.name = "st%d" % seed
        self.s = common.make_solver(o, "st%d" % seed, save_p_global=True)
        self.ev = []
        self.files = {}
        self.objs = {}
        self.ops = job["ops"]
        self.nodat = job.get("nodat", False)

    def dim(self, f, i):
        return len(self.s.get(i, f))

    def attempt(self, fun):
        try:
            with common.quiet():
                fun()
            return True
        except (ValueError, RuntimeError, TypeError, KeyError, AssertionError, IndexError):
            return False

    def current(self):
        return {f: [enc(self.s.get(i, f)) for i in range(nstages(self.s.N, f))] for f in FIELDS}

    def data(self, i):
        s, d = self.s, self.d
        k = "e" if i == d["N"] else "0" if i == 0 else "p"
        r = {f: enc(s.constraints_get(i, f)) for f in ("lbx", "ubx", "lbu", "ubu", "lg", "ug", "C", "D", "lh", "uh")}
        t = d["cost"][k]["type"]
        r["yref"] = enc(s.cost_get(i, "yref")) if t != "EXTERNAL" else []
        r["W"] = enc(s.cost_get(i, "W")) if t in ("LINEAR_LS", "NONLINEAR_LS") else []
        for f in ("zl", "zu", "Zl", "Zu", "scaling"):
            r[f] = enc(s.cost_get(i, f))
        r["p"] = enc(s.get(i, "p"))
        return r

    def dump(self):
        if self.nodat:
            self.ev.append({"op": "dumpit", "it": self.current()})
            return
        self.ev.append({"op": "dump", "it": self.current(), "dat": [self.data(i) for i in range(self.s.N + 1)]})

    def write(self, kind):
        rng, s, d, N = self.rng, self.s, self.d, self.s.N
        bad = rng.random() < .15
        i = rng.randint(0, N)
        off = rng.choice([-1, 1, 2]) if bad and rng.random() < .7 else 0
        stage = i if not bad or off else rng.choice([-1, N + 1, N + 2])
        if kind == "set":
            f = rng.choice(FIELDS)
            if f in INNER and i == N:
                i = N - 1
                stage = N if f == "pi" and rng.random() < .3 else i
            n = max(0, self.dim(f, i) + off)
            if f == "pi" and stage == N:
                n = d["nu"]
            v = val(rng, n)
            a = dec(v)
            if rng.random() < .3:
                a = np.repeat(a, 2)[::2]        # not contiguous
            if rng.random() < .15 and n and not off:
                a = np.column_stack([a, a])
                v = v + v
            ok = self.attempt(lambda: s.set(stage, f, a))
            self.ev.append({"op": "set", "f": f, "i": stage, "v": v, "ok": ok})
        elif kind == "vec":
            k = "e" if i == N else "0" if i == 0 else "p"
            ty = d["cost"][k]["type"]
            f = rng.choice(["lbx", "ubx", "lbu", "ubu", "lg", "ug", "lh", "uh", "zl", "zu", "Zl", "Zu", "scaling", "p"] + (["yref"] * 3 if ty != "EXTERNAL" else []))
            cur = self.data(i)[f]
            n = max(0, len(cur) + off)
            if n == 0 and off < 0:
                off = 0
            inf = 0 if f not in ("lbx", "ubx", "lbu", "ubu", "lg", "ug", "lh", "uh") else -INFB if f[0] == "l" else INFB
            v = val(rng, n, inf)
            a = dec(v)
            if f == "p":
                fun = lambda: s.set(stage, "p", a)
            elif f in ("yref", "lbx", "ubx", "lbu", "ubu") and rng.random() < .5:
                fun = lambda: s.set(stage, "y_ref" if f == "yref" and rng.random() < .3 else f, a)
            elif f in ("yref", "zl", "zu", "Zl", "Zu", "scaling"):
                fun = lambda: s.cost_set(stage, f, a)
            else:
                fun = lambda: s.constraints_set(stage, f, a)
            self.ev.append({"op": "vec", "f": f, "i": stage, "v": v, "ok": self.attempt(fun)})
        elif kind == "mat":
            k = "e" if i == N else "0" if i == 0 else "p"
            f = rng.choice((["W"] if d["cost"][k]["type"] in ("LINEAR_LS", "NONLINEAR_LS") else []) + ["C", "D"])
            m = s.cost_get(i, "W") if f == "W" else s.constraints_get(i, f)
            r, c = m.shape
            if off:
                r, c = (c, r) if rng.random() < .5 else (r, c + 1)
            if r * c == 0:
                return
            v = val(rng, r * c)
            a = dec(v).reshape((r, c), order="F")
            if rng.random() < .5:
                a = np.ascontiguousarray(a)
            fun = (lambda: s.cost_set(stage, f, a, api="new")) if f == "W" else (lambda: s.constraints_set(stage, f, a, api="new"))
            self.ev.append({"op": "mat", "f": f, "i": stage, "r": r, "c": c, "v": v, "ok": self.attempt(fun)})
        elif kind == "flat":
            f = rng.choice(FIELDS)
            n = len(s.get_flat(f)) + (rng.choice([-1, 1]) if bad else 0)
            if n < 0:
                return
            v = val(rng, n)
            a = dec(v)
            if rng.random() < .3:
                a = np.repeat(a, 2)[::2]
            self.ev.append({"op": "setflat", "f": f, "v": v, "ok": self.attempt(lambda: s.set_flat(f, a))})
        elif kind == "flatp":
            n = (N + 1) * d["np"] + (rng.choice([-1, 1]) if bad and d["np"] else 0)
            v = val(rng, n)
            self.ev.append({"op": "setflatp", "v": v, "ok": self.attempt(lambda: s.set_flat("p", dec(v)))})
        elif kind == "sparse" and d["np"]:
            m = rng.randint(0, d["np"])
            idx = [rng.randrange(d["np"]) for _ in range(m)]
            if bad and m and stage == i:
                idx[rng.randrange(m)] = rng.choice([-1, d["np"], d["np"] + 3])
            v = val(rng, m)
            a = dec(v)
            if rng.random() < .4:
                a = np.repeat(a, 2)[::2]
            self.ev.append({"op": "sparse", "i": stage, "idx": idx, "v": v, "ok": self.attempt(lambda: s.set_params_sparse(stage, np.array(idx, dtype=int), a))})
        elif kind == "pg" and d["npg"]:
            v = val(rng, d["npg"] + (1 if bad else 0))
            a = dec(v)
            ok = self.attempt(lambda: s.set_p_global_and_precompute_dependencies(a))
            a[:] = 77.0     # the caller's array is the caller's
            self.ev.append({"op": "pg", "v": v, "ok": ok})

    def read(self):
        rng, s, d, N = self.rng, self.s, self.d, self.s.N
        r = rng.random()
        if r < .4:
            f = rng.choice(FIELDS)
            i = rng.randint(0, nstages(N, f) - 1)
            self.ev.append({"op": "get", "f": f, "i": i, "v": enc(s.get(i, f))})
        elif r < .7:
            f = rng.choice(FIELDS)
            self.ev.append({"op": "getflat", "f": f, "v": enc(s.get_flat(f))})
        elif r < .85 and d["np"]:
            self.ev.append({"op": "getflatp", "v": enc(s.get_flat("p"))})
        elif d["npg"]:
            a = s.get_flat("p_global")
            self.ev.append({"op": "getpg", "v": enc(a)})
            a[:] = 55.0

    def saved(self):
        """save in one form, load from another"""
        from acados_template import AcadosOcpIterate
        rng, s, N = self.rng, self.s, self.s.N
        names = sorted(self.objs)
        op = rng.choice(["save", "save", "load", "load", "foreign", "conv", "read"])
        n = rng.choice("abc")
        if op == "save":
            form = rng.choice(["file", "obj", "flat"])
            if form == "file":
                fn = os.path.abspath("%s_%s.json" % (s.name if hasattr(s, "name") else "s", n))
                with common.quiet():
                    s.store_iterate(fn, overwrite=True, verbose=False)
                self.objs[n] = ("file", fn)
            elif form == "obj":
                self.objs[n] = ("obj", s.get_iterate())
            else:
                self.objs[n] = ("flat", s.get_flat_iterate())
            self.ev.append({"op": "save", "s": n})
        elif op == "load" and names:
            n = rng.choice(names)
            form, o = self.objs[n]
            how = rng.random()
            if form == "file":
                if how < .5:
                    fun = lambda: s.load_iterate(o, verbose=False)
                else:
                    fun = lambda: s.set_iterate(AcadosOcpIterate.from_json(o))
            elif form == "obj":
                fun = (lambda: s.set_iterate(o.flatten())) if how < .5 and self.fits(o) else (lambda: s.set_iterate(o))
            else:
                fun = lambda: s.set_iterate(o)
            ok = self.attempt(fun)
            self.ev.append({"op": "load", "s": n, "ok": ok, "now": self.current()})
        elif op == "foreign":
            # an iterate from elsewhere: right or wrong in one vector or one stage too many
            it = {f: [val(rng, self.dim(f, i)) for i in range(nstages(N, f))] for f in FIELDS}
            if rng.random() < .6:
                f = rng.choice(FIELDS)
                k = rng.randrange(len(it[f]))
                if rng.random() < .3 and it[f][k]:
                    it[f].append(val(rng, len(it[f][k])))
                elif rng.random() < .5 and it[f][k]:
                    it[f][k] = it[f][k][:-1]
                else:
                    it[f][k] = it[f][k] + [1]
            self.objs[n] = ("obj", obj_of(it))
            self.ev.append({"op": "new", "s": n, "v": it})
        elif op in ("read", "conv") and names:
            n = rng.choice(names)
            form, o = self.objs[n]
            if form == "file":
                o = AcadosOcpIterate.from_json(o)
                self.ev.append({"op": "read", "s": n, "v": it_of(o)})
            elif form == "obj":
                self.ev.append({"op": "read", "s": n, "v": it_of(o)})
            else:
                self.ev.append({"op": "readflat", "s": n, "v": flat_of(o)})

    def fits(self, o):
        return all(len(getattr(o, f)) == nstages(self.s.N, f) and all(len(v) == self.dim(f, i) for i, v in enumerate(getattr(o, f))) for f in FIELDS)

    def go(self, length):
        self.x = [self.s.get(i, "x") for i in range(self.s.N + 1)]
        self.dump()
        for k in range(length):
            op = self.rng.choice(self.ops)
            if op == "read":
                self.read()
            elif op == "saved":
                self.saved()
            else:
                self.write(op)
            if self.rng.random() < .25:
                self.dump()
        self.dump()


# ------------------------------------------------------------------ iterate objects alone
def objects(seed, length):
    from acados_template import AcadosOcpIterate
    from acados_template.acados_ocp_iterate import AcadosOcpIterates, AcadosOcpFlattenedBatchIterate
    import json
    rng = random.Random(seed)
    N = rng.choice([0, 1, 2, 3, 8, 9, 10, 11, 98, 99, 100])
    uni = rng.random() < .4
    empty = rng.random() < .4

    def dims():
        mx = 2 if N > 20 else 3
        if uni:
            return {f: [rng.choice([1, 2])] * 1 * nstages(N, f) if not (empty and f in ("z", "sl", "su", "lam")) else [0] * nstages(N, f) for f in FIELDS}
        lo = 0 if empty else 1
        return {f: [0 if empty and rng.random() < .4 else rng.randint(lo, mx) for _ in range(nstages(N, f))] for f in FIELDS}
    D = dims()
    if empty and not uni and rng.random() < .5:
        for f in FIELDS:
            if D[f]:
                D[f][-1] = 0
    ev, slots, small = [], {}, {}

    def new(ints):
        return {f: [val(rng, n, 0, 0 if ints else .8) for n in D[f]] for f in FIELDS}
    for n in "abcd":
        v = new(n in "ab")
        if n == "b" and rng.random() < .3:
            v = {f: [list(w) for w in slots["a"][1][f]] for f in FIELDS}
        elif n == "b" and rng.random() < .5:
            v = {f: [list(w) for w in slots["a"][1][f]] for f in FIELDS}
            ks = [(f, k) for f in FIELDS for k in range(len(v[f])) if v[f][k]]
            if ks:
                f, k = rng.choice(ks)
                v[f][k][rng.randrange(len(v[f][k]))] += 1
        slots[n] = (obj_of(v), v)
        ev.append({"op": "new", "s": n, "v": v})
    for k in range(length):
        op = rng.choice(["json", "copy", "flat", "close", "arith", "array", "read", "batch"])
        n = rng.choice("abcd")
        o = slots[n][0]
        if op == "json":
            s = o.to_json()
            recs = [[key.split("_")[0], int(key.split("_")[1]), len(key.split("_")[1]), enc(v)] for key, v in json.loads(s).items()]
            ev.append({"op": "json", "s": n, "recs": recs})
        elif op == "copy":
            t = rng.choice("cd")
            if rng.random() < .5:
                with open("it.json", "w") as f:
                    f.write(o.to_json())
                q = AcadosOcpIterate.from_json("it.json")
            else:
                q = AcadosOcpIterate.from_json(json_data=json.loads(o.to_json(indent=None, sort_keys=rng.random() < .5)))
            slots[t] = (q, None)
            ev.append({"op": "copy", "s": n, "t": t})
            ev.append({"op": "read", "s": t, "v": it_of(q)})
        elif op == "read":
            ev.append({"op": "read", "s": n, "v": it_of(o)})
        elif op == "flat":
            ev.append({"op": "readflat", "s": n, "v": flat_of(o.flatten())})
        elif op == "close":
            a, b = slots["a"][0], slots["b"][0]
            ev.append({"op": "allclose", "s": "a", "t": "b", "v": bool(a.allclose(b) if rng.random() < .5 else a.flatten().allclose(b.flatten()))})
        elif op == "arith":
            a, b = slots["a"][0].flatten(), slots["b"][0].flatten()
            if sum(len(getattr(a, f)) for f in FIELDS):
                ev.append({"op": "arith", "s": "a", "t": "b", "add": flat_of(a + b), "sub": flat_of(a - b), "norm": enc([(a - b).inf_norm()])[0]})
        elif op == "array" and uni:
            names = [rng.choice("abcd") for _ in range(rng.randint(1, 3))]
            f = rng.choice(FIELDS)
            if not D[f]:
                continue
            A = AcadosOcpIterates([slots[m][0] for m in names]).as_array(f)
            ev.append({"op": "array", "list": names, "f": f, "v": [[enc(A[i, j]) for j in range(A.shape[1])] for i in range(A.shape[0])]})
        elif op == "batch":
            fl = [slots[m][0].flatten() for m in "abcd"]
            B = AcadosOcpFlattenedBatchIterate(**{f: np.zeros((4, len(getattr(fl[0], f)))) for f in FIELDS}, N_batch=4)
            order = rng.sample(range(4), 4)
            for j in order:
                B[j] = fl[j]
            for j, m in enumerate("abcd"):
                ev.append({"op": "readflat", "s": m, "v": flat_of(B[j])})
    d = {"N": 0, "nx": 0, "nu": 0, "nz": 0, "np": 0, "npg": 0, "x0": False, "pg": [], "p": [], "scaling": [1], "cost": {"e": {"type": "EXTERNAL"}},
         "slack": {"e": {"zl": [], "zu": [], "Zl": [], "Zu": []}},
         "con": {"e": {f: [] for f in ("idxbx", "idxbu", "C", "D", "h", "phi", "r", "idxsbx", "idxsbu", "idxsg", "idxsh", "idxsphi",
                                       "lbx", "ubx", "lbu", "ubu", "lg", "ug", "lh", "uh", "lphi", "uphi")}}}
    return {"init": d, "x": [[]], "ev": ev}


def run(job):
    import warnings
    warnings.simplefilter("ignore")
    out = []
    for k in range(job["n"]):
        seed = job["seed"] * 1000 + k
        if job["kind"] == "objects":
            t = objects(seed, job["len"])
            out.append(dict(t, tid="%s/%d" % (job["name"], seed)))
            continue
        r = Run(job, seed)
        for h in range(job["hist"]):
            if h:
                # the next history starts from a fresh solver of the same description
                from acados_template import AcadosOcpSolver
                with common.quiet():
                    r.s = AcadosOcpSolver(r.s.acados_ocp, generate=False, build=False, verbose=False, save_p_global=True, check_reuse_possible=False)
                r.ev, r.objs = [], {}
            r.go(job["len"])
            out.append({"tid": "%s/%d.%d" % (job["name"], seed, h), "init": r.d, "x": [enc(v) for v in r.x], "ev": r.ev})
    return out


if __name__ == "__main__":
    common.main(run)
