"""Random OCP-structured QPs with integer data and a known integer primal-dual solution, and the AcadosOcpQp they describe.

A description is what specs/OcpQp.tla gives a meaning to: {"N", "st": [per stage {field: value}]}, matrices as
{"r", "c", "v": rows}, vectors as lists.
"""
import random

import numpy as np

from drivers.ocpgen import mat, psd, vec

MATS = ["A", "B", "Q", "R", "S", "C", "D"]
VECS = ["b", "q", "r", "zl", "zu", "Zl", "Zu", "idxb", "lbu", "ubu", "lbx", "ubx", "lg", "ug", "idxs_rev", "lls", "lus",
        "lbu_mask", "ubu_mask", "lbx_mask", "ubx_mask", "lg_mask", "ug_mask", "lls_mask", "lus_mask", "idxe"]
DYN = ["A", "B", "b"]
INTS = ["idxb", "idxs_rev", "idxe"]


def M(rows, r, c):
    return {"r": r, "c": c, "v": [list(x) for x in rows]}


def gen(seed, **o):
    opt = dict(N=(1, 3), nx=(1, 3), nu=(0, 2), vary=True, soft=True, masks=True, shared=False, unsorted=False, smask=True, rank=True, eq=True, lls=True, g=True)
    opt.update(o)
    for k in range(5000):
        rng = random.Random("%s-%d" % (seed, k))
        r = _try(rng, opt)
        if r:
            return r
    raise RuntimeError("no QP with independent constraint gradients for seed %s" % seed)


def _try(rng, opt):
    N = rng.randint(*opt["N"])
    nx = [rng.randint(*opt["nx"]) for _ in range(N + 1)]
    nu = [rng.randint(*opt["nu"]) for _ in range(N)] + [0]
    if not opt["vary"]:
        nx, nu = [nx[0]] * (N + 1), [nu[0]] * N + [0]
    st, sol = [], {"x": [vec(rng, nx[0], -2, 2)], "u": [], "sl": [], "su": [], "pi": [], "lam": []}
    act, cols = [], 0          # gradients of the active constraints over all variables
    offs = []
    plan = []
    for i in range(N + 1):
        s = {}
        x = sol["x"][i]
        u = vec(rng, nu[i], -2, 2)
        sol["u"].append(u)
        n = nu[i] + nx[i]
        H = psd(rng, n)
        s["R"] = M([row[:nu[i]] for row in H[:nu[i]]], nu[i], nu[i])
        s["S"] = M([row[nu[i]:] for row in H[:nu[i]]], nu[i], nx[i])
        s["Q"] = M([row[nu[i]:] for row in H[nu[i]:]], nx[i], nx[i])
        if i < N:
            A, B, b = mat(rng, nx[i + 1], nx[i], -1, 1), mat(rng, nx[i + 1], nu[i], -1, 1), vec(rng, nx[i + 1], -1, 1)
            s["A"], s["B"], s["b"] = M(A, nx[i + 1], nx[i]), M(B, nx[i + 1], nu[i]), b
            sol["x"].append([sum(A[k][j] * x[j] for j in range(nx[i])) + sum(B[k][j] * u[j] for j in range(nu[i])) + b[k] for k in range(nx[i + 1])])
            sol["pi"].append(vec(rng, nx[i + 1]))
        bu = [j for j in range(nu[i]) if rng.random() < .6]
        bx = [j for j in range(nx[i]) if rng.random() < .5]
        fixed = opt["eq"] and i == 0 and rng.random() < .5
        if fixed:
            bx = list(range(nx[0]))
        if opt["unsorted"]:
            rng.shuffle(bu)
            if not fixed:
                rng.shuffle(bx)
        s["idxb"] = bu + [nu[i] + j for j in bx]
        ng = rng.choice([0, 0, 1, 2]) if opt["g"] else 0
        C, D = mat(rng, ng, nx[i], -1, 1), mat(rng, ng, nu[i], -1, 1)
        s["C"], s["D"] = M(C, ng, nx[i]), M(D, ng, nu[i])
        w = u + x
        nb = len(s["idxb"])
        nc = nb + ng
        G = [[1 if k == j else 0 for k in range(n)] for j in s["idxb"]] + [D[k] + C[k] for k in range(ng)]
        val = [sum(a * b_ for a, b_ in zip(row, w)) for row in G]
        rev = [-1] * nc
        ns = 0
        if opt["soft"]:
            for j in range(nc):
                if rng.random() < .45 and not (fixed and len(bu) <= j < nb):
                    if opt["shared"] and ns and rng.random() < .4:
                        rev[j] = rng.randrange(ns)
                    else:
                        rev[j] = ns
                        ns += 1
        if not opt["shared"] and not opt["unsorted"] and opt.get("permute", True) and ns:
            perm = list(range(ns))
            rng.shuffle(perm)
            rev = [perm[r] if r >= 0 else -1 for r in rev]
        s["idxs_rev"] = rev
        s["idxe"] = [len(bu) + j for j in range(nx[0])] if fixed else []
        lls = [rng.choice([0, 0, 1, -1]) if opt["lls"] else 0 for _ in range(ns)]
        lus = [rng.choice([0, 0, 1, -1]) if opt["lls"] else 0 for _ in range(ns)]
        lm = {"l": [], "u": []}
        bnd = {"l": [], "u": []}
        msk = {"l": [], "u": []}
        slv, sact = {"l": [], "u": []}, {"l": [], "u": []}
        for sd, low in (("l", lls), ("u", lus)):
            for j in range(ns):
                free = rng.random() < .5
                slv[sd].append(low[j] + (rng.randint(1, 2) if free else 0))
                sact[sd].append(not free)
        smask = {sd: [0 if opt["masks"] and opt["smask"] and not sact[sd][j] and rng.random() < .15 else 1 for j in range(ns)] for sd in "lu"}
        for j in range(nc):
            eq = fixed and len(bu) <= j < nb
            use_l = rng.choice(["l", "u", "n", "n"])
            for sd in "lu":
                sg = 1 if sd == "l" else -1
                sv = slv[sd][rev[j]] if rev[j] >= 0 else 0
                masked = opt["masks"] and not eq and rng.random() < .12
                active = eq or (not masked and (use_l == sd or (rev[j] >= 0 and rng.random() < .4)))
                margin = 0 if active else rng.randint(1, 3)
                b_ = val[j] + sg * sv - sg * margin      # lower: val + s >= b ; upper: val - s <= b
                if masked:
                    b_ = val[j] + rng.randint(-3, 3)
                bnd[sd].append(b_)
                msk[sd].append(0 if masked else 1)
                lm[sd].append(0)
                if active:
                    lm[sd][-1] = rng.randint(1, 4) if not eq else 0
                    g = np.zeros(0)
                    if not (eq and sd == "u"):
                        act.append((i, G[j], sd, rev[j], sg))
            if eq:
                d = rng.randint(-3, 3)
                lm["l"][-1], lm["u"][-1] = max(0, -d), max(0, d)
            elif bnd["l"][-1] > bnd["u"][-1] and msk["l"][-1] and msk["u"][-1] and rev[j] < 0:
                return None
            elif bnd["l"][-1] >= bnd["u"][-1]:
                # crossing or equal bounds: keep clear of degenerate cases
                if msk["l"][-1] == 0 or msk["u"][-1] == 0:
                    continue
                return None
        ls = {"l": [0] * ns, "u": [0] * ns}
        for sd, z, Z in (("l", "zl", "Zl"), ("u", "zu", "Zu")):
            s[Z] = vec(rng, ns, 1, 4)
            for j in range(ns):
                if sact[sd][j]:
                    ls[sd][j] = rng.randint(1, 4)
                    act.append((i, None, sd, j, 0))
            s[z] = [sum(lm[sd][k] for k in range(nc) if rev[k] == j) + ls[sd][j] - s[Z][j] * slv[sd][j] for j in range(ns)]
        s["lls"], s["lus"] = lls, lus
        s["lls_mask"], s["lus_mask"] = smask["l"], smask["u"]
        k0, k1 = len(bu), nb
        for sd in "lu":
            s[sd + "bu"], s[sd + "bx"], s[sd + "g"] = bnd[sd][:k0], bnd[sd][k0:k1], bnd[sd][k1:]
            s[sd + "bu_mask"], s[sd + "bx_mask"], s[sd + "g_mask"] = msk[sd][:k0], msk[sd][k0:k1], msk[sd][k1:]
        sol["sl"].append(slv["l"])
        sol["su"].append(slv["u"])
        sol["lam"].append(lm["l"] + lm["u"] + ls["l"] + ls["u"])
        plan.append((H, w, G, lm))
        offs.append(cols)
        cols += n + 2 * ns
        st.append(s)
    # gradients are independent?
    nsl = [len(s["lls"]) for s in st]
    rows = []
    for i, g, sd, sj, sg in act:
        r = np.zeros(cols)
        n = nu[i] + nx[i]
        if g is not None:
            r[offs[i]:offs[i] + n] = g
            if sj >= 0:
                r[offs[i] + n + (nsl[i] if sd == "u" else 0) + sj] = sg
        else:
            r[offs[i] + n + (nsl[i] if sd == "u" else 0) + sj] = 1
        rows.append(r)
    for i in range(N):
        for k in range(nx[i + 1]):
            r = np.zeros(cols)
            r[offs[i]:offs[i] + nu[i]] = st[i]["B"]["v"][k]
            r[offs[i] + nu[i]:offs[i] + nu[i] + nx[i]] = st[i]["A"]["v"][k]
            r[offs[i + 1] + nu[i + 1] + k] = -1
            rows.append(r)
    if opt["rank"] and rows and np.linalg.matrix_rank(np.array(rows)) < len(rows):
        return None
    for i in range(N + 1):
        H, w, G, lm = plan[i]
        g = [-sum(H[r][c] * w[c] for c in range(len(w))) for r in range(len(w))]
        for j in range(len(G)):
            for r in range(len(w)):
                g[r] += G[j][r] * (lm["l"][j] - lm["u"][j])
        if i < N:
            for k in range(nx[i + 1]):
                for r in range(nu[i]):
                    g[r] -= st[i]["B"]["v"][k][r] * sol["pi"][i][k]
                for r in range(nx[i]):
                    g[nu[i] + r] -= st[i]["A"]["v"][k][r] * sol["pi"][i][k]
        if i > 0:
            for r in range(nx[i]):
                g[nu[i] + r] += sol["pi"][i - 1][r]
        st[i]["r"], st[i]["q"] = g[:nu[i]], g[nu[i]:]
    if opt["rank"] and any(abs(v) > 60 for x in sol["x"] for v in x):
        return None
    return {"N": N, "nx": nx, "nu": nu, "st": st, "sol": sol}


def value(q, f, i):
    """numpy value of a field"""
    v = q["st"][i][f]
    if f in MATS:
        return np.array(v["v"], dtype=float).reshape(v["r"], v["c"])
    return np.array(v, dtype=int if f in INTS else float)


def fields(q, i):
    return [f for f in MATS + VECS if f in q["st"][i]]


def build(q):
    from acados_template import AcadosOcpQp
    o = AcadosOcpQp(q["N"])
    for i in range(q["N"] + 1):
        for f in fields(q, i):
            o.set(f, i, value(q, f, i))
    return o
