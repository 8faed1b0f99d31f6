------------------------------- MODULE OcpQp -------------------------------
(* An OCP-structured QP: the container's data and their consistency, the QP   *)
(* they describe, its optimality conditions.  st[i+1] is the record of the    *)
(* fields of stage i; a matrix is [r, c, v]; a field never set is empty.      *)
(* Objective values are TWICE the value.                                      *)
EXTENDS PolyLA

Mats == {"A", "B", "Q", "R", "S", "C", "D"}
DynF == {"A", "B", "b"}
Vecs == {"b", "q", "r", "zl", "zu", "Zl", "Zu", "idxb", "lbu", "ubu", "lbx", "ubx", "lg", "ug", "idxs_rev", "lls", "lus",
         "lbu_mask", "ubu_mask", "lbx_mask", "ubx_mask", "lg_mask", "ug_mask", "lls_mask", "lus_mask", "idxe"}
Fields == Mats \cup Vecs
NoMat == [r |-> 0, c |-> 0, v |-> <<>>]
Empty(f) == IF f \in Mats THEN NoMat ELSE <<>>
EmptyStage == [f \in Fields |-> Empty(f)]

----------------------------------------------------------------------------
(* consistency *)
nx(s) == s.Q.r
nu(s) == s.R.r
nbu(s) == Len(s.lbu)
nbx(s) == Len(s.lbx)
nb(s) == nbu(s) + nbx(s)
ng(s) == Len(s.lg)
ns(s) == Len(s.lls)
Shape(m, r, c) == m.r = r /\ m.c = c
ShapeOrVoid(m, r, c) == Shape(m, r, c) \/ (r * c = 0 /\ m.r * m.c = 0 /\ (m.r = r \/ m.c = c \/ m.r = 0))
InRange(seq, lo, hi) == \A k \in 1..Len(seq) : lo <= seq[k] /\ seq[k] <= hi

StageOk(N, i, s, nxnext) ==
    /\ Shape(s.Q, nx(s), nx(s)) /\ Shape(s.R, nu(s), nu(s))
    /\ Len(s.q) = nx(s) /\ Len(s.r) = nu(s)
    /\ nu(s) > 0 => Shape(s.S, nu(s), nx(s))
    /\ i < N => /\ Shape(s.A, nxnext, nx(s)) /\ ShapeOrVoid(s.B, nxnext, nu(s)) /\ Len(s.b) = nxnext
    /\ Len(s.ubu) = nbu(s) /\ Len(s.ubx) = nbx(s) /\ Len(s.ug) = ng(s) /\ Len(s.lus) = ns(s)
    /\ Len(s.idxb) = nb(s)
    /\ InRange(SubSeq(s.idxb, 1, nbu(s)), 0, nu(s) - 1)
    /\ InRange(SubSeq(s.idxb, nbu(s) + 1, nb(s)), nu(s), nu(s) + nx(s) - 1)
    /\ s.C.r = ng(s) /\ (ng(s) > 0 => s.C.c = nx(s))
    /\ i < N => ShapeOrVoid(s.D, ng(s), nu(s)) /\ (nu(s) > 0 => s.D.r = ng(s))
    /\ Len(s.idxs_rev) = nb(s) + ng(s) /\ InRange(s.idxs_rev, -1, ns(s) - 1)
    /\ Len(s.zl) = ns(s) /\ Len(s.zu) = ns(s) /\ Len(s.Zl) = ns(s) /\ Len(s.Zu) = ns(s)
    /\ Len(s.lbu_mask) = nbu(s) /\ Len(s.ubu_mask) = nbu(s) /\ Len(s.lbx_mask) = nbx(s) /\ Len(s.ubx_mask) = nbx(s)
    /\ Len(s.lg_mask) = ng(s) /\ Len(s.ug_mask) = ng(s) /\ Len(s.lls_mask) = ns(s) /\ Len(s.lus_mask) = ns(s)
    /\ Len(s.idxe) <= nb(s) /\ InRange(s.idxe, nbu(s), nb(s) - 1)
Consistent(N, st) == \A i \in 0..N : StageOk(N, i, st[i + 1], IF i < N THEN nx(st[i + 2]) ELSE 0)
DimsOf(st) ==
    LET each(F(_)) == [k \in 1..Len(st) |-> F(st[k])]
    IN [nx |-> each(nx), nu |-> each(nu), nbx |-> each(nbx), nbu |-> each(nbu), nb |-> each(nb), ng |-> each(ng), ns |-> each(ns),
        nbxe |-> [k \in 1..Len(st) |-> Len(st[k].idxe)]]
HasSlacks(st) == \E k \in 1..Len(st) : ns(st[k]) > 0
HasMasks(st) == \E k \in 1..Len(st) : \E f \in {"lbu_mask", "ubu_mask", "lbx_mask", "ubx_mask", "lg_mask", "ug_mask", "lls_mask", "lus_mask"} : Has(st[k][f], 0)
HasShared(st) == \E k \in 1..Len(st) : \E j \in 0..(ns(st[k]) - 1) : Count(st[k].idxs_rev, j) > 1
(* two stores that describe the same QP: equal but for the shape of what is void *)
SameStage(N, i, a, b) ==
    \A f \in Fields : (i < N \/ f \notin DynF) =>
        IF f \in Mats THEN (IF a[f].r * a[f].c = 0 THEN b[f].r * b[f].c = 0 ELSE a[f] = b[f]) ELSE a[f] = b[f]

----------------------------------------------------------------------------
(* the QP *)
W(s, x, u) == u \o x
BndVal(s, x, u) == SubV(W(s, x, u), s.idxb)
GenVal(s, x, u) == [k \in 1..ng(s) |-> Dot(s.C.v[k], x) + (IF nu(s) > 0 THEN Dot(s.D.v[k], u) ELSE 0)]
Val(s, x, u) == BndVal(s, x, u) \o GenVal(s, x, u)
Grad(s) ==       \* of each constraint, with respect to (u, x)
    [k \in 1..nb(s) |-> [j \in 1..(nu(s) + nx(s)) |-> IF j = s.idxb[k] + 1 THEN 1 ELSE 0]]
    \o [k \in 1..ng(s) |-> (IF nu(s) > 0 THEN s.D.v[k] ELSE <<>>) \o s.C.v[k]]
Lo(s) == s.lbu \o s.lbx \o s.lg
Up(s) == s.ubu \o s.ubx \o s.ug
LoM(s) == s.lbu_mask \o s.lbx_mask \o s.lg_mask
UpM(s) == s.ubu_mask \o s.ubx_mask \o s.ug_mask
Slk(s, sv, k) == IF s.idxs_rev[k] < 0 THEN 0 ELSE sv[s.idxs_rev[k] + 1]

StageObj2(s, x, u, sl, su) ==
    Dot(x, MatVec(s.Q.v, x)) + 2 * Dot(s.q, x)
    + (IF nu(s) > 0 THEN Dot(u, MatVec(s.R.v, u)) + 2 * Dot(u, MatVec(s.S.v, x)) + 2 * Dot(s.r, u) ELSE 0)
    + SumS([j \in 1..ns(s) |-> s.Zl[j] * sl[j] * sl[j] + 2 * s.zl[j] * sl[j] + s.Zu[j] * su[j] * su[j] + 2 * s.zu[j] * su[j]])
Obj2(N, st, w) == SumS([k \in 1..(N + 1) |-> StageObj2(st[k], w.x[k], w.u[k], w.sl[k], w.su[k])])
Dynamics(s, x, u) == VAdd(VAdd(MatVec(s.A.v, x), IF nu(s) > 0 THEN MatVec(s.B.v, u) ELSE Zeros(Len(s.b))), s.b)

(* multipliers of a stage are ordered: lower (bounds on u, on x, general), upper, slacks lower, slacks upper *)
LamPart(s, lam, p) == LET n == nb(s) + ng(s) m == ns(s) IN
    CASE p = "l" -> SubSeq(lam, 1, n) [] p = "u" -> SubSeq(lam, n + 1, 2 * n)
      [] p = "sl" -> SubSeq(lam, 2 * n + 1, 2 * n + m) [] p = "su" -> SubSeq(lam, 2 * n + m + 1, 2 * n + 2 * m)

StatOk(N, st, w, k) ==
    LET s == st[k] n == nb(s) + ng(s)
        G == Grad(s)
        mu == VSub(LamPart(s, w.lam[k], "l"), LamPart(s, w.lam[k], "u"))
        hu == IF nu(s) = 0 THEN <<>> ELSE VAdd(VAdd(MatVec(s.R.v, w.u[k]), MatVec(s.S.v, w.x[k])), s.r)
        hx == VAdd(VAdd(MatVec(s.Q.v, w.x[k]), IF nu(s) = 0 THEN Zeros(nx(s)) ELSE TMatVec(s.S.v, w.u[k], nx(s))), s.q)
        du == IF k > N \/ nu(s) = 0 THEN Zeros(nu(s)) ELSE TMatVec(s.B.v, w.pi[k], nu(s))
        dx == IF k > N THEN Zeros(nx(s)) ELSE TMatVec(s.A.v, w.pi[k], nx(s))
        dp == IF k = 1 THEN Zeros(nx(s)) ELSE w.pi[k - 1]
    IN VSub((VAdd(hu, du) \o VSub(VAdd(hx, dx), dp)), TMatVec(G, mu, nu(s) + nx(s))) = Zeros(nu(s) + nx(s))
SlackStatOk(s, sv, z, Z, lam, ls) ==
    \A j \in 1..ns(s) : Z[j] * sv[j] + z[j] - ls[j]
                        - SumS([k \in 1..Len(s.idxs_rev) |-> IF s.idxs_rev[k] = j - 1 THEN lam[k] ELSE 0]) = 0
FeasOk(s, x, u, sl, su) ==
    LET v == Val(s, x, u) lo == Lo(s) up == Up(s) lm == LoM(s) um == UpM(s) IN
    /\ \A k \in 1..Len(v) : /\ lm[k] = 1 => v[k] + Slk(s, sl, k) >= lo[k]
                            /\ um[k] = 1 => v[k] - Slk(s, su, k) <= up[k]
    /\ \A j \in 1..ns(s) : (s.lls_mask[j] = 1 => sl[j] >= s.lls[j]) /\ (s.lus_mask[j] = 1 => su[j] >= s.lus[j])
CompOk(s, x, u, sl, su, lam) ==
    LET v == Val(s, x, u) lo == Lo(s) up == Up(s) lm == LoM(s) um == UpM(s)
        l == LamPart(s, lam, "l") h == LamPart(s, lam, "u") a == LamPart(s, lam, "sl") b == LamPart(s, lam, "su") IN
    /\ \A k \in 1..Len(v) : /\ l[k] >= 0 /\ h[k] >= 0
                            /\ IF lm[k] = 1 THEN l[k] * (v[k] + Slk(s, sl, k) - lo[k]) = 0 ELSE l[k] = 0
                            /\ IF um[k] = 1 THEN h[k] * (v[k] - Slk(s, su, k) - up[k]) = 0 ELSE h[k] = 0
    /\ \A j \in 1..ns(s) : /\ a[j] >= 0 /\ b[j] >= 0
                           /\ IF s.lls_mask[j] = 1 THEN a[j] * (sl[j] - s.lls[j]) = 0 ELSE a[j] = 0
                           /\ IF s.lus_mask[j] = 1 THEN b[j] * (su[j] - s.lus[j]) = 0 ELSE b[j] = 0
ShapeOk(N, st, w) ==
    \A k \in 1..(N + 1) : LET s == st[k] IN
        /\ Len(w.x[k]) = nx(s) /\ Len(w.u[k]) = nu(s) /\ Len(w.sl[k]) = ns(s) /\ Len(w.su[k]) = ns(s)
        /\ Len(w.lam[k]) = 2 * (nb(s) + ng(s) + ns(s))
        /\ k <= N => Len(w.pi[k]) = nx(st[k + 1])
DynOk(N, st, w) == \A k \in 1..N : w.x[k + 1] = Dynamics(st[k], w.x[k], w.u[k])
Kkt(N, st, w) ==
    /\ Chk("shapes", ShapeOk(N, st, w), TRUE)
    /\ Chk("dynamics", DynOk(N, st, w), TRUE)
    /\ Chk("feasibility", [k \in 1..(N + 1) |-> FeasOk(st[k], w.x[k], w.u[k], w.sl[k], w.su[k])], [k \in 1..(N + 1) |-> TRUE])
    /\ Chk("multipliers", [k \in 1..(N + 1) |-> CompOk(st[k], w.x[k], w.u[k], w.sl[k], w.su[k], w.lam[k])], [k \in 1..(N + 1) |-> TRUE])
    /\ Chk("stationarity", [k \in 1..(N + 1) |-> StatOk(N, st, w, k)], [k \in 1..(N + 1) |-> TRUE])
    /\ Chk("slack stationarity", [k \in 1..(N + 1) |->
          /\ SlackStatOk(st[k], w.sl[k], st[k].zl, st[k].Zl, LamPart(st[k], w.lam[k], "l"), LamPart(st[k], w.lam[k], "sl"))
          /\ SlackStatOk(st[k], w.su[k], st[k].zu, st[k].Zu, LamPart(st[k], w.lam[k], "u"), LamPart(st[k], w.lam[k], "su"))],
          [k \in 1..(N + 1) |-> TRUE])

----------------------------------------------------------------------------
(* stage-wise linear independence of the gradients of the active bounds and general constraints *)
Licq(st, x, u) == \A k \in 1..Len(st) :
    LET s == st[k] v == Val(s, x[k], u[k]) G == Grad(s)
        a == SelectSeq([j \in 1..Len(v) |-> j], LAMBDA j : v[j] = Lo(s)[j] \/ v[j] = Up(s)[j])
    IN Rank([j \in 1..Len(a) |-> G[a[j]]], nu(s) + nx(s)) = Len(a)
HessBlock(s) ==      \* in (x, u)
    [j \in 1..nx(s) |-> s.Q.v[j] \o [c \in 1..nu(s) |-> s.S.v[c][j]]] \o [j \in 1..nu(s) |-> s.S.v[j] \o s.R.v[j]]

----------------------------------------------------------------------------
(* the nonlinear-programming form: hard bounds are bounds of the variables,   *)
(* the rest are rows.  A row is <<value, lower, upper>>.                      *)
INF == 1000000000
HardB(s, isx, j, side) ==        \* hard bound of the j-th state or control (from zero), or none
    LET off == IF isx THEN nbu(s) ELSE 0
        cnt == IF isx THEN nbx(s) ELSE nbu(s)
        ks == {k \in (off + 1)..(off + cnt) : s.idxb[k] = (IF isx THEN nu(s) ELSE 0) + j /\ s.idxs_rev[k] < 0
                                               /\ (IF side = "l" THEN LoM(s) ELSE UpM(s))[k] = 1}
    IN IF ks = {} THEN (IF side = "l" THEN -INF ELSE INF) ELSE (IF side = "l" THEN Lo(s) ELSE Up(s))[CHOOSE k \in ks : TRUE]
VarBounds(s, isx) == [j \in 1..(IF isx THEN nx(s) ELSE nu(s)) |-> <<HardB(s, isx, j - 1, "l"), HardB(s, isx, j - 1, "u")>>]
SlackBounds(s, low, mask) == [j \in 1..ns(s) |-> <<IF mask[j] = 1 THEN low[j] ELSE -INF, INF>>]
Members(s, from, to, soft) == SelectSeq([j \in 1..(to - from + 1) |-> from + j - 1], LAMBDA k : (s.idxs_rev[k] >= 0) = soft)
LowRows(s, ks, v, sl) == [j \in 1..Len(ks) |-> <<v[ks[j]] + Slk(s, sl, ks[j]), IF LoM(s)[ks[j]] = 1 THEN Lo(s)[ks[j]] ELSE -INF, INF>>]
UpRows(s, ks, v, su) == [j \in 1..Len(ks) |-> <<v[ks[j]] - Slk(s, su, ks[j]), -INF, IF UpM(s)[ks[j]] = 1 THEN Up(s)[ks[j]] ELSE INF>>]
HardRows(s, ks, v) == [j \in 1..Len(ks) |-> <<v[ks[j]], IF LoM(s)[ks[j]] = 1 THEN Lo(s)[ks[j]] ELSE -INF, IF UpM(s)[ks[j]] = 1 THEN Up(s)[ks[j]] ELSE INF>>]
=============================================================================
