------------------------------- MODULE Reform -------------------------------
(***************************************************************************)
(* What reformulations of a problem description mean.                      *)
(*                                                                         *)
(* d      the description the history started from (polynomials over its   *)
(*        x, u, z, p, pg)                                                  *)
(* cost   per kind of stage: the cost type, the base term (present or not, *)
(*        the positions of a reference and of a weight among the           *)
(*        parameters) and penalties                                        *)
(* con    per kind of stage: functions and their bounds;                   *)
(*        con.all: what holds at the initial and the path stages           *)
(* x0     the initial state is fixed; pval, pgval: their values             *)
(* deg    degree of a polynomial control (-1: none)                        *)
(* none0  the cost of the initial stage is that of the path stages, as     *)
(*        long as it is not given                                          *)
(* Objective values are twice the value.                                   *)
(***************************************************************************)
EXTENDS OcpSem
VARIABLES d, cost, con, x0, pval, pgval, deg, none0
rvars == <<d, cost, con, x0, pval, pgval, deg, none0>>
np == Len(pval)
npg == Len(pgval)

NOB == 1000000000
Kinds == {"0", "p", "e"}
Off(dd) == dd.nx + dd.nu + dd.nz
NV(dd) == Off(dd) + dd.np + dd.npg
(* a linear function of x and u as a polynomial *)
Lin(dd, cx, cu) == [j \in 1..(dd.nx + dd.nu) |-> <<IF j <= dd.nx THEN cx[j] ELSE cu[j - dd.nx], [i \in 1..NV(dd) |-> IF i = j THEN 1 ELSE 0]>>]
Var(dd, j) == <<<<1, [i \in 1..NV(dd) |-> IF i = j THEN 1 ELSE 0]>>>>

(* an entry: function e (or phi of r), bounds, and the position of a parameter that takes the place of the bounds *)
Entry(e, lo, up) == [e |-> e, phi |-> <<>>, lo |-> lo, up |-> up, par |-> -1]
Bx(dd, c) == [k \in 1..Len(c.idxbx) |-> Entry(Var(dd, c.idxbx[k] + 1), c.lbx[k], c.ubx[k])]
Hx(c) == [k \in 1..Len(c.h) |-> Entry(c.h[k], c.lh[k], c.uh[k])]
Px(c) == [k \in 1..Len(c.phi) |-> [e |-> c.r, phi |-> c.phi[k], lo |-> c.lphi[k], up |-> c.uphi[k], par |-> -1]]
Bu(dd, c) == [k \in 1..Len(c.idxbu) |-> Entry(Var(dd, dd.nx + c.idxbu[k] + 1), c.lbu[k], c.ubu[k])]
Gx(dd, c, e) == [k \in 1..Len(c.C) |-> Entry(Lin(dd, c.C[k], IF e THEN Zeros(dd.nu) ELSE c.D[k]), c.lg[k], c.ug[k])]

Base(C) == [on |-> TRUE, type |-> C.type, yp |-> -1, wp |-> -1, pen |-> <<>>, C |-> C, hess |-> "no"]
Create(dd, n0) ==
    /\ d = dd /\ none0 = n0 /\ x0 = dd.x0 /\ pval = dd.p /\ pgval = dd.pg /\ deg = -1
    /\ cost = [k \in Kinds |-> Base(dd.cost[k])]
    /\ con = [bx |-> [k \in Kinds |-> Bx(dd, dd.con[k])], h |-> [k \in Kinds |-> Hx(dd.con[k])], phi |-> [k \in Kinds |-> Px(dd.con[k])],
              bu |-> Bu(dd, dd.con["p"]), g |-> Gx(dd, dd.con["p"], FALSE), ge |-> Gx(dd, dd.con["e"], TRUE)]

----------------------------------------------------------------------------
(* a point has entries for x, u, z, all parameters, and the time *)
UVal(pt) == IF deg < 0 THEN pt[2]
            ELSE [j \in 1..d.nu |-> SumS([i \in 1..(deg + 1) |-> Pow(pt[6][1], i - 1) * pt[2][(i - 1) * d.nu + j]])]
Pt(pt) == pt[1] \o UVal(pt) \o pt[3] \o SubSeq(pt[4], 1, d.np) \o SubSeq(pt[5], 1, d.npg)
EVal(en, pt) == IF en.phi = <<>> THEN Ev(en.e, Pt(pt)) ELSE Ev(en.phi, EvS(en.e, Pt(pt)))
LoOf(en, pt) == IF en.par >= 0 THEN pt[4][en.par + 1] ELSE en.lo
UpOf(en, pt) == IF en.par >= 0 THEN pt[4][en.par + 1] ELSE en.up
Violation(en, pt) == LET v == EVal(en, pt) IN MaxI(0, MaxI(IF LoOf(en, pt) <= -NOB THEN 0 ELSE LoOf(en, pt) - v, IF UpOf(en, pt) >= NOB THEN 0 ELSE v - UpOf(en, pt)))

(* twice the penalty: quadratic with weight w, linear beyond the width 2 * delta (two bounds: in units of half *)
(* their distance)                                                                                           *)
Pen2(q, pt) ==
    LET v == Violation(q.en, pt) w == q.w
    IN IF q.delta = 0 THEN w * v * v
       ELSE IF q.en.lo <= -NOB
       THEN LET e == 2 * q.delta IN IF v <= e THEN w * v * v ELSE w * e * e + 2 * w * e * (v - e)
       ELSE LET e == q.delta * (q.en.up - q.en.lo) IN IF v <= e THEN w * v * v ELSE w * e * e + 2 * w * e * (v - e)

(* the base term, with reference and weight from the parameters *)
BaseC(b, pt) == IF b.wp < 0 THEN b.C ELSE [b.C EXCEPT !.W = MScale(pt[5][b.wp + 1], b.C.W)]
YRef(b, pt) == IF b.yp < 0 THEN b.C.yref ELSE SubSeq(pt[4], b.yp + 1, b.yp + Len(b.C.yref))
CostOf(b, pt) == (IF b.on THEN Cost2(d, BaseC(b, pt), Pt(pt), YRef(b, pt)) ELSE 0) + SumS([i \in 1..Len(b.pen) |-> Pen2(b.pen[i], pt)])
CostAt(k, pt) == CostOf(IF k = "0" /\ none0 THEN cost["p"] ELSE cost[k], pt)
Holds(s, pt) == (\A i \in 1..Len(s): Violation(s[i], pt) = 0)
ConAt(k, pt) == Holds(con.bx[k], pt) /\ Holds(con.h[k], pt) /\ Holds(con.phi[k], pt)
                /\ (IF k = "e" THEN Holds(con.ge, pt) ELSE Holds(con.bu, pt) /\ Holds(con.g, pt))
(* Gauss-Newton Hessian of the base term in (u, x); at the terminal stage in x *)
GnHess(k, pt) == LET b == cost[k] IN Cost2HessGN(d, BaseC(b, pt), Pt(pt), YRef(b, pt), IF k = "e" THEN [j \in 1..d.nx |-> j] ELSE UX(d))

----------------------------------------------------------------------------
Types == [k \in Kinds |-> IF k = "0" /\ none0 THEN "None" ELSE cost[k].type]

PenOk(k, huber) == IF huber THEN Types[k] = "CONVEX_OVER_NONLINEAR" ELSE Types[k] \in {"NONLINEAR_LS", "CONVEX_OVER_NONLINEAR", "EXTERNAL"}
AddPen(k, q) == cost' = [cost EXCEPT ![k].pen = Append(@, q)] /\ UNCHANGED <<d, con, x0, pval, pgval, deg, none0>>
Penalty(k, p, lo, up, w, delta) == PenOk(k, delta > 0) /\ AddPen(k, [en |-> Entry(p, lo, up), w |-> w, delta |-> delta])

ConlOk == \A k \in Kinds: Types[k] \in {"NONLINEAR_LS", "CONVEX_OVER_NONLINEAR"} \cup (IF k = "0" THEN {"None"} ELSE {})
ToConl == /\ ConlOk
          /\ cost' = [k \in Kinds |-> IF Types[k] = "None" THEN cost[k] ELSE [cost[k] EXCEPT !.type = "CONVEX_OVER_NONLINEAR"]]
          /\ UNCHANGED <<d, con, x0, pval, pgval, deg, none0>>

ExtOk(hess) == hess = "GAUSS_NEWTON" => (\A k \in Kinds: Types[k] \in {"LINEAR_LS", "NONLINEAR_LS"} \cup (IF k = "0" THEN {"None"} ELSE {}))
ToExternal(hess, yp, wp, pv, pgv) ==
    /\ ExtOk(hess)
    /\ cost' = [k \in Kinds |-> IF Types[k] = "None" \/ Types[k] = "EXTERNAL" THEN cost[k]
                                ELSE [cost[k] EXCEPT !.yp = yp[k], !.wp = wp[k],
                                         !.hess = IF hess = "GAUSS_NEWTON" /\ cost[k].type = "NONLINEAR_LS" THEN "gn" ELSE "no", !.type = "EXTERNAL"]]
    /\ pval' = pval \o pv /\ pgval' = pgval \o pgv /\ UNCHANGED <<d, con, x0, deg, none0>>

AddLinear(C, D_, lg, ug) == con' = [con EXCEPT !.g = @ \o [k \in 1..Len(C) |-> Entry(Lin(d, C[k], D_[k]), lg[k], ug[k])]] /\ UNCHANGED <<d, cost, x0, pval, pgval, deg, none0>>

NoCon(keep) == [bx |-> [k \in Kinds |-> IF k = "0" /\ keep THEN con.bx["0"] ELSE <<>>], h |-> [k \in Kinds |-> <<>>], phi |-> [k \in Kinds |-> <<>>],
                bu |-> <<>>, g |-> <<>>, ge |-> <<>>]
BareOk(keep) == keep => x0
Bare(keep) == BareOk(keep) /\ con' = NoCon(keep) /\ x0' = keep /\ UNCHANGED <<d, cost, pval, pgval, deg, none0>>

(* every constraint becomes a quadratic penalty of weight one; the objective is dropped or kept *)
Quad(s) == [i \in 1..Len(s) |-> [en |-> s[i], w |-> 1, delta |-> 0]]
FeasCost(k, keepc, par) ==
    LET b == IF keepc THEN (IF k = "0" /\ none0 THEN cost["p"] ELSE cost[k])
             ELSE [Base(d.cost[k]) EXCEPT !.on = FALSE, !.type = "NONLINEAR_LS"]
        bx == IF k = "0" /\ par THEN [i \in 1..Len(con.bx["0"]) |-> [con.bx["0"][i] EXCEPT !.par = np + i - 1]] ELSE con.bx[k]
        rest == IF k = "e" THEN con.ge ELSE con.bu \o con.g
    IN [b EXCEPT !.pen = @ \o Quad(bx \o rest \o con.h[k] \o con.phi[k])]
NewPen(k) == con.bx[k] \o (IF k = "e" THEN con.ge ELSE con.bu \o con.g) \o con.h[k] \o con.phi[k] # <<>>
FeasOk(keepx, keepc, par) ==
    /\ (keepx \/ par) => x0
    /\ ~(keepx /\ par)
    /\ keepc => (\A k \in Kinds: NewPen(k) => (IF k = "0" /\ none0 THEN PenOk("p", FALSE) ELSE PenOk(k, FALSE)))
Feasibility(keepx, keepc, par) ==
    /\ FeasOk(keepx, keepc, par)
    /\ cost' = [k \in Kinds |-> FeasCost(k, keepc, par)]
    /\ con' = NoCon(keepx) /\ x0' = keepx /\ none0' = FALSE
    /\ pval' = pval \o (IF par THEN [i \in 1..Len(con.bx["0"]) |-> con.bx["0"][i].lo] ELSE <<>>) /\ UNCHANGED <<d, pgval, deg>>

Copy0 == cost' = [cost EXCEPT !["0"] = cost["p"]] /\ none0' = FALSE /\ UNCHANGED <<d, con, x0, pval, pgval, deg>>
(* its bounds remain, no longer known as a fixed initial state *)
KeepX0 == x0' = FALSE /\ UNCHANGED <<d, cost, con, pval, pgval, deg, none0>>

(* detection of bounds and linear constraints: those of the path that are linear in (x, u) alone and involve a *)
(* control, or several variables, hold at the initial stage too; nothing else changes                          *)
LinearXU(en) ==
    /\ (\A i \in 1..Len(en.e): LET t == en.e[i][2] IN en.e[i][1] = 0 \/ (SumS(t) <= 1 /\ SumS(SubSeq(t, d.nx + d.nu + 1, Len(t))) = 0))
XOnly(en) ==    \* a bound on one state
    /\ (\A i \in 1..Len(en.e): SumS(SubSeq(en.e[i][2], d.nx + 1, Len(en.e[i][2]))) = 0)
    /\ Cardinality({j \in 1..d.nx: SumS([i \in 1..Len(en.e) |-> en.e[i][1] * en.e[i][2][j]]) # 0}) = 1
Detect(k) ==
    /\ con' = IF k # "p" THEN con
              ELSE LET moved == SelectSeq(con.h["p"], LAMBDA en: LinearXU(en) /\ ~XOnly(en))
                       kept == SelectSeq(con.h["p"], LAMBDA en: ~(LinearXU(en) /\ ~XOnly(en)))
                   IN [con EXCEPT !.h["p"] = kept, !.g = @ \o moved]
    /\ UNCHANGED <<d, cost, x0, pval, pgval, deg, none0>>

PolyControl(n) == deg' = n /\ UNCHANGED <<d, cost, con, x0, pval, pgval, none0>>

----------------------------------------------------------------------------
(* nc free controls, the last of them held for the rest of the horizon of nr longer intervals *)
Step0 == d.dt[1]
HorSteps(nc, nr) == [i \in 1..(nc - 1) |-> Step0] \o <<0, Step0>> \o [i \in 1..nr |-> (Step0 * (d.N - nc)) \div nr]
HorN(nc, nr) == (IF nc > 1 THEN <<nc - 1>> ELSE <<>>) \o <<1, nr + 1>>
F(pt) == EvS(d.dyn.f, Pt(pt))
HeldCon(pt) == Holds(con.bx["p"], pt) /\ Holds(con.h["p"], pt) /\ Holds(con.phi["p"], pt) /\ Holds(con.g, pt)
HeldDyn(pt) == F(pt) \o (IF d.dyn.type = "DISCRETE" THEN pt[2] ELSE Zeros(d.nu))
TransCon(pt) == Holds(con.bu, pt) /\ (none0 => Holds(con.bx["0"], pt))
=============================================================================
