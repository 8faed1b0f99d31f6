----------------------------- MODULE CasadiNlp ------------------------------
(* The nonlinear program equivalent to a stage-structured problem, and the    *)
(* store of initial guess, data and solution that the CasADi solver object    *)
(* keeps.  d is the description (OcpSem); the flat vectors are                *)
(*   w = x0 u0 sl0 su0 x1 ... xN slN suN,   p = p0 yref0 p1 ... yrefN pg,     *)
(*   g = per stage: dynamics, linear, nonlinear (a soft one twice), conv.-nl. *)
EXTENDS OcpSem

VARIABLES d, w0, pv, lamx0, lamg0, lbw, ubw, lbg, ubg, sol
nlpVars == <<d, w0, pv, lamx0, lamg0, lbw, ubw, lbg, ubg, sol>>
INFB == 1000000000
NoSol == [ok |-> FALSE]

Stages(dd) == [i \in 1..(dd.N + 1) |-> i - 1]
NxuS(dd, i) == dd.nx + Nu(dd, i) + 2 * Ns(dd, i)
RECURSIVE OffW(_, _)
OffW(dd, i) == IF i = 0 THEN 0 ELSE OffW(dd, i - 1) + NxuS(dd, i - 1)
NW(dd) == OffW(dd, dd.N + 1)
XinW(dd, i) == Range0(OffW(dd, i), dd.nx)
UinW(dd, i) == Range0(OffW(dd, i) + dd.nx, Nu(dd, i))
SLinW(dd, i) == Range0(OffW(dd, i) + dd.nx + Nu(dd, i), Ns(dd, i))
SUinW(dd, i) == Range0(OffW(dd, i) + dd.nx + Nu(dd, i) + Ns(dd, i), Ns(dd, i))

YrefOf(dd, i) == dd.cost[Kind(dd, i)].yref
Ny(dd, i) == Len(YrefOf(dd, i))
RECURSIVE OffP(_, _)
OffP(dd, i) == IF i = 0 THEN 0 ELSE OffP(dd, i - 1) + dd.np + Ny(dd, i - 1)
PinP(dd, i) == Range0(OffP(dd, i), dd.np)
YinP(dd, i) == Range0(OffP(dd, i) + dd.np, Ny(dd, i))
PGinP(dd) == Range0(OffP(dd, dd.N + 1), dd.npg)

Row(k, i, j) == [k |-> k, i |-> i, j |-> j]
SlackNo(dd, i, j) == LET s == Con(dd, i).idxsh IN IF Has(s, j - 1) THEN IndexIn(s, j - 1) ELSE 0
StageRows(dd, i) ==
    LET c == Con(dd, i) IN
    (IF i < dd.N THEN [j \in 1..dd.nx |-> Row("dyn", i, j)] ELSE <<>>)
    \o [j \in 1..Len(c.C) |-> Row("g", i, j)]
    \o Flatten1([j \in 1..Len(c.h) |-> IF SlackNo(dd, i, j) > 0 THEN <<Row("hl", i, j), Row("hu", i, j)>> ELSE <<Row("h", i, j)>>])
    \o [j \in 1..Len(c.phi) |-> Row("phi", i, j)]
Rows(dd) == Flatten1([i \in 1..(dd.N + 1) |-> StageRows(dd, i - 1)])
(* positions (from zero) in g of the rows of stage i of one of the kinds *)
RowsOf(dd, i, ks) ==
    LET R == Rows(dd) all == SelectSeq([r \in 1..Len(R) |-> r], LAMBDA r : R[r].i = i /\ R[r].k \in ks)
    IN [r \in 1..Len(all) |-> all[r] - 1]

----------------------------------------------------------------------------
(* the values *)
Sub(v, idx) == SubV(v, idx)
PutAt(v, idx, val) == [r \in 1..Len(v) |-> IF Has(idx, r - 1) THEN val[IndexIn(idx, r - 1)] ELSE v[r]]
PG(dd, p) == Sub(p, PGinP(dd))
StageVars(dd, i, w, p) == Vars(dd, Sub(w, XinW(dd, i)), Sub(w, UinW(dd, i)), <<>>, Sub(p, PinP(dd, i)), PG(dd, p))
NlpF2(dd, w, p) ==
    SumS([r \in 1..(dd.N + 1) |->
        LET i == r - 1 IN
        dd.scaling[r] * (Cost2(dd, dd.cost[Kind(dd, i)], StageVars(dd, i, w, p), Sub(p, YinP(dd, i)))
                         + Slack2(dd.slack[Kind(dd, i)], Sub(w, SLinW(dd, i)), Sub(w, SUinW(dd, i))))])
NlpStageG(dd, i, w, p) ==
    LET c == Con(dd, i)
        v == StageVars(dd, i, w, p)
        x == Sub(w, XinW(dd, i))  u == Sub(w, UinW(dd, i))
        sl == Sub(w, SLinW(dd, i))  su == Sub(w, SUinW(dd, i))
        hv == EvS(c.h, v)
    IN (IF i < dd.N THEN VSub(Sub(w, XinW(dd, i + 1)), Dyn(dd, i, v, FALSE).x) ELSE <<>>)
       \o GVal(dd, c, i, x, u)
       \o Flatten1([j \in 1..Len(c.h) |-> LET s == SlackNo(dd, i, j) IN
                       IF s > 0 THEN <<hv[j] + sl[s], hv[j] - su[s]>> ELSE <<hv[j]>>])
       \o PhiVal(c, v)
NlpG(dd, w, p) == Flatten1([r \in 1..(dd.N + 1) |-> NlpStageG(dd, r - 1, w, p)])
DefaultP(dd) == Flatten1([r \in 1..(dd.N + 1) |-> dd.p \o YrefOf(dd, r - 1)]) \o dd.pg
DefaultW0(dd) == Flatten1([r \in 1..(dd.N + 1) |->
    (IF dd.x0 THEN dd.con["0"].lbx ELSE Zeros(dd.nx)) \o Zeros(Nu(dd, r - 1) + 2 * Ns(dd, r - 1))])
BoundW(dd, low) == Flatten1([r \in 1..(dd.N + 1) |->
    LET i == r - 1 c == Con(dd, i) none == IF low THEN -INFB ELSE INFB
        Fill(n, idx, val) == [j \in 1..n |-> IF Has(idx, j - 1) THEN val[IndexIn(idx, j - 1)] ELSE none]
    IN Fill(dd.nx, c.idxbx, IF low THEN c.lbx ELSE c.ubx)
       \o (IF i < dd.N THEN Fill(dd.nu, c.idxbu, IF low THEN c.lbu ELSE c.ubu) ELSE <<>>)
       \o [j \in 1..(2 * Ns(dd, i)) |-> IF low THEN 0 ELSE INFB]])
BoundG(dd, low) ==
    LET R == Rows(dd) IN
    [r \in 1..Len(R) |->
        LET c == Con(dd, R[r].i) k == R[r].k j == R[r].j IN
        CASE k = "dyn" -> 0
          [] k = "g" -> IF low THEN c.lg[j] ELSE c.ug[j]
          [] k = "h" -> IF low THEN c.lh[j] ELSE c.uh[j]
          [] k = "hl" -> IF low THEN c.lh[j] ELSE INFB
          [] k = "hu" -> IF low THEN -INFB ELSE c.uh[j]
          [] k = "phi" -> IF low THEN c.lphi[j] ELSE c.uphi[j]]

(* 2 * Hessian of the Lagrangian, of the approximation chosen by the options: *)
(* "exact" or "gn" objective; dynamics / constraints contribute if asked for  *)
NlpHess2(dd, w, p, lamf, lamg, o) ==
    LET R == Rows(dd)
        Lam(i, k, n) == LET pos == RowsOf(dd, i, {k}) IN [j \in 1..n |-> lamg[pos[j] + 1]]
        LamH(i) == LET c == Con(dd, i) IN
            [j \in 1..Len(c.h) |-> SumS([r \in 1..Len(R) |-> IF R[r].i = i /\ R[r].k \in {"h", "hl", "hu"} /\ R[r].j = j THEN lamg[r] ELSE 0])]
        Blk(i) ==
            LET C == dd.cost[Kind(dd, i)] c == Con(dd, i) v == StageVars(dd, i, w, p)
                vs == SubSeq(XU(dd), 1, dd.nx + Nu(dd, i))
                y == Sub(p, YinP(dd, i))
                n == Len(vs)
                Hc == MScale(lamf * dd.scaling[i + 1], IF o.exact THEN Cost2Hess(dd, C, v, y, vs) ELSE Cost2HessGN(dd, C, v, y, vs))
                Hd == IF o.exact /\ o.dyn /\ i < dd.N
                      THEN MScale(-2, WHess(dd.dyn.f, Lam(i, "dyn", dd.nx), v, vs)) ELSE ZeroMat(n, n)
                Hh == IF o.exact /\ o.con THEN MScale(2, WHess(c.h, LamH(i), v, vs)) ELSE ZeroMat(n, n)
                rr == EvS(c.r, v)
                Jr == JacP(c.r, v, vs)
                Hp == IF Len(c.phi) = 0 THEN ZeroMat(n, n)
                      ELSE MScale(2, Sandwich(Jr, WHess(c.phi, Lam(i, "phi", Len(c.phi)), rr, [j \in 1..Len(rr) |-> j]), Jr, n, n))
            IN MAdd(MAdd(Hc, Hd), MAdd(Hh, Hp))
        blocks == [r \in 1..(dd.N + 1) |-> Blk(r - 1)]
        StageAt(q) == CHOOSE i \in 0..dd.N : OffW(dd, i) <= q /\ q < OffW(dd, i + 1)
        st == [q \in 1..NW(dd) |-> StageAt(q - 1)]
        E(q, s) == LET i == st[q] a == q - OffW(dd, i) b == s - OffW(dd, i) nv == dd.nx + Nu(dd, i) ns == Ns(dd, i) S == dd.slack[Kind(dd, i)]
                   IN IF st[s] # i THEN 0
                      ELSE IF a <= nv /\ b <= nv THEN blocks[i + 1][a][b]
                      ELSE IF a = b THEN 2 * lamf * dd.scaling[i + 1] * (IF a - nv <= ns THEN S.Zl[a - nv] ELSE S.Zu[a - nv - ns])
                      ELSE 0
    IN [q \in 1..NW(dd) |-> [s \in 1..NW(dd) |-> IF s < q THEN 0 ELSE E(q, s)]]

(* single shooting: the same program with the states replaced by the rollout  *)
OffS(dd, i) == OffW(dd, i) - i * dd.nx
SinS(dd, i) == Range0(OffS(dd, i), Nu(dd, i) + 2 * Ns(dd, i))
RECURSIVE Rollout(_, _, _, _)
Rollout(dd, xs, w, p) ==
    LET i == Len(xs) - 1 IN
    IF i = dd.N THEN xs
    ELSE Rollout(dd, Append(xs, Dyn(dd, i, Vars(dd, xs[i + 1], Sub(w, Range0(OffS(dd, i), Nu(dd, i))), <<>>, Sub(p, PinP(dd, i)), PG(dd, p)), FALSE).x), w, p)
SingleX(dd, w, p) == Rollout(dd, <<dd.con["0"].lbx>>, w, p)
SingleW(dd, w, p) == LET X == SingleX(dd, w, p) IN Flatten1([r \in 1..(dd.N + 1) |-> X[r] \o Sub(w, SinS(dd, r - 1))])
NotDyn(dd, g) == LET R == Rows(dd) pos == SelectSeq([r \in 1..Len(R) |-> r], LAMBDA r : R[r].k # "dyn") IN [j \in 1..Len(pos) |-> g[pos[j]]]
NotX(dd, w) == Flatten1([r \in 1..(dd.N + 1) |-> SubSeq(w, OffW(dd, r - 1) + dd.nx + 1, OffW(dd, r))])

----------------------------------------------------------------------------
(* multipliers of stage i in the documented order, from the flat ones         *)
Neg(a) == IF a < 0 THEN -a ELSE 0
Pos(a) == IF a > 0 THEN a ELSE 0
BoundPosX(dd, i) == LET o == XinW(dd, i) IN SubV(o, Con(dd, i).idxbx)
BoundPosU(dd, i) == IF i < dd.N THEN LET o == UinW(dd, i) IN SubV(o, Con(dd, i).idxbu) ELSE <<>>
LowRows(dd, i) == RowsOf(dd, i, {"g", "h", "hl", "phi"})
UpRows(dd, i) == RowsOf(dd, i, {"g", "h", "hu", "phi"})
LamOf(dd, i, lx, lg) ==
    LET b == BoundPosU(dd, i) \o BoundPosX(dd, i)
        Mp(F(_), s) == [r \in 1..Len(s) |-> F(s[r])]
    IN Mp(Neg, Sub(lx, b)) \o Mp(Neg, Sub(lg, LowRows(dd, i)))
       \o Mp(Pos, Sub(lx, b)) \o Mp(Pos, Sub(lg, UpRows(dd, i)))
       \o Mp(Neg, Sub(lx, SLinW(dd, i))) \o Mp(Neg, Sub(lx, SUinW(dd, i)))
NLam(dd, i) == 2 * NCon(dd, i) + 2 * Ns(dd, i)
(* ... and back *)
LamX(dd, i, lx, lam) ==
    LET b == BoundPosU(dd, i) \o BoundPosX(dd, i) n == NCon(dd, i) nb == Len(b) ns == Ns(dd, i)
    IN PutAt(PutAt(PutAt(lx, b, [r \in 1..nb |-> lam[n + r] - lam[r]]),
                   SLinW(dd, i), [r \in 1..ns |-> -lam[2 * n + r]]),
             SUinW(dd, i), [r \in 1..ns |-> -lam[2 * n + ns + r]])
LamG(dd, i, lg, lam) ==
    LET n == NCon(dd, i) nb == Len(BoundPosU(dd, i) \o BoundPosX(dd, i))
        lo == LowRows(dd, i) up == UpRows(dd, i)
    IN [r \in 1..Len(lg) |->
          LET l == IF Has(lo, r - 1) THEN lam[nb + IndexIn(lo, r - 1)] ELSE 0
              u == IF Has(up, r - 1) THEN lam[n + nb + IndexIn(up, r - 1)] ELSE 0
          IN IF Has(lo, r - 1) \/ Has(up, r - 1) THEN u - l ELSE lg[r]]

----------------------------------------------------------------------------
Create(dd) ==
    /\ d = dd
    /\ w0 = DefaultW0(dd) /\ pv = DefaultP(dd)
    /\ lamx0 = Zeros(NW(dd)) /\ lamg0 = Zeros(Len(Rows(dd)))
    /\ lbw = BoundW(dd, TRUE) /\ ubw = BoundW(dd, FALSE)
    /\ lbg = BoundG(dd, TRUE) /\ ubg = BoundG(dd, FALSE)
    /\ sol = NoSol

Unch(v) == UNCHANGED v
SetGuess(i, f, v) ==
    /\ CASE f = "x" -> w0' = PutAt(w0, XinW(d, i), v) /\ UNCHANGED <<lamx0, lamg0>>
         [] f = "u" -> w0' = PutAt(w0, UinW(d, i), v) /\ UNCHANGED <<lamx0, lamg0>>
         [] f = "sl" -> w0' = PutAt(w0, SLinW(d, i), v) /\ UNCHANGED <<lamx0, lamg0>>
         [] f = "su" -> w0' = PutAt(w0, SUinW(d, i), v) /\ UNCHANGED <<lamx0, lamg0>>
         [] f = "pi" -> lamg0' = PutAt(lamg0, RowsOf(d, i, {"dyn"}), VScale(-1, v)) /\ UNCHANGED <<w0, lamx0>>
         [] f = "lam" -> lamx0' = LamX(d, i, lamx0, v) /\ lamg0' = LamG(d, i, lamg0, v) /\ UNCHANGED w0
    /\ UNCHANGED <<d, pv, lbw, ubw, lbg, ubg, sol>>
SetParam(i, f, v) ==
    /\ pv' = PutAt(pv, IF f = "p" THEN PinP(d, i) ELSE IF f = "yref" THEN YinP(d, i) ELSE PGinP(d), v)
    /\ UNCHANGED <<d, w0, lamx0, lamg0, lbw, ubw, lbg, ubg, sol>>
SetParamSparse(i, idx, v) ==
    /\ pv' = PutAt(pv, SubV(PinP(d, i), idx), v)
    /\ UNCHANGED <<d, w0, lamx0, lamg0, lbw, ubw, lbg, ubg, sol>>
BoundIdx(i, f) == CASE f \in {"lbx", "ubx"} -> BoundPosX(d, i) [] f \in {"lbu", "ubu"} -> BoundPosU(d, i)
                    [] f \in {"lg", "ug"} -> RowsOf(d, i, {"g"}) [] f \in {"lh", "uh"} -> RowsOf(d, i, {"h"})
                    [] f \in {"lphi", "uphi"} -> RowsOf(d, i, {"phi"})
SetBound(i, f, v) ==
    /\ CASE f \in {"lbx", "lbu"} -> lbw' = PutAt(lbw, BoundIdx(i, f), v) /\ UNCHANGED <<ubw, lbg, ubg>>
         [] f \in {"ubx", "ubu"} -> ubw' = PutAt(ubw, BoundIdx(i, f), v) /\ UNCHANGED <<lbw, lbg, ubg>>
         [] f \in {"lg", "lh", "lphi"} -> lbg' = PutAt(lbg, BoundIdx(i, f), v) /\ UNCHANGED <<lbw, ubw, ubg>>
         [] f \in {"ug", "uh", "uphi"} -> ubg' = PutAt(ubg, BoundIdx(i, f), v) /\ UNCHANGED <<lbw, ubw, lbg>>
    /\ UNCHANGED <<d, w0, pv, lamx0, lamg0, sol>>
BoundOf(i, f) == Sub(CASE f \in {"lbx", "lbu"} -> lbw [] f \in {"ubx", "ubu"} -> ubw
                       [] f \in {"lg", "lh", "lphi"} -> lbg [] f \in {"ug", "uh", "uphi"} -> ubg, BoundIdx(i, f))

(* the underlying NLP solver is called with the stored data and answers s     *)
Solve(in, s) ==
    /\ in = [x0 |-> w0, p |-> pv, lamx0 |-> lamx0, lamg0 |-> lamg0, lbx |-> lbw, ubx |-> ubw, lbg |-> lbg, ubg |-> ubg]
    /\ sol' = [ok |-> TRUE, w |-> s.w, lamx |-> s.lamx, lamg |-> s.lamg, g |-> s.g, f |-> s.f]
    /\ UNCHANGED <<d, w0, pv, lamx0, lamg0, lbw, ubw, lbg, ubg>>

Get(i, f) ==
    CASE f = "x" -> Sub(sol.w, XinW(d, i)) [] f = "u" -> Sub(sol.w, UinW(d, i))
      [] f = "sl" -> Sub(sol.w, SLinW(d, i)) [] f = "su" -> Sub(sol.w, SUinW(d, i))
      [] f = "pi" -> VScale(-1, Sub(sol.lamg, RowsOf(d, i, {"dyn"})))
      [] f = "lam" -> LamOf(d, i, sol.lamx, sol.lamg)
      [] f = "p" -> Sub(pv, PinP(d, i)) [] f = "z" -> <<>>
(* values and multipliers of the constraints of stage i: bx, bu, dynamics, g/h/phi rows that are not split *)
ConstrValue(i, vw, vg) == Sub(vw, BoundPosX(d, i)) \o Sub(vw, BoundPosU(d, i)) \o Sub(vg, RowsOf(d, i, {"dyn"})) \o Sub(vg, RowsOf(d, i, {"g", "h", "phi"}))
LastStage(f) == IF f \in {"u", "pi", "z"} THEN d.N - 1 ELSE d.N
GetTraj(f) == [r \in 1..(LastStage(f) + 1) |-> Get(r - 1, f)]
GetFlat(f) == IF f = "p_global" THEN PG(d, pv) ELSE Flatten1(GetTraj(f))
(* set of every stage from one trajectory *)
RECURSIVE FoldLamX(_, _, _)
FoldLamX(lx, tr, i) == IF i > d.N THEN lx ELSE FoldLamX(LamX(d, i, lx, tr[i + 1]), tr, i + 1)
RECURSIVE FoldLamG(_, _, _)
FoldLamG(lg, tr, i) == IF i > d.N THEN lg ELSE FoldLamG(LamG(d, i, lg, tr[i + 1]), tr, i + 1)
RECURSIVE FoldPut(_, _, _, _)
FoldPut(v, P(_), tr, i) == IF i > Len(tr) THEN v ELSE FoldPut(PutAt(v, P(i - 1), tr[i]), P, tr, i + 1)
PX(i) == XinW(d, i)  PU(i) == UinW(d, i)  PSL(i) == SLinW(d, i)  PSU(i) == SUinW(d, i)  PPI(i) == RowsOf(d, i, {"dyn"})
SetTraj(tr) ==       \* a record of trajectories; absent fields are empty
    /\ w0' = LET a == FoldPut(w0, PX, tr.x, 1) b == FoldPut(a, PU, tr.u, 1) c == FoldPut(b, PSL, tr.sl, 1) IN FoldPut(c, PSU, tr.su, 1)
    /\ LET lg == IF tr.pi = <<>> THEN lamg0 ELSE FoldPut(lamg0, PPI, [r \in 1..Len(tr.pi) |-> VScale(-1, tr.pi[r])], 1)
       IN lamg0' = IF tr.lam = <<>> THEN lg ELSE FoldLamG(lg, tr.lam, 0)
    /\ lamx0' = IF tr.lam = <<>> THEN lamx0 ELSE FoldLamX(lamx0, tr.lam, 0)
    /\ UNCHANGED <<d, pv, lbw, ubw, lbg, ubg, sol>>
=============================================================================
