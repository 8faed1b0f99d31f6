------------------------------- MODULE Native -------------------------------
(* A problem of one or several phases as the solver linearizes it: which data *)
(* act at which stage, the QP of a point, its residuals, and the optimality   *)
(* conditions of the problem.  nlp = [phases, Ns, dt, scaling, opt] with the  *)
(* phase descriptions of OcpSem; st[i+1] is the data of stage i.              *)
(* Objective values and their derivatives are TWICE the value.                *)
EXTENDS OcpSem

VARIABLES nlp, st, pg
natVars == <<nlp, st, pg>>
INFB == 1000000000

N(n) == SumS(n.Ns)
RECURSIVE PhaseFrom(_, _, _)
PhaseFrom(n, i, k) == IF k = Len(n.Ns) \/ i < n.Ns[k] THEN k ELSE PhaseFrom(n, i - n.Ns[k], k + 1)
PhaseOf(n, i) == PhaseFrom(n, i, 1)          \* the terminal stage belongs to the last phase
(* the description that governs stage i; only its position in the horizon comes from the whole problem *)
DD(n, i) == [n.phases[PhaseOf(n, i)] EXCEPT !.N = N(n), !.dt = n.dt]
K(n, i) == Kind([N |-> N(n)], i)

StageData(n, i) ==
    LET d == DD(n, i) k == K(n, i)
    IN [p |-> d.p, yref |-> d.cost[k].yref, W |-> d.cost[k].W, lo |-> ConLow(d, i), up |-> ConUp(d, i), S |-> d.slack[k], sc |-> n.scaling[i + 1]]
Create(n) == nlp = n /\ st = TLCEval([r \in 1..(N(n) + 1) |-> TLCEval(StageData(n, r - 1))]) /\ pg = n.phases[1].pg

SetStage(i, f, v) == st' = [st EXCEPT ![i + 1][f] = v] /\ UNCHANGED <<nlp, pg>>
SetSparse(i, idx, v) ==
    /\ st' = [st EXCEPT ![i + 1].p = [r \in 1..Len(@) |-> IF Has(idx, r - 1) THEN v[IndexIn(idx, r - 1)] ELSE @[r]]]
    /\ UNCHANGED <<nlp, pg>>
SetGlobal(v) == pg' = v /\ UNCHANGED <<nlp, st>>
RECURSIVE Cut(_, _, _)
Cut(v, lens, acc) == IF lens = <<>> THEN acc ELSE Cut(SubSeq(v, lens[1] + 1, Len(v)), Tail(lens), Append(acc, SubSeq(v, 1, lens[1])))
SetFlatP(v) ==
    LET parts == Cut(v, [r \in 1..Len(st) |-> Len(st[r].p)], <<>>)
    IN st' = [r \in 1..Len(st) |-> [st[r] EXCEPT !.p = parts[r]]] /\ UNCHANGED <<nlp, pg>>

----------------------------------------------------------------------------
(* at a point w = [x, u, sl, su, pi, lam] *)
U(w, i) == IF i + 1 <= Len(w.u) THEN w.u[i + 1] ELSE <<>>
VV(w, i) == LET d == DD(nlp, i) IN Vars(d, w.x[i + 1], U(w, i), <<>>, st[i + 1].p, pg)
CostD(i) == [DD(nlp, i).cost[K(nlp, i)] EXCEPT !.W = st[i + 1].W]
Cols(i) == LET d == DD(nlp, i) IN SubSeq(XU(d), 1, d.nx + Nu(d, i))

StageCost2(w, i) ==
    LET d == DD(nlp, i) s == st[i + 1]
    IN s.sc * (Cost2(d, CostD(i), VV(w, i), s.yref) + Slack2(s.S, w.sl[i + 1], w.su[i + 1]))
Obj2(w) == SumS([r \in 1..(N(nlp) + 1) |-> StageCost2(w, r - 1)])
CGrad2(w, i) == LET d == DD(nlp, i) s == st[i + 1] IN VScale(s.sc, Cost2Grad(d, CostD(i), VV(w, i), s.yref, Cols(i)))

Mask(v) == [k \in 1..Len(v) |-> IF AbsI(v[k]) >= INFB THEN 0 ELSE 1]
Nc(i) == Len(st[i + 1].lo)
NsS(i) == Len(st[i + 1].S.zl)
LamL(w, i) == SubSeq(w.lam[i + 1], 1, Nc(i))
LamU(w, i) == SubSeq(w.lam[i + 1], Nc(i) + 1, 2 * Nc(i))
LamSl(w, i) == SubSeq(w.lam[i + 1], 2 * Nc(i) + 1, 2 * Nc(i) + NsS(i))
LamSu(w, i) == SubSeq(w.lam[i + 1], 2 * Nc(i) + NsS(i) + 1, 2 * Nc(i) + 2 * NsS(i))

SlackAt(d, i, sv) == LET sl == SlackOf(d, i) IN [k \in 1..Len(sl) |-> IF sl[k] = 0 THEN 0 ELSE sv[sl[k]]]
(* twice the Hessian of the stage (x, u), of the approximation chosen *)
Hess2(w, i) ==
    LET d == DD(nlp, i) C == CostD(i) s == st[i + 1] c == Con(d, i) v == VV(w, i) vs == Cols(i) n == Len(vs) o == nlp.opt
        ex == o.exact
        Hc == MScale(s.sc, IF ex /\ o.cost THEN Cost2Hess(d, C, v, s.yref, vs) ELSE Cost2HessGN(d, C, v, s.yref, vs))
        Hd == IF ex /\ o.dyn /\ i < N(nlp) /\ d.dyn.type = "DISCRETE" THEN MScale(2, WHess(d.dyn.f, w.pi[i + 1], v, vs)) ELSE ZeroMat(n, n)
        lam == VSub(LamU(w, i), LamL(w, i))
        at == Len(lam) - Len(c.phi) - Len(c.h)
        Hh == IF ex /\ o.con THEN MScale(2, WHess(c.h, SubSeq(lam, at + 1, at + Len(c.h)), v, vs)) ELSE ZeroMat(n, n)
        rr == EvS(c.r, v)
        Jr == JacP(c.r, v, vs)
        Hp == IF Len(c.phi) = 0 THEN ZeroMat(n, n)
              ELSE MScale(2, Sandwich(Jr, WHess(c.phi, SubSeq(LamU(w, i), at + Len(c.h) + 1, Len(lam)), rr,   \* the convex side only
                                                 [j \in 1..Len(rr) |-> j]), Jr, n, n))
    IN MAdd(MAdd(Hc, Hd), MAdd(Hh, Hp))
Block(M, r0, nr, c0, nc) == [i \in 1..nr |-> [j \in 1..nc |-> M[r0 + i][c0 + j]]]

Qp(w, i) ==
    LET d == DD(nlp, i) s == st[i + 1] nx == d.nx nu == Nu(d, i) v == VV(w, i)
        H == Hess2(w, i) g == CGrad2(w, i)
        y == Dyn(d, i, v, TRUE)
        J == ConJac(d, i, v)  val == ConVal(d, i, v, w.x[i + 1], U(w, i))
        c == Con(d, i) nbu == IF i < N(nlp) THEN Len(c.idxbu) ELSE 0 nb == nbu + Len(c.idxbx) n == Len(val)
        last == i = N(nlp)
        M(b, mk, shift) == [k \in 1..Len(b) |-> IF mk[k] = 0 THEN 0 ELSE b[k] - val[k] + shift[k]]
        lo == M(s.lo, Mask(s.lo), VScale(-1, SlackAt(d, i, w.sl[i + 1]))) up == M(s.up, Mask(s.up), SlackAt(d, i, w.su[i + 1])) ml == Mask(s.lo) mu == Mask(s.up)
        Part(z, what) == CASE what = "bu" -> SubSeq(z, 1, nbu) [] what = "bx" -> SubSeq(z, nbu + 1, nb) [] what = "g" -> SubSeq(z, nb + 1, n)
        nxn == IF last THEN 0 ELSE DD(nlp, i + 1).nx
    IN [Q |-> Block(H, 0, nx, 0, nx), R |-> Block(H, nx, nu, nx, nu), S |-> Block(H, nx, nu, 0, nx), q |-> SubSeq(g, 1, nx), r |-> SubSeq(g, nx + 1, nx + nu),
        A |-> IF last THEN <<>> ELSE Block(y.S, 0, nxn, 0, nx), B |-> IF last THEN <<>> ELSE Block(y.S, 0, nxn, nx, nu),
        b |-> IF last THEN <<>> ELSE VSub(y.x, w.x[i + 2]),
        C |-> Block(J, nb, n - nb, 0, nx), D |-> Block(J, nb, n - nb, nx, nu),
        lbu |-> Part(lo, "bu"), lbx |-> Part(lo, "bx"), lg |-> Part(lo, "g"), ubu |-> Part(up, "bu"), ubx |-> Part(up, "bx"), ug |-> Part(up, "g"),
        lbu_mask |-> Part(ml, "bu"), lbx_mask |-> Part(ml, "bx"), lg_mask |-> Part(ml, "g"), ubu_mask |-> Part(mu, "bu"), ubx_mask |-> Part(mu, "bx"), ug_mask |-> Part(mu, "g"),
        zl |-> [k \in 1..NsS(i) |-> 2 * s.sc * (s.S.zl[k] + s.S.Zl[k] * w.sl[i + 1][k])], zu |-> [k \in 1..NsS(i) |-> 2 * s.sc * (s.S.zu[k] + s.S.Zu[k] * w.su[i + 1][k])],
        Zl |-> VScale(2 * s.sc, s.S.Zl), Zu |-> VScale(2 * s.sc, s.S.Zu),
        lls |-> VScale(-1, w.sl[i + 1]), lus |-> VScale(-1, w.su[i + 1])]

----------------------------------------------------------------------------
(* residuals of the optimality conditions at w; its multipliers count mk-fold *)
(* (mk > 1 for multipliers in fixed point), residuals are 2 * mk-fold.        *)
Stat2(w, i, mk) ==
    LET d == DD(nlp, i) v == VV(w, i) n == Len(Cols(i)) J == ConJac(d, i, v)
        g == VScale(mk, CGrad2(w, i))
        dy == IF i < N(nlp) THEN TMatVec(Dyn(d, i, v, TRUE).S, VScale(2, w.pi[i + 1]), n) ELSE Zeros(n)
        prev == IF i > 0 THEN VScale(-2, w.pi[i]) \o Zeros(n - d.nx) ELSE Zeros(n)
        c == TMatVec(J, VScale(2, VSub(LamU(w, i), LamL(w, i))), n)
    IN VAdd(VAdd(g, dy), VAdd(prev, c))
SlStat2(w, i, mk) ==      \* of the slacks: penalty gradient minus the multipliers that act on the slack
    LET d == DD(nlp, i) s == st[i + 1] so == SlackOf(d, i) ns == NsS(i)
        On(lam, j) == SumS([k \in 1..Len(so) |-> IF so[k] = j THEN lam[k] ELSE 0])
    IN [j \in 1..ns |-> 2 * (mk * s.sc * (s.S.zl[j] + s.S.Zl[j] * w.sl[i + 1][j]) - On(LamL(w, i), j) - LamSl(w, i)[j])]
       \o [j \in 1..ns |-> 2 * (mk * s.sc * (s.S.zu[j] + s.S.Zu[j] * w.su[i + 1][j]) - On(LamU(w, i), j) - LamSu(w, i)[j])]
Gap(w, i) == LET d == DD(nlp, i) IN VSub(Dyn(d, i, VV(w, i), FALSE).x, w.x[i + 2])
(* what is positive where an inequality is violated; zero where the bound is absent *)
Ineq(w, i) ==
    LET d == DD(nlp, i) s == st[i + 1] val == ConVal(d, i, VV(w, i), w.x[i + 1], U(w, i))
        l == SlackAt(d, i, w.sl[i + 1]) u == SlackAt(d, i, w.su[i + 1]) ml == Mask(s.lo) mu == Mask(s.up)
    IN [k \in 1..Len(val) |-> IF ml[k] = 0 THEN 0 ELSE s.lo[k] - val[k] - l[k]]
       \o [k \in 1..Len(val) |-> IF mu[k] = 0 THEN 0 ELSE val[k] - u[k] - s.up[k]]
       \o VScale(-1, w.sl[i + 1]) \o VScale(-1, w.su[i + 1])

MaxAbs(v) == FoldLeft(LAMBDA a, b : MaxI(a, AbsI(b)), 0, v)
MaxPos(v) == FoldLeft(LAMBDA a, b : MaxI(a, b), 0, v)
Over(F(_), n) == [r \in 1..n |-> F(r - 1)]
Residuals(w) ==      \* stationarity (twice), dynamics, inequalities, complementarity
    LET A(i) == MaxI(MaxAbs(Stat2(w, i, 1)), MaxAbs(SlStat2(w, i, 1)))
        B(i) == MaxAbs(Gap(w, i))
        C(i) == MaxPos(Ineq(w, i))
        D1(i) == LET v == Ineq(w, i) IN MaxAbs([k \in 1..Len(v) |-> v[k] * w.lam[i + 1][k]])
    IN <<MaxAbs(Over(A, N(nlp) + 1)), MaxAbs(Over(B, N(nlp))), MaxPos(Over(C, N(nlp) + 1)), MaxAbs(Over(D1, N(nlp) + 1))>>

(* w is (in x, u, s exactly; in the multipliers to one unit of 1/mk) a point that satisfies the optimality conditions *)
L1(v) == SumS([k \in 1..Len(v) |-> AbsI(v[k])])
Slop(w, i) == LET d == DD(nlp, i) J == ConJac(d, i, VV(w, i)) n == Len(Cols(i)) S == IF i < N(nlp) THEN Dyn(d, i, VV(w, i), TRUE).S ELSE <<>>
              IN [j \in 1..n |-> 4 + 2 * SumS([k \in 1..Len(S) |-> AbsI(S[k][j])]) + 4 * SumS([k \in 1..Len(J) |-> AbsI(J[k][j])])]
Grain(w) == 1 + MaxI(MaxAbs(FlattenSeq(w.pi)), MaxAbs(FlattenSeq(w.lam))) \div 20000      \* large multipliers are known to fewer places
KktStage(w, i, mk) ==
    LET gr == Grain(w) q == Stat2(w, i, mk) sp == Slop(w, i) sq == SlStat2(w, i, mk) v == Ineq(w, i) lam == w.lam[i + 1]
    IN /\ \A j \in 1..Len(q) : AbsI(q[j]) <= gr * sp[j]
       /\ \A j \in 1..Len(sq) : AbsI(sq[j]) <= gr * (8 + 2 * Nc(i))
       /\ \A k \in 1..Len(v) : v[k] <= 0 /\ lam[k] >= -gr /\ (lam[k] > gr => v[k] = 0)
       /\ \A k \in 1..Nc(i) : (AbsI(st[i + 1].lo[k]) >= INFB => AbsI(lam[k]) <= gr) /\ (AbsI(st[i + 1].up[k]) >= INFB => AbsI(lam[Nc(i) + k]) <= gr)
       /\ i < N(nlp) => MaxAbs(Gap(w, i)) = 0
Kkt(w, mk) == \A i \in 0..N(nlp) : KktStage(w, i, mk)
=============================================================================
