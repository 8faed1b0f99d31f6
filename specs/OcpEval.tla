------------------------------- MODULE OcpEval -------------------------------
(* The evaluator of a problem: a store of parameter values, and the objective, *)
(* violations and slack penalties the description d defines at a point.        *)
(* Objective values are twice the value.                                       *)
EXTENDS OcpSem

VARIABLES d, P, PG           \* description; parameters of stages 0..N; global ones
evalVars == <<d, P, PG>>
Create(dd) == d = dd /\ P = [i \in 1..(dd.N + 1) |-> dd.p] /\ PG = dd.pg

Viol(v, lo, up) == [low |-> [k \in 1..Len(v) |-> MaxI(lo[k] - v[k], 0)], up |-> [k \in 1..Len(v) |-> MaxI(v[k] - up[k], 0)]]
(* the stage seen as one of kind k: the evaluator knows path and terminal stages only *)
ConValK(dd, k, v, x, u) ==
    LET c == dd.con[k] i == IF k = "e" THEN dd.N ELSE IF dd.N > 1 THEN 1 ELSE 0
    IN (IF k = "e" THEN <<>> ELSE SubV(u, c.idxbu)) \o SubV(x, c.idxbx)
       \o [r \in 1..Len(c.C) |-> Dot(c.C[r], x) + (IF k = "e" THEN 0 ELSE Dot(c.D[r], u))] \o EvS(c.h, v)
LowK(dd, k) == LET c == dd.con[k] IN (IF k = "e" THEN <<>> ELSE c.lbu) \o c.lbx \o c.lg \o c.lh
UpK(dd, k) == LET c == dd.con[k] IN (IF k = "e" THEN <<>> ELSE c.ubu) \o c.ubx \o c.ug \o c.uh
(* positions (from zero) of the soft constraints in slack order *)
SoftK(dd, k) ==
    LET c == dd.con[k] nbu == IF k = "e" THEN 0 ELSE Len(c.idxbu) nbx == Len(c.idxbx) ng == Len(c.C)
        Sh(s, o) == [j \in 1..Len(s) |-> s[j] + o]
    IN (IF k = "e" THEN <<>> ELSE c.idxsbu) \o Sh(c.idxsbx, nbu) \o Sh(c.idxsg, nbu + nbx) \o Sh(c.idxsh, nbu + nbx + ng)
HardK(dd, k) == LET n == Len(LowK(dd, k)) s == SoftK(dd, k) IN SelectSeq(Range0(0, n), LAMBDA j : ~Has(s, j))

StageEval(dd, k, scale, x, u, p, pg) ==
    LET v == Vars(dd, x, u, <<>>, p, pg)
        w == Viol(ConValK(dd, k, v, x, u), LowK(dd, k), UpK(dd, k))
        sl == SubV(w.low, SoftK(dd, k)) su == SubV(w.up, SoftK(dd, k))
        c == scale * Cost2(dd, dd.cost[k], v, dd.cost[k].yref)
        s == scale * Slack2(dd.slack[k], sl, su)
    IN [cost |-> c + s, noslack |-> c, slack |-> s, soft |-> sl \o su, hard |-> SubV(w.low, HardK(dd, k)) \o SubV(w.up, HardK(dd, k))]

Update(p, pg, saved) == P' = p /\ PG' = (IF saved THEN pg ELSE PG) /\ UNCHANGED d
Eval(x, u, step, p, pg) == StageEval(d, "p", d.scaling[step + 1], x, u, p[step + 1], pg)
(* the whole trajectory: no slack penalty at the initial stage *)
OcpCost(X, U, p, pg) ==
    Eval(X[1], U[1], 0, p, pg).noslack
    + SumS([i \in 1..(d.N - 1) |-> Eval(X[i + 1], U[i + 1], i, p, pg).cost])
    + StageEval(d, "e", d.scaling[d.N + 1], X[d.N + 1], <<>>, p[d.N + 1], pg).cost
(* derivative of the cost state *)
CostDot(x, u, p, pg) == StageEval(d, "p", 1, x, u, p, pg).cost
=============================================================================
