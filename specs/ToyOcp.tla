------------------------------- MODULE ToyOcp -------------------------------
(* A small optimal control problem with soft, hard, linear and nonlinear      *)
(* constraints whose every quantity is an integer at integer points. All      *)
(* that a user may rely on about "residual", "cost", "merit" and "QP          *)
(* subproblem" is stated here from the textbook definitions, independently of *)
(* the implementation (drivers/toyocp.py gives the same problem to acados).   *)
(*                                                                            *)
(*   min  sum_{k<2} (x_k-1)^2 + u_k^2 + x_k u_k  +  2 (x_2+1)^2 + slack cost  *)
(*   x_{k+1} = x_k + u_k + x_k u_k + p_k ;  x_0 = xbar ; -2 <= u_k <= 3       *)
(*   -4 <= x_1^2 - u_1 <= 6  soft, Z = (2,4), z = (3,5)                       *)
(*   -5 <= x_2 <= 6          soft, Z = (6,8), z = (7,9)                       *)
(*                                                                            *)
(* An iterate is a record [x (3), u (2), s (<<sl_1, su_1, sl_2, su_2>>),      *)
(* pi (2), l0 (4), l1 (6), l2 (4)]; multipliers are in the documented order   *)
(* lower bounds (u before x), lower general, upper bounds, upper general,     *)
(* lower slacks, upper slacks.  Problem data is pr = [p (2), xbar].           *)
EXTENDS Integers, Sequences, FiniteSets, TLC

NaN == -999999          \* "not a number" in traces

Abs(a) == IF a < 0 THEN -a ELSE a
Max2(a, b) == IF a > b THEN a ELSE b
Pos(a) == IF a > 0 THEN a ELSE 0
RECURSIVE SeqMax(_)
SeqMax(s) == IF s = <<>> THEN 0 ELSE Max2(Head(s), SeqMax(Tail(s)))
RECURSIVE SeqSum(_)
SeqSum(s) == IF s = <<>> THEN 0 ELSE Head(s) + SeqSum(Tail(s))
InfNorm(s) == SeqMax([i \in 1..Len(s) |-> Abs(s[i])])
Map2(F(_, _), a, b) == [i \in 1..Len(a) |-> F(a[i], b[i])]
Dot(a, b) == SeqSum([i \in 1..Len(a) |-> a[i] * b[i]])

LBU == -2   UBU == 3
LH == -4    UH == 6
LX2 == -5   UX2 == 6
Zs == <<2, 4, 6, 8>>
zs == <<3, 5, 7, 9>>

Dyn(x, u, p) == x + u + x * u + p
HFun(it) == it.x[2] * it.x[2] - it.u[2]

(* objective *)
SlackCost2(it) ==        \* twice the slack cost, to stay in the integers
    SeqSum([i \in 1..4 |-> Zs[i] * it.s[i] * it.s[i] + 2 * zs[i] * it.s[i]])
Cost(it) ==
    LET l(k) == (it.x[k] - 1) * (it.x[k] - 1) + it.u[k] * it.u[k] + it.x[k] * it.u[k]
    IN  l(1) + l(2) + 2 * (it.x[3] + 1) * (it.x[3] + 1) + SlackCost2(it) \div 2

(* defects of the equality constraints *)
Gap(it, pr) == [k \in 1..2 |-> Dyn(it.x[k], it.u[k], pr.p[k]) - it.x[k + 1]]

(* inequality constraint functions, positive when violated *)
Ineq0(it, pr) == << LBU - it.u[1], pr.xbar - it.x[1], it.u[1] - UBU, it.x[1] - pr.xbar >>
Ineq1(it, pr) == << LBU - it.u[2], LH - HFun(it) - it.s[1],
                    it.u[2] - UBU, HFun(it) - UH - it.s[2], - it.s[1], - it.s[2] >>
Ineq2(it, pr) == << LX2 - it.x[3] - it.s[3], it.x[3] - UX2 - it.s[4], - it.s[3], - it.s[4] >>
Ineq(it, pr) == Ineq0(it, pr) \o Ineq1(it, pr) \o Ineq2(it, pr)
Lam(it) == it.l0 \o it.l1 \o it.l2

(* gradients *)
GradU(it, k) == 2 * it.u[k] + it.x[k]
GradX(it, k) == IF k = 3 THEN 4 * (it.x[3] + 1) ELSE 2 * (it.x[k] - 1) + it.u[k]
GradS(it) == [i \in 1..4 |-> Zs[i] * it.s[i] + zs[i]]
JacX(it, k) == 1 + it.u[k]       \* d Dyn / d x
JacU(it, k) == 1 + it.x[k]       \* d Dyn / d u
HX(it) == 2 * it.x[2]            \* d h / d x_1
HU(it) == -1

(* gradient of the Lagrangian: (u_0, x_0, u_1, x_1, sl_1, su_1, x_2, sl_2, su_2) *)
GradLag(it) ==
    << GradU(it, 1) + JacU(it, 1) * it.pi[1] - it.l0[1] + it.l0[3],
       GradX(it, 1) + JacX(it, 1) * it.pi[1] - it.l0[2] + it.l0[4],
       GradU(it, 2) + JacU(it, 2) * it.pi[2] - it.l1[1] + it.l1[3] + HU(it) * (it.l1[4] - it.l1[2]),
       GradX(it, 2) + JacX(it, 2) * it.pi[2] - it.pi[1] + HX(it) * (it.l1[4] - it.l1[2]),
       GradS(it)[1] - it.l1[2] - it.l1[5],
       GradS(it)[2] - it.l1[4] - it.l1[6],
       GradX(it, 3) - it.pi[2] - it.l2[1] + it.l2[2],
       GradS(it)[3] - it.l2[1] - it.l2[3],
       GradS(it)[4] - it.l2[2] - it.l2[4] >>

BadP(pr) == \E k \in 1..2 : pr.p[k] = NaN

Res(it, pr) ==
    [stat |-> InfNorm(GradLag(it)),
     eq   |-> IF BadP(pr) THEN NaN ELSE InfNorm(Gap(it, pr)),
     ineq |-> SeqMax([i \in 1..14 |-> Pos(Ineq(it, pr)[i])]),
     comp |-> InfNorm([i \in 1..14 |-> Lam(it)[i] * Ineq(it, pr)[i]])]
ResSeq(r) == << r.stat, r.eq, r.ineq, r.comp >>

(* the quadratic subproblem at an iterate (exact Hessian of the Lagrangian), stage by stage,    *)
(* variables (u, x, sl, su): g gradient, H lower triangle by rows, d right-hand side            *)
QpHess(it) ==
    << << <<2>>, <<1 + it.pi[1], 2>> >>,
       << <<2>>, <<1 + it.pi[2], 2 + 2 * (it.l1[4] - it.l1[2])>> >>,
       << <<4>> >> >>
QpGrad(it) ==
    << <<GradU(it, 1), GradX(it, 1)>>,
       <<GradU(it, 2), GradX(it, 2), GradS(it)[1], GradS(it)[2]>>,
       <<GradX(it, 3), GradS(it)[3], GradS(it)[4]>> >>
QpBA(it) == << << <<JacU(it, 1)>>, <<JacX(it, 1)>> >>, << <<JacU(it, 2)>>, <<JacX(it, 2)>> >> >>
QpB(it, pr) == << <<Gap(it, pr)[1]>>, <<Gap(it, pr)[2]>> >>
QpD(it, pr) ==   \* stored with the sign of "lower - value" and "-(upper - value)" of the solver's format
    << Ineq0(it, pr), Ineq1(it, pr), Ineq2(it, pr) >>
QpDC(it) == << <<HU(it)>>, <<HX(it)>> >>     \* rows (u, x) of the general constraint at stage 1

(* iterates *)
Zip(a, b, F(_, _)) == [i \in 1..Len(a) |-> F(a[i], b[i])]
PrimalPlus(it, st, a, den) ==      \* it + (a/den) * step; the division is exact for the steps used
    LET ax(v, d) == v + (a * d) \div den
    IN [it EXCEPT !.x = Zip(@, st.x, ax), !.u = Zip(@, st.u, ax), !.s = Zip(@, st.s, ax)]
DualStep(it, st, a, den) ==        \* (1 - a/den) * it + (a/den) * step
    LET ax(v, d) == v + (a * (d - v)) \div den
    IN [it EXCEPT !.pi = Zip(@, st.pi, ax), !.l0 = Zip(@, st.l0, ax), !.l1 = Zip(@, st.l1, ax), !.l2 = Zip(@, st.l2, ax)]
DualFull(it, st) == [it EXCEPT !.pi = st.pi, !.l0 = st.l0, !.l1 = st.l1, !.l2 = st.l2]
StepNorm(st) == InfNorm(st.x \o st.u \o st.s)
Divides(it, st, a, den) ==         \* the step a/den leaves every number an integer
    /\ \A v \in {st.x[i] : i \in 1..3} \cup {st.u[i] : i \in 1..2} \cup {st.s[i] : i \in 1..4} : (a * v) % den = 0
=============================================================================
