------------------------------- MODULE SqpToy -------------------------------
(* The SQP loop on the toy problem, with its step selection: full or fixed    *)
(* steps, and backtracking on the l1 merit function.                          *)
EXTENDS SqpLoop, ToyOcp

VARIABLES it, pr,     \* current iterate, problem data
          qp,         \* the QP solution being used
          g,          \* globalization state: [w: merit weights]
          hist        \* the iterates of this call

toyVars == <<it, pr, qp, g, hist>>
allVars == <<pc, opt, iter, status, res, fresh, cost, stepNorm, alpha, nqp, rows, it, pr, qp, g, hist>>

ToyStart(o) == Start(o) /\ hist' = <<>> /\ UNCHANGED <<it, pr, qp, g>>

ToyEval ==
    /\ Eval(ResSeq(Res(it, pr)), IF BadP(pr) THEN NaN ELSE Cost(it))
    /\ hist' = Append(hist, it)
    /\ UNCHANGED <<it, pr, qp, g>>

ToyTerminate == Terminate /\ UNCHANGED toyVars
ToyContinue == Continue /\ UNCHANGED toyVars
ToyQp(s, st) ==
    \/ QpFail(s) /\ hist' = Append(hist, it) /\ UNCHANGED <<it, pr, qp, g>>
    \/ QpDone(s, StepNorm(st)) /\ qp' = st /\ UNCHANGED <<it, pr, g, hist>>

(* the QP the solver must have been given, and how it must have been started *)
ExpectedQp ==
    [g |-> QpGrad(it), H |-> QpHess(it), BA |-> QpBA(it), b |-> QpB(it, pr), d |-> QpD(it, pr), DC |-> QpDC(it)]
ExpectedWarmStart == IF iter = 0 /\ ~opt.wsFirst THEN 0 ELSE opt.ws

Moved(a, den) ==
    LET prim == PrimalPlus(it, qp, a, den)
    IN  IF opt.fullDual THEN DualFull(prim, qp) ELSE DualStep(prim, qp, a, den)

(* fixed step *)
FixedStep ==
    /\ opt.glob = "FIXED_STEP"
    /\ Accept(opt.step)
    /\ it' = Moved(opt.step[1], opt.step[2])
    /\ UNCHANGED <<pr, qp, g, hist>>

(* merit function backtracking *)
NewWeights ==
    LET qpi == [i \in 1..2 |-> Abs(qp.pi[i])]
        ql == qp.l0 \o qp.l1 \o qp.l2
        up(new, old) == Max2(new, (new + old) \div 2)
    IN  IF iter = 0 THEN [pi |-> qpi, lam |-> ql]
        ELSE [pi |-> [i \in 1..2 |-> up(qpi[i], g.w.pi[i])], lam |-> [i \in 1..14 |-> up(ql[i], g.w.lam[i])]]
Merit(z, w) ==
    Cost(z) + SeqSum([k \in 1..2 |-> w.pi[k] * Abs(Gap(z, pr)[k])])
            + SeqSum([j \in 1..14 |-> w.lam[j] * Pos(Ineq(z, pr)[j])])
(* directional derivative of the merit function along the QP step; violated bounds on the slacks *)
(* themselves do not occur                                                                        *)
DMerit(w) ==
    LET dcost == Dot(<<GradU(it, 1), GradX(it, 1), GradU(it, 2), GradX(it, 2), GradX(it, 3)>>,
                     <<qp.u[1], qp.x[1], qp.u[2], qp.x[2], qp.x[3]>>) + Dot(GradS(it), qp.s)
        gap == Gap(it, pr)
        dgap == [k \in 1..2 |-> JacX(it, k) * qp.x[k] + JacU(it, k) * qp.u[k] - qp.x[k + 1]]
        ddyn == SeqSum([k \in 1..2 |-> IF gap[k] > 0 THEN w.pi[k] * dgap[k] ELSE - w.pi[k] * dgap[k]])
        dh == HU(it) * qp.u[2] + HX(it) * qp.x[2]
        dineq == << - qp.u[1], - qp.x[1], qp.u[1], qp.x[1],
                    - qp.u[2], - dh - qp.s[1], qp.u[2], dh - qp.s[2], 0, 0,
                    - qp.x[3] - qp.s[3], qp.x[3] - qp.s[4], 0, 0 >>
        f == Ineq(it, pr)
    IN  dcost + ddyn + SeqSum([j \in 1..14 |-> IF f[j] > 0 THEN w.lam[j] * dineq[j] ELSE 0])

(* opt.red = <<1, 2>>: halving; opt.eps = 1/opt.epsInv; opt.minAlphaInv = 1/alpha_min *)
AcceptAt(w, j) ==          \* the test at alpha = 2^-j
    LET m0 == Merit(it, w)
        m1 == Merit(PrimalPlus(it, qp, 1, 2^j), w)
        dm == IF opt.armijo THEN (IF DMerit(w) > 0 THEN 0 ELSE DMerit(w)) ELSE 0
    IN  (m1 - m0) * opt.epsInv * 2^j < dm
Tried(j) == 2^(j + 1) < opt.minAlphaInv        \* alpha/2 > alpha_min
MeritStep ==
    /\ opt.glob = "MERIT_BACKTRACKING"
    /\ LET w == NewWeights
           J == {j \in 0..6 : /\ \A i \in 0..(j - 1) : Tried(i) /\ ~AcceptAt(w, i)
                              /\ Tried(j) => AcceptAt(w, j)}
           j == CHOOSE k \in J : \A i \in J : k <= i
       IN  /\ J # {}
           /\ Accept(<<1, 2^j>>)
           /\ it' = Moved(1, 2^j)
           /\ g' = [g EXCEPT !.w = w]
           /\ UNCHANGED <<pr, qp, hist>>

ToyStep == FixedStep \/ MeritStep

(* the user sets the iterate and the data between calls *)
ToySet(z, d) ==
    /\ pc \in {"idle", "done"}
    /\ it' = z /\ pr' = d
    /\ UNCHANGED <<pc, opt, iter, status, res, fresh, cost, stepNorm, alpha, nqp, rows, qp, g, hist>>

ToyInit ==
    /\ pc = "idle" /\ opt = [maxIter |-> 0] /\ iter = 0 /\ status = READY
    /\ res = <<0, 0, 0, 0>> /\ fresh = FALSE /\ cost = 0 /\ stepNorm = 0 /\ alpha = <<0, 1>>
    /\ nqp = 0 /\ rows = <<>> /\ hist = <<>>
    /\ it = [x |-> <<0, 0, 0>>, u |-> <<0, 0>>, s |-> <<0, 0, 0, 0>>, pi |-> <<0, 0>>,
             l0 |-> <<0, 0, 0, 0>>, l1 |-> <<0, 0, 0, 0, 0, 0>>, l2 |-> <<0, 0, 0, 0>>]
    /\ pr = [p |-> <<0, 0>>, xbar |-> 2]
    /\ qp = it /\ g = [w |-> [pi |-> <<0, 0>>, lam |-> [i \in 1..14 |-> 0]]]
=============================================================================
