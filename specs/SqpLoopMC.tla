----------------------------- MODULE SqpLoopMC ------------------------------
(* every sequence of evaluations and QP outcomes over small sets *)
EXTENDS SqpLoop
CONSTANTS MaxIters

Level == {0, 2, NAN}                         \* converged, not converged, not a number
Rs == {<<a, b, 0, c>> : a \in Level, b \in Level, c \in {0, 2}}
Costs == {-10, 0}
Opts == [maxIter : 0..MaxIters, evalAtMax : BOOLEAN, tol : {<<1, 1, 1, 1>>}, minStep : {2},
         minStepOn : BOOLEAN, unb : {-5}, needsObj : BOOLEAN]

Init == /\ pc = "idle" /\ opt = [maxIter |-> 0] /\ iter = 0 /\ status = READY
        /\ res = <<0, 0, 0, 0>> /\ fresh = FALSE /\ cost = 0 /\ stepNorm = 0 /\ alpha = <<0, 1>>
        /\ nqp = 0 /\ rows = <<>>
Next ==
    \/ (pc = "idle") /\ \E o \in Opts : Start(o)
    \/ \E r \in Rs, c \in Costs : Eval(r, c)
    \/ Terminate \/ Continue
    \/ \E s \in {0, 1, 2, 3, 4} : QpFail(s)
    \/ \E s \in {0, 2}, n \in {1, 5} : QpDone(s, n)
    \/ \E a \in {<<1, 1>>, <<1, 2>>} : Accept(a)
    \/ Reject(NAN_DETECTED)
Spec == Init /\ [][Next]_loopVars /\ WF_loopVars(Next)
view == <<pc, opt, iter, status, res, fresh, cost, stepNorm, nqp, Len(rows)>>
IterBoundMC == pc = "idle" \/ IterBound
Terminates == (pc = "eval") ~> (pc = "done")
QpCountMC == Done /\ status # NAN_DETECTED => nqp = iter
=============================================================================
