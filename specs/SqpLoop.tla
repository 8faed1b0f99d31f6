------------------------------ MODULE SqpLoop -------------------------------
(* The main loop of the SQP-type solvers: evaluate, decide whether to stop,   *)
(* solve the QP, choose a step, repeat.  One call of solve() is one run from  *)
(* Start to pc = "done".  What the numbers are is left to the module that     *)
(* extends this one (SqpLoopMC chooses them freely; SqpToy computes them).    *)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES pc,        \* "idle", "eval", "stop", "qp", "step", "done"
          opt,       \* [maxIter, evalAtMax, tol (4), minStep, minStepOn, unb, needsObj]
          iter, status,
          res,       \* the four residual norms seen last
          fresh,     \* they belong to the current iterate
          cost,      \* objective at the current iterate, if it is evaluated
          stepNorm, alpha,
          nqp,       \* QPs solved in this call
          rows       \* the statistics table

loopVars == <<pc, opt, iter, status, res, fresh, cost, stepNorm, alpha, nqp, rows>>

SUCCESS == 0  NAN_DETECTED == 1  MAXITER == 2  MINSTEP == 3  QP_FAILURE == 4
READY == 5    UNBOUNDED == 6     TIMEOUT == 7
Statuses == {SUCCESS, NAN_DETECTED, MAXITER, MINSTEP, QP_FAILURE, UNBOUNDED}
NAN == -999999
HasNan(r) == \E i \in 1..4 : r[i] = NAN
Below(r, tol) == \A i \in 1..4 : r[i] < tol[i]

Start(o) ==
    /\ pc \in {"idle", "done"}
    /\ pc' = "eval" /\ opt' = o
    /\ iter' = 0 /\ status' = SUCCESS /\ stepNorm' = 0 /\ alpha' = <<0, 1>> /\ nqp' = 0
    /\ rows' = <<>> /\ fresh' = FALSE
    /\ UNCHANGED <<res, cost>>

(* residuals of the current iterate, and its objective where the globalization needs it *)
Evaluates == iter # opt.maxIter \/ opt.evalAtMax
Eval(r, c) ==
    /\ pc = "eval"
    /\ IF Evaluates
       THEN /\ res' = r /\ fresh' = TRUE
            /\ cost' = IF opt.needsObj THEN c ELSE cost
       ELSE UNCHANGED <<res, cost>> /\ fresh' = FALSE
    /\ pc' = "stop"
    /\ UNCHANGED <<opt, iter, status, stepNorm, alpha, nqp, rows>>

(* the reasons to stop, in order of precedence *)
Verdict ==
    IF HasNan(res) THEN NAN_DETECTED
    ELSE IF ~opt.evalAtMax /\ iter >= opt.maxIter THEN MAXITER
    ELSE IF Below(res, opt.tol) THEN SUCCESS
    ELSE IF opt.minStepOn /\ iter > 0 /\ stepNorm < opt.minStep THEN MINSTEP
    ELSE IF opt.needsObj /\ cost <= opt.unb THEN UNBOUNDED
    ELSE IF iter >= opt.maxIter THEN MAXITER
    ELSE -1

Terminate ==
    /\ pc = "stop" /\ Verdict # -1
    /\ pc' = "done" /\ status' = Verdict
    /\ rows' = Append(rows, res)
    /\ UNCHANGED <<opt, iter, res, fresh, cost, stepNorm, alpha, nqp>>

Continue ==
    /\ pc = "stop" /\ Verdict = -1
    /\ pc' = "qp" /\ rows' = Append(rows, res)
    /\ UNCHANGED <<opt, iter, status, res, fresh, cost, stepNorm, alpha, nqp>>

QpUsable(s) == s \in {SUCCESS, MAXITER}

QpFail(s) ==
    /\ pc = "qp" /\ ~QpUsable(s)
    /\ pc' = "done" /\ status' = QP_FAILURE /\ iter' = iter + 1 /\ nqp' = nqp + 1
    /\ UNCHANGED <<opt, res, fresh, cost, stepNorm, alpha, rows>>

QpDone(s, norm) ==
    /\ pc = "qp" /\ QpUsable(s)
    /\ pc' = "step" /\ nqp' = nqp + 1
    /\ stepNorm' = norm
    /\ UNCHANGED <<opt, iter, status, res, fresh, cost, alpha, rows>>

(* the globalization accepted the step length a = <<numerator, denominator>> *)
Accept(a) ==
    /\ pc = "step"
    /\ pc' = "eval" /\ alpha' = a /\ iter' = iter + 1 /\ fresh' = FALSE
    /\ UNCHANGED <<opt, status, res, cost, stepNorm, nqp, rows>>

(* the globalization found no step *)
Reject(s) ==
    /\ pc = "step"
    /\ pc' = "done" /\ status' = s
    /\ UNCHANGED <<opt, iter, res, fresh, cost, stepNorm, alpha, nqp, rows>>

----------------------------------------------------------------------------
(* what a user relies on *)
Done == pc = "done"
SuccessMeansConverged == Done /\ status = SUCCESS => fresh /\ Below(res, opt.tol)
NanReported == Done /\ HasNan(res) /\ fresh => status \in {NAN_DETECTED}
IterBound == iter <= opt.maxIter
QpCount == Done => nqp = (IF status \in {SUCCESS, NAN_DETECTED, MAXITER, MINSTEP, UNBOUNDED, QP_FAILURE} THEN iter ELSE nqp)
MaxiterMeansExhausted == Done /\ status = MAXITER => iter = opt.maxIter
UnboundedMeansBelow == Done /\ status = UNBOUNDED => cost <= opt.unb
MinstepMeansSmall == Done /\ status = MINSTEP => opt.minStepOn /\ stepNorm < opt.minStep
RowsMatch == Done => Len(rows) = (IF status = QP_FAILURE THEN iter ELSE iter + 1)
LoopTypeOK == status \in Statuses \cup {READY, TIMEOUT}
=============================================================================
