---------------------------- MODULE SqpToyTrace -----------------------------
(* validates recorded solve() calls of the real solver against SqpToy *)
EXTENDS SqpToy, Json
Traces == ndJsonDeserialize("traces.ndjson")
VARIABLES tid, l
Tr == Traces[tid].ev
E == Tr[l]
IsEvent(e) == l <= Len(Tr) /\ E.op = e /\ l' = l + 1 /\ UNCHANGED tid

TraceInit == ToyInit /\ tid \in 1..Len(Traces) /\ l = 1

TSet == IsEvent("set") /\ ToySet(E.it, E.pr)
TSolve == IsEvent("solve") /\ ToyStart(E.opt)
TEval == IsEvent("eval") /\ ToyEval /\ E.it = it
TStop == IsEvent("row") /\ (ToyTerminate \/ ToyContinue) /\ E.res = res
TQp == /\ IsEvent("qp")
       /\ E.qp = ExpectedQp
       /\ E.ws = ExpectedWarmStart
       /\ ToyQp(E.status, E.step)
TAccept == IsEvent("accept") /\ ToyStep /\ E.alpha = alpha'
TDone == /\ IsEvent("done") /\ pc = "done"
         /\ E.status = status /\ E.iter = iter /\ E.nqp = nqp
         /\ E.it = it
         /\ E.res = res
         /\ E.iters = hist
         /\ E.cost = (IF BadP(pr) THEN E.cost ELSE Cost(it))
         /\ UNCHANGED allVars
Done0 == l = Len(Tr) + 1 /\ UNCHANGED <<allVars, tid, l>>
TraceNext == TSet \/ TSolve \/ TEval \/ TStop \/ TQp \/ TAccept \/ TDone \/ Done0
TraceSpec == TraceInit /\ [][TraceNext]_<<allVars, tid, l>>
InvSuccess == SuccessMeansConverged
InvUnb == UnboundedMeansBelow
InvMax == MaxiterMeansExhausted
=============================================================================
