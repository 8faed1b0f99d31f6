-------------------------- MODULE ProblemDescTrace --------------------------
EXTENDS ProblemDesc, Json, TLC
Traces == ndJsonDeserialize("traces.ndjson")
VARIABLES tid, l, res     (* res: the completed description *)
Tr == Traces[tid].ev
E == Tr[l]
Chk(what, got, want) == IF got = want THEN TRUE ELSE PrintT(<<"MISMATCH", what, "expected", want, "recorded", got>>) /\ FALSE
IsEvent(e) == l <= Len(Tr) /\ E.op = e /\ l' = l + 1 /\ UNCHANGED tid
TraceInit == tid \in 1..Len(Traces) /\ l = 1 /\ res = [none |-> 0]
DiffA(a, b) == {<<f, a[f], b[f]>> : f \in {q \in DOMAIN a : a[q] # b[q]}}
Same(what, got, want) == \A k \in DOMAIN want : IF k \in {"dims", "A", "E"} THEN Chk(<<what, k, "(field, specified, read)">>, DiffA(want[k], got[k]), {}) ELSE Chk(<<what, k>>, got[k], want[k])
TMake == IsEvent("make")
         /\ LET b == Bad(E.d) IN
            /\ Chk(<<"accepted", E.why, "broken rules", b>>, E.ok, IF Gray(E.d) THEN E.ok ELSE b = {})
            /\ IF E.ok /\ b = {} /\ ~Gray(E.d) THEN res' = Complete(E.d) /\ Same("completed description", E.after, res') ELSE res' = [none |-> 0]
(* making a consistent description consistent again changes nothing *)
TAgain == IsEvent("again") /\ UNCHANGED res
          /\ ("dims" \in DOMAIN res => Chk(<<"accepted a second time", E.why>>, E.ok, TRUE) /\ (E.ok => Same("completed a second time", E.after, res)))
Done0 == l = Len(Tr) + 1 /\ UNCHANGED <<res, tid, l>>
TraceNext == TMake \/ TAgain \/ Done0
TraceSpec == TraceInit /\ [][TraceNext]_<<res, tid, l>>
=============================================================================
