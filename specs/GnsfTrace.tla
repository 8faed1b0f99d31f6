------------------------------- MODULE GnsfTrace -------------------------------
EXTENDS Gnsf, Json
Traces == ndJsonDeserialize("traces.ndjson")
VARIABLES tid, l
Tr == Traces[tid].ev
E == Tr[l]
TraceInit == tid \in 1..Len(Traces) /\ l = 1 /\ m = Traces[tid].init /\ s = <<>>
DetectEv == /\ Chk("raised", E.err, "") /\ s' = E.s /\ UNCHANGED m
Near(a, b, tol) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : AbsI(a[i] - b[i]) <= tol
PointsEv == /\ UNCHANGED gnvars
            /\ Chk("shapes and permutations", ShapesOk, TRUE)
            /\ (\A k \in 1..Len(E.pts) : LET q == E.pts[k] IN /\ Chk("argument y of phi", E.y[k], YVal(q)) /\ Chk("argument uhat of phi", E.uhat[k], UVal(q))) = TRUE
            /\ (LET res == TLCEval([k \in 1..Len(E.pts) |-> Res(E.pts[k], E.phi[k], E.flo[k])])
                    f == TLCEval([k \in 1..Len(E.pts) |-> FVal(E.pts[k])]) IN
                IF SameEquations(res, f) THEN TRUE ELSE Chk("equations", res, f))
            /\ Chk("invertible blocks", BlocksOk, TRUE)
            /\ Chk("flags", FlagsOk(E.flo), TRUE)
(* generated integrators on the original and on the structured model *)
SimEv == /\ UNCHANGED gnvars
         /\ Chk("status", E.status, <<0, 0>>)
         /\ (\A f \in {"x", "Sf", "Sa", "z", "Sz"} :
               LET tol == E.tol + (IF f = "z" THEN 20 * E.zerr ELSE IF f = "Sz" THEN 20 * (E.zerr + E.Szerr) ELSE 0) IN
               IF Near(E.gnsf[f], E.irk[f], tol) THEN TRUE ELSE Chk(f, E.gnsf[f], E.irk[f])) = TRUE
Step == /\ l <= Len(Tr) /\ l' = l + 1 /\ UNCHANGED tid
        /\ CASE E.op = "detect" -> DetectEv [] E.op = "points" -> PointsEv [] E.op = "sim" -> SimEv
Done0 == l = Len(Tr) + 1 /\ UNCHANGED <<gnvars, tid, l>>
TraceNext == Step \/ Done0
TraceSpec == TraceInit /\ [][TraceNext]_<<gnvars, tid, l>>
=============================================================================
