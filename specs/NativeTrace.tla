----------------------------- MODULE NativeTrace -----------------------------
EXTENDS Native, Json
Traces == ndJsonDeserialize("traces.ndjson")
VARIABLES tid, l
Tr == Traces[tid].ev
E == Tr[l]
IsEvent(e) == l <= Len(Tr) /\ E.op = e /\ l' = l + 1 /\ UNCHANGED tid
TraceInit == tid \in 1..Len(Traces) /\ l = 1 /\ Create(Traces[tid].init)
Same == UNCHANGED natVars
TSet == IsEvent("set") /\ SetStage(E.i, E.f, E.v)
TSparse == IsEvent("sparse") /\ SetSparse(E.i, E.idx, E.v)
TPg == IsEvent("pg") /\ SetGlobal(E.v)
TFlat == IsEvent("flatp") /\ SetFlatP(E.v)
TLook == /\ IsEvent("look") /\ Same
         /\ Chk("cost", E.cost2, Obj2(E.w))
         /\ (\A i \in 0..N(nlp) : LET want == Qp(E.w, i) got == E.qp[i + 1]
                IN \A f \in DOMAIN got : Chk(<<i, f>>, got[f], want[f])) = TRUE
         /\ IF E.res = <<>> THEN TRUE ELSE Chk("residuals", E.res, Residuals(E.w))
TKkt == IsEvent("kkt") /\ Same /\ (\A i \in 0..N(nlp) :
            Chk(<<"optimality conditions", i>>, KktStage(E.w, i, E.mk), TRUE)) = TRUE /\ Chk("cost", E.cost2, Obj2(E.w))
(* ... where the multipliers are not judged: feasible, with the least cost *)
TPoint == IsEvent("point") /\ Same /\ (\A i \in 0..N(nlp) :
            Chk(<<"feasible", i>>, MaxPos(Ineq(E.w, i)) = 0 /\ (i < N(nlp) => MaxAbs(Gap(E.w, i)) = 0), TRUE)) = TRUE
            /\ Chk("cost", E.cost2, Obj2(E.w)) /\ Chk("least cost", E.cost2, E.best)
(* a problem with one solution, w, was answered with a point of other than whole numbers *)
TElse == IsEvent("elsewhere") /\ Same /\ (\A f \in {"x", "u", "sl", "su"} : Chk(<<"the solution", f>>, E.got[f], E.w[f])) = TRUE
TData == /\ IsEvent("data") /\ Same
         /\ (\A i \in 0..N(nlp) : \A f \in DOMAIN E.st[i + 1] : Chk(<<i, f>>, E.st[i + 1][f], st[i + 1][f])) = TRUE
Done0 == l = Len(Tr) + 1 /\ UNCHANGED <<natVars, tid, l>>
TraceNext == TSet \/ TSparse \/ TPg \/ TFlat \/ TLook \/ TKkt \/ TPoint \/ TElse \/ TData \/ Done0
TraceSpec == TraceInit /\ [][TraceNext]_<<natVars, tid, l>>
=============================================================================
