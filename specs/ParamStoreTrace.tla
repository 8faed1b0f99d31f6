---------------------------- MODULE ParamStoreTrace ----------------------------
EXTENDS ParamStore, Json
Traces == ndJsonDeserialize("traces.ndjson")
VARIABLES tid, l
Tr == Traces[tid].ev
E == Tr[l]
Chk(what, got, want) == IF got = want THEN TRUE ELSE PrintT(<<"MISMATCH", what, "expected", want, "recorded", got>>) /\ FALSE
IsEvent(e) == l <= Len(Tr) /\ E.op = e /\ l' = l + 1 /\ UNCHANGED tid
TraceInit == tid \in 1..Len(Traces) /\ l = 1 /\ Create(Traces[tid].ps, Traces[tid].N)
Same == UNCHANGED vars
TSetN == IsEvent("setN") /\ SetN(E.n, E.int, E.ok)
TSet == IsEvent("set") /\ SetVal(E.name, E.v, E.r, E.c, E.nd, E.i, E.ok)
TGet == IsEvent("get") /\ Same /\ Chk("get accepted", E.ok, E.i \in 0..N) /\ (E.ok => Chk(<<"get", E.name, E.i>>, E.v, val[E.i + 1][Idx(E.name)]))
TVec == IsEvent("vec") /\ Same /\ Chk("vec accepted", E.ok, E.i \in 0..N) /\ (E.ok => Chk(<<"vec", E.i>>, E.v, StageVec(E.i)))
TFlat == IsEvent("flat") /\ Same /\ Chk("flat", E.v, FlatVec) /\ Chk("N", E.N, N)
(* the expressions at the flattened values are the values *)
TExpr == IsEvent("expr") /\ Same /\ Chk(<<"expression", E.i>>, E.v, val[E.i + 1])
TAll == IsEvent("all") /\ Same /\ Chk("all", E.v, val) /\ Chk("N", E.N, N)
Done0 == l = Len(Tr) + 1 /\ UNCHANGED <<vars, tid, l>>
TraceNext == TSetN \/ TSet \/ TGet \/ TVec \/ TFlat \/ TExpr \/ TAll \/ Done0
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, tid, l>>
=============================================================================
