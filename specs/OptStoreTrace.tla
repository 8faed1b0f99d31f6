--------------------------- MODULE OptStoreTrace ---------------------------
EXTENDS OptStore, Json, TLC
Traces == ndJsonDeserialize("traces.ndjson")
VARIABLES tid, l
Tr == Traces[tid].ev
Rk == Traces[tid].rank
E == Tr[l]
Chk(what, got, want) == IF got = want THEN TRUE ELSE PrintT(<<"MISMATCH", what, "expected", want, "recorded", got>>) /\ FALSE
IsEvent(e) == l <= Len(Tr) /\ E.op = e /\ l' = l + 1 /\ UNCHANGED tid
(* a fresh object has the documented defaults *)
TraceInit == tid \in 1..Len(Traces) /\ l = 1 /\ cls = Traces[tid].cls /\ st = Traces[tid].init
TNew == IsEvent("new") /\ UNCHANGED <<cls, st>>
        /\ (\A i \in 1..Len(Table[cls]) : LET o == Table[cls][i].o IN
             Chk(<<"documented option", o>>, o \in DOMAIN st, TRUE) /\ (o \in DOMAIN st => Chk(<<"default of", o, st[o], "documented", Table[cls][i].d>>, DefaultOk(cls, o, st[o]), TRUE)))
        /\ Chk("reading a fresh object", E.all, Read(Rk, st))
Diff(a, b) == {<<o, a[o], b[o]>> : o \in {q \in DOMAIN a \cap DOMAIN b : a[q] # b[q]}}
TSet == IsEvent("set")
        /\ (LET w == Verdict(cls, E.o, E.v) IN
             (w = "yes" => Chk(<<"accepted", E.o, E.v>>, E.ok, TRUE)) /\ (w = "no" => Chk(<<"accepted", E.o, E.v>>, E.ok, FALSE)))
        /\ Set(E.o, E.v, E.ok, E.all[E.o])
        /\ Chk(<<"options after assigning", E.o, E.v.tok, E.ok, "differences (option, specified, read)">>, Diff(Read(Rk, st'), E.all), {})
GenOk(g) == Rel(g.o) => Chk(<<"handed to the library:", g.o, g.f, E.val[g.f], "specified", Val(g.o, E.N)>>, Handed(g.f, E.val[g.f], Val(g.o, E.N)), TRUE)
StageOk(g, k) == Chk(<<"handed to the library at stage", k - 1, g.o>>, E.stage[k][g.f], E.want[k][g.o])
TGen == IsEvent("gen") /\ UNCHANGED <<cls, st>>
        /\ (\A i \in 1..Len(Gen) : GenOk(Gen[i]))
        /\ (st["integrator_type"] # "'DISCRETE'" => \A i \in 1..Len(GenStage), k \in 1..Len(E.stage) : StageOk(GenStage[i], k))
        /\ \A q \in DOMAIN E.plan : Chk(<<"plan", q>>, E.plan[q], st[q])
(* run-time changes: the value that reaches the library is the value given, a refused call hands over nothing *)
TRun == IsEvent("run") /\ UNCHANGED <<cls, st>>
        /\ (LET w == RunVerdict(E.f, E.v) IN
             (w = "yes" => Chk(<<"run-time option accepted", E.f, E.v>>, E.ok, TRUE)) /\ (w = "no" => Chk(<<"run-time option accepted", E.f, E.v>>, E.ok, FALSE)))
        /\ Chk(<<"handed to the library at run time", E.f>>, E.got, IF E.ok /\ (E.f = "rti_phase" => SolverIn({RTI})) THEN E.tok ELSE "unset")
Done0 == l = Len(Tr) + 1 /\ UNCHANGED <<cls, st, tid, l>>
TraceNext == TNew \/ TSet \/ TGen \/ TRun \/ Done0
TraceSpec == TraceInit /\ [][TraceNext]_<<cls, st, tid, l>>
=============================================================================
