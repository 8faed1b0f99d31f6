------------------------------ MODULE FleetTrace ------------------------------
EXTENDS Fleet, Json
Traces == ndJsonDeserialize("traces.ndjson")
VARIABLES tid, l
Tr == Traces[tid].ev
E == Tr[l]
Chk(name, got, want) == IF got = want THEN TRUE ELSE PrintT(<<"MISMATCH", name, "expected", want, "recorded", got>>) /\ FALSE
Hd == Traces[tid].init
TraceInit == /\ tid \in 1..Len(Traces) /\ l = 1 /\ sv = <<>> /\ F = <<>> /\ nb = 0
             /\ h = [Traces[tid].init EXCEPT !.xkeys = {Traces[tid].init.xkeys[i] : i \in 1..Len(Traces[tid].init.xkeys)}]
Known1(s, o) == LET K == TLCEval(Key(s)) B == {i \in Known(K) : ~SameAs(F[i], How(s), o)} IN
   IF B = {} THEN TRUE
   ELSE LET e == F[Least(B)] IN
        PrintT(<<"MISMATCH", IF e.how = How(s) THEN "the same call before gave" ELSE <<"one step, computed by", e.how, "and by", How(s)>>,
                 [status |-> e.o.status, stats |-> e.o.stats, differs |-> {k \in DOMAIN o.val : o.val[k] # e.o.val[k]}, fx |-> e.o.fx], "recorded", [status |-> o.status, stats |-> o.stats, fx |-> o.fx]>>) /\ FALSE
(* a preparation leaves the iterate alone *)
Outcome(s, o) == IF IsPrep(s) THEN (\A k \in DOMAIN o.val : Chk(<<"changed by the preparation", k>>, o.val[k], s.val[k])) = TRUE
                 ELSE Known1(s, o) /\ (IF s.kind = "SQP_RTI" /\ o.good THEN Chk("status of a step", o.status, 0) ELSE TRUE)
NewEv == New(E.kind)
SetEv == Set(E.s, E.v)
OptEv == SetOpt(E.s, E.name, E.v)
ResetEv == Reset(E.s, E.r)
SolveEv == Outcome(sv[E.s], E.o) /\ Solve(E.s, E.o)
HoldEv == /\ UNCHANGED fvars /\ Chk("number of objects", Len(E.vals), Len(sv)) /\ Chk("status of the objects", E.st, [s \in 1..Len(sv) |-> sv[s].status])
          /\ (\A s \in 1..Len(sv) : \A k \in DOMAIN E.vals[s] : Chk(<<"value held by object", s, k>>, E.vals[s][k], sv[s].val[k])) = TRUE
(* n = -1: a call that does not say how many *)
Count == IF E.n = -1 THEN nb ELSE E.n
Cur(n) == Chk("size of the batch after the call", E.cur, n)
BSetEv == BatchSet(E.vals) /\ Cur(Len(E.vals))
BGetEv == BatchGet(Count) /\ Chk("number of answers", Len(E.vals), Count) /\ Cur(Count)
          /\ (\A s \in 1..Len(E.vals) : \A k \in DOMAIN E.vals[s] : Chk(<<"read from object", s, k>>, E.vals[s][k], sv[s].val[k])) = TRUE
BResetEv == BatchReset(Count, E.r) /\ Cur(Count)
RECURSIVE AllKnown(_, _)
AllKnown(w, i) == IF i > Len(E.os) THEN TRUE
                  ELSE (LET B == {j \in 1..Len(w.F) : w.F[j].k = Key(w.sv[i]) /\ ~SameAs(w.F[j], How(w.sv[i]), E.os[i])} IN
                        Chk(<<"solve of object in the batch", i, "differs from the same call of", IF B = {} THEN <<>> ELSE w.F[Least(B)].o>>, B, {})) /\ AllKnown(Solved(w, i, E.os[i]), i + 1)
BSolveEv == Chk("number of objects solved", Len(E.os), Count) /\ Cur(Count) /\ Chk("statuses", E.statuses, [i \in 1..Len(E.os) |-> E.os[i].status]) /\ AllKnown([sv |-> sv, F |-> F], 1) /\ BatchSolve(E.os)
(* functions of what objects hold and of a question q *)
AskEv == /\ (\A i \in 1..Len(E.ss) : LET K == TLCEval(Asked(sv[E.ss[i]], E.q)) IN
               (\A j \in 1..Len(F) : F[j].k = K => Chk(<<E.q[1], "of object", E.ss[i]>>, E.a[i], F[j].o)) = TRUE
               /\ (\A j \in 1..(i - 1) : Asked(sv[E.ss[j]], E.q) = K => Chk(<<E.q[1], "of objects", E.ss[j], E.ss[i]>>, E.a[i], E.a[j])) = TRUE) = TRUE
         /\ F' = F \o [i \in 1..Len(E.ss) |-> [k |-> Asked(sv[E.ss[i]], E.q), how |-> "asked", o |-> E.a[i]]] /\ UNCHANGED <<h, sv, nb>>
RefusedEv == UNCHANGED fvars /\ Chk("refused", E.refused, TRUE)
Step == /\ l <= Len(Tr) /\ l' = l + 1 /\ UNCHANGED tid
        /\ CASE E.op = "new" -> NewEv [] E.op = "set" -> SetEv [] E.op = "opt" -> OptEv [] E.op = "reset" -> ResetEv [] E.op = "solve" -> SolveEv
             [] E.op = "hold" -> HoldEv [] E.op = "bset" -> BSetEv [] E.op = "bget" -> BGetEv [] E.op = "breset" -> BResetEv [] E.op = "bsolve" -> BSolveEv
             [] E.op = "ask" -> AskEv [] E.op = "refused" -> RefusedEv [] E.op = "process" -> Process
Done0 == l = Len(Tr) + 1 /\ UNCHANGED <<fvars, tid, l>>
TraceNext == Step \/ Done0
TraceSpec == TraceInit /\ [][TraceNext]_<<fvars, tid, l>>
=============================================================================
