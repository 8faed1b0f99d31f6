-------------------------------- MODULE Fleet ---------------------------------
(* Solver objects of one problem, alone or in a batch.                         *)
(* What an object holds: the values of its iterate and data (val), its options *)
(* (opt), what its memory may carry over from earlier calls (mem), and the     *)
(* point and data of the last preparation (prep).  What a solve returns is a   *)
(* function of that and of nothing else - not of the object, the process,      *)
(* the batch, the number of threads, or what happened before.  The function    *)
(* itself is unknown; F is what has been seen of it.                           *)
(* Values are digests of the bytes they stand for.                             *)
(* h: zero (an iterate of zeros), def (data of the description), opt (options  *)
(*    of the description), fresh (a new object), kinds (of the objects),       *)
(*    carry (the integrators start from the results of the call before).       *)
EXTENDS Integers, Sequences, FiniteSets, TLC
(* nb: number of objects a batch call concerns when it does not say how many: those of the batch call before *)
VARIABLES h, sv, F, nb
fvars == <<h, sv, F, nb>>
NoPrep == <<>>
Fresh(kind) == [kind |-> kind, val |-> h.fresh, opt |-> h.opt, mem |-> <<>>, failed |-> FALSE, prep |-> NoPrep, status |-> 0]
Over(f, g) == [k \in DOMAIN f |-> IF k \in DOMAIN g THEN g[k] ELSE f[k]]
Without(f, S) == [k \in DOMAIN f \ S |-> f[k]]
OptOf(o) == Without(o, {"rti_phase"})
(* the memory matters when a QP may be started from the one before, and after a failure until the object is reset *)
Carries(s) == h.carry \/ s.failed \/ (s.opt["qp_warm_start"] # "0" /\ (s.kind = "SQP_RTI" \/ s.opt["warm_start_first_qp"] = "True"))
MemOf(s) == IF Carries(s) THEN s.mem ELSE <<>>
InitialBounds == {"lbx:0", "ubx:0"}
Phase(s) == IF s.kind = "SQP_RTI" THEN s.opt["rti_phase"] ELSE "0"
(* one step of the method: the same whether done at once or prepared and completed, with the initial state given before or in between *)
StepKey(s) == [c |-> "step", val |-> s.val, opt |-> OptOf(s.opt), mem |-> MemOf(s)]
Completes(s) == s.prep # NoPrep /\ s.prep[1].opt = OptOf(s.opt) /\ s.prep[1].mem = MemOf(s)
                /\ Without(s.prep[1].val, InitialBounds) = Without(s.val, InitialBounds)
FeedbackKey(s) == IF Completes(s) THEN StepKey(s) ELSE [c |-> "feedback", val |-> s.val, opt |-> OptOf(s.opt), mem |-> <<s.mem, s.prep>>]
Key(s) == IF Phase(s) = "2" THEN FeedbackKey(s) ELSE StepKey(s)
How(s) == IF s.kind = "SQP_RTI" THEN (IF Phase(s) = "2" THEN "feedback" ELSE "at once") ELSE s.kind
Known(k) == {i \in 1..Len(F) : F[i].k = k}
Near(a, b, tol) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : LET q == a[i] - b[i] IN (IF q < 0 THEN -q ELSE q) <= tol
(* o: [status, val, stats, fx, good] ; fx: the new iterate in fixed point, meaningful when good *)
(* computed in the same way: the same up to rounding; in different ways: up to the tolerance of the QP *)
SameAs(e, how, o) == IF e.how = how THEN e.o.status = o.status /\ (e.o.val = o.val \/ ((e.o.good /\ o.good) => (e.o.stats[1] = o.stats[1] /\ Near(e.o.fx, o.fx, 2))))
                     ELSE (e.o.good /\ o.good) => Near(e.o.fx, o.fx, 2 + h.tol)
Agrees(s, o) == LET K == Key(s) IN \A i \in Known(K) : SameAs(F[i], How(s), o)
Least(S) == CHOOSE i \in S : \A j \in S : i <= j
IsPrep(s) == Phase(s) = "1"
After(s, o, i) == [s EXCEPT !.val = Over(s.val, o.val), !.mem = <<i>>, !.status = o.status, !.failed = @ \/ o.status \in {1, 4, 6}]
(* objects and table after a solve of object s with outcome o *)
Solved(w, s, o) ==
   IF IsPrep(w.sv[s]) THEN [w EXCEPT !.sv[s] = [w.sv[s] EXCEPT !.prep = <<[val |-> w.sv[s].val, opt |-> OptOf(w.sv[s].opt), mem |-> MemOf(w.sv[s])]>>, !.status = o.status]]
   ELSE LET K == Key(w.sv[s]) S == {i \in 1..Len(w.F) : w.F[i].k = K} G == {i \in S : w.F[i].how = How(w.sv[s])} IN
        [sv |-> [w.sv EXCEPT ![s] = After(@, o, IF S # {} THEN Least(S) ELSE Len(w.F) + 1)],
         F |-> IF G # {} THEN w.F ELSE Append(w.F, [k |-> K, how |-> How(w.sv[s]), o |-> o])]
Solve(s, o) == LET w == Solved([sv |-> sv, F |-> F], s, o) IN sv' = w.sv /\ F' = w.F /\ UNCHANGED <<h, nb>>
Set(s, vals) == sv' = [sv EXCEPT ![s].val = Over(@, vals)] /\ UNCHANGED <<h, F, nb>>
SetOpt(s, name, v) == sv' = [sv EXCEPT ![s].opt[name] = v] /\ UNCHANGED <<h, F, nb>>
(* after a reset; r: which parts.  rti_phase belongs to the call *)
ResetOf(s, r) ==
   LET a == Over(s.val, h.zero)
       b == IF r.num THEN Over(a, h.def) ELSE a
       c == IF r.x0 THEN [k \in DOMAIN b |-> IF k \in h.xkeys THEN b["lbx:0"] ELSE b[k]] ELSE b
   IN [s EXCEPT !.val = c, !.opt = IF r.opt THEN Over(@, Without(h.opt, {"rti_phase"})) ELSE @,
                !.mem = IF r.qp THEN <<>> ELSE <<-1>> \o @, !.failed = ~r.qp /\ @, !.prep = NoPrep]
Reset(s, r) == sv' = [sv EXCEPT ![s] = ResetOf(@, r)] /\ UNCHANGED <<h, F, nb>>
New(kind) == sv' = Append(sv, Fresh(kind)) /\ nb' = Len(sv) + 1 /\ UNCHANGED <<h, F>>
(* a batch call on the first n objects, where objects may have to be made first *)
Grown(n) == IF n <= Len(sv) THEN sv ELSE [i \in 1..n |-> IF i <= Len(sv) THEN sv[i] ELSE Fresh(sv[1].kind)]
BatchSet(vals) == sv' = (LET g == Grown(Len(vals)) IN [i \in 1..Len(g) |-> IF i <= Len(vals) THEN [g[i] EXCEPT !.val = Over(@, vals[i])] ELSE g[i]]) /\ nb' = Len(vals) /\ UNCHANGED <<h, F>>
BatchReset(n, r) == sv' = (LET g == Grown(n) IN [i \in 1..Len(g) |-> IF i <= n THEN ResetOf(g[i], r) ELSE g[i]]) /\ nb' = n /\ UNCHANGED <<h, F>>
BatchGet(n) == nb' = n /\ UNCHANGED <<h, sv, F>>
RECURSIVE SolvedUpTo(_, _, _)
SolvedUpTo(w, os, i) == IF i > Len(os) THEN w ELSE SolvedUpTo(Solved(w, i, os[i]), os, i + 1)
BatchSolve(os) == LET w == SolvedUpTo([sv |-> sv, F |-> F], os, 1) IN sv' = w.sv /\ F' = w.F /\ nb' = Len(os) /\ UNCHANGED h
(* another process: no object, the same function *)
Process == sv' = <<>> /\ nb' = 0 /\ UNCHANGED <<h, F>>
(* derivatives of a solution, simulations: further functions of what is held and asked; seen values are in F as well *)
Asked(s, q) == [c |-> q, val |-> s.val, opt |-> OptOf(s.opt), mem |-> <<>>]
=============================================================================
