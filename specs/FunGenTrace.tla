----------------------------- MODULE FunGenTrace ------------------------------
EXTENDS FunGen, Json
Traces == ndJsonDeserialize("traces.ndjson")
(* pm: the parameter memory of the wrapper in use *)
VARIABLES tid, l, pm
Tr == Traces[tid].ev
E == Tr[l]
TraceInit == tid \in 1..Len(Traces) /\ l = 1 /\ d = Traces[tid].init /\ pm = <<>>
(* what has to be there is there, under its name, once; more functions than needed do no harm *)
Files == /\ Chk("raised", E.err, "")
         /\ (\A n \in Names : Chk(n, Count(E.names, n), 1)) = TRUE
Call == /\ Chk("raised", E.err, "")
        /\ (IF ("_" \o E.fn) \in Names
            THEN LET f == CHOOSE f \in Funs : f.n = "_" \o E.fn IN
                 LET want == Out(f, E.a, E.out) IN
                    /\ Chk("number of outputs", Len(E.out), Len(want))
                    /\ (\A i \in 1..Len(want) : Chk(<<E.fn, "output", i>>, E.out[i], want[i])) = TRUE
            ELSE TRUE)
CCreate == /\ (IF "np" \in DOMAIN E THEN Chk("number of parameters", E.np, d.n.p) ELSE TRUE)
           /\ pm' = Zeros(d.n.p)
CSet == pm' = E.p
CSparse == pm' = FoldLeft(LAMBDA q, i : [q EXCEPT ![E.idx[i] + 1] = E.v[i]], pm, Range0(1, Len(E.idx)))
CEval == /\ UNCHANGED pm /\ Chk("entries outside of the output", E.touched, 0)
         /\ LET f == CHOOSE f \in Funs : f.n = "_" \o E.fn
                want == Out(f, [E.a EXCEPT !.p = pm], E.out)
            IN (\A i \in 1..Len(want) : E.ign[i] \/ Chk(<<E.fn, "through the wrapper, output", i>>, E.out[i], want[i])) = TRUE
Step == /\ l <= Len(Tr) /\ l' = l + 1 /\ UNCHANGED <<tid, d>>
        /\ CASE E.op = "files" -> Files /\ UNCHANGED pm [] E.op = "call" -> Call /\ UNCHANGED pm
             [] E.op = "ccreate" -> CCreate [] E.op = "cset" -> CSet [] E.op = "csparse" -> CSparse [] E.op = "ceval" -> CEval
Done0 == l = Len(Tr) + 1 /\ UNCHANGED <<d, tid, l, pm>>
TraceNext == Step \/ Done0
TraceSpec == TraceInit /\ [][TraceNext]_<<d, tid, l, pm>>
=============================================================================
