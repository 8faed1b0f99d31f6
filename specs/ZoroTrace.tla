------------------------------- MODULE ZoroTrace -------------------------------
EXTENDS Zoro, Json
Traces == ndJsonDeserialize("traces.ndjson")
VARIABLES tid, l, seen
Tr == Traces[tid].ev
E == Tr[l]
(* seen: bounds as they were before, <<>> before the first update *)
TraceInit == tid \in 1..Len(Traces) /\ l = 1 /\ d = Traces[tid].init /\ Create /\ seen = <<>>
Sides == <<"l", "u">>
KindsAt(k) == IF k = d.N THEN TermKinds ELSE IF k = 0 THEN <<"bu", "g">> ELSE PathKinds
Fields(k) == {<<s, q>> : s \in {"l", "u"}, q \in {KindsAt(k)[i] : i \in 1..Len(KindsAt(k))}}
CreateEv == /\ Chk("raised", E.err, "")
            /\ Chk("data_size", E.data_size, DataSize)
            /\ (\A k \in 0..d.N : \A f \in Fields(k) : Chk(<<"bounds at creation", k, f>>, E.bounds[k + 1][f[1] \o f[2]], Zeros(d.n[f[2]]))) = TRUE
            /\ seen' = E.bounds /\ UNCHANGED zvars
LinEv == Linearize([xs |-> E.xs, us |-> E.us, p |-> E.p]) /\ UNCHANGED seen
Outcome(m, Wadd) ==
   LET Pk == Covs(m, E.K, Wadd) IN
   /\ Chk("status", E.status, 0)
   /\ Chk(<<"feedback gains", E.K>>, GainsRight(E.K), TRUE)
   /\ (\A k \in 0..d.N : Chk(<<"covariance of node", k>>, E.P[k + 1], Pk[k + 1])) = TRUE
   /\ (IF E.how = "data" /\ d.outP THEN Chk("covariances in the payload", E.dP, Pk) ELSE TRUE)
   /\ (\A k \in 0..d.N : \A f \in Fields(k) : Chk(<<"tightening", k, f>>, E.bounds[k + 1][f[1] \o f[2]], Bounds(f[1], f[2], E.K, Pk, k))) = TRUE
UpdateEv == CASE E.how = "data" -> /\ Update(E.g) /\ Outcome(mem', E.g.Wa) /\ seen' = E.bounds
              [] E.how = "none" -> /\ UpdateNoData /\ Outcome(mem, <<>>) /\ seen' = E.bounds
              [] E.how = "wrong" -> /\ UpdateRefused /\ Chk("status of a wrong payload", E.status # 0, TRUE) /\ Chk("bounds after a wrong payload", E.bounds, seen) /\ UNCHANGED seen
Step == /\ l <= Len(Tr) /\ l' = l + 1 /\ UNCHANGED tid
        /\ CASE E.op = "create" -> CreateEv [] E.op = "linearize" -> LinEv [] E.op = "update" -> UpdateEv
Done0 == l = Len(Tr) + 1 /\ UNCHANGED <<zvars, tid, l, seen>>
TraceNext == Step \/ Done0
TraceSpec == TraceInit /\ [][TraceNext]_<<zvars, tid, l, seen>>
=============================================================================
