---------------------------- MODULE OcpEvalTrace -----------------------------
EXTENDS OcpEval, Json
Traces == ndJsonDeserialize("traces.ndjson")
VARIABLES tid, l
Tr == Traces[tid].ev
E == Tr[l]
IsEvent(e) == l <= Len(Tr) /\ E.op = e /\ l' = l + 1 /\ UNCHANGED tid
TraceInit == tid \in 1..Len(Traces) /\ l = 1 /\ Create(Traces[tid].init)
Same == UNCHANGED evalVars
PP == IF E.given THEN E.p ELSE P
PPG == IF E.given THEN E.pg ELSE PG
TUpdate == IsEvent("update") /\ Update(E.p, E.pg, E.saved)
TEval == /\ IsEvent("eval") /\ Same /\ LET r == Eval(E.x, E.u, E.step, PP, PPG) IN
            /\ Chk("cost", E.r.cost, r.cost) /\ Chk("noslack", E.r.noslack, r.noslack) /\ Chk("slack", E.r.slack, r.slack)
            /\ Chk("soft", E.r.soft, r.soft) /\ Chk("hard", E.r.hard, r.hard)
TCost == IsEvent("ocpcost") /\ Same /\ Chk("ocpcost", E.v, OcpCost(E.x, E.u, PP, PPG))
TDot == /\ IsEvent("costdot") /\ Same
        /\ Chk("costdot", E.v, CostDot(E.x, E.u, E.p, E.pg))
        /\ Chk("dyn", E.f, EvS(d.dyn.f, Vars(d, E.x, E.u, <<>>, E.p, E.pg)))
        /\ Chk("impl", E.impl, Append(VSub(E.xdot, E.f), 0)) /\ E.pv = d.p
Done0 == l = Len(Tr) + 1 /\ UNCHANGED <<evalVars, tid, l>>
TraceNext == TUpdate \/ TEval \/ TCost \/ TDot \/ Done0
TraceSpec == TraceInit /\ [][TraceNext]_<<evalVars, tid, l>>
=============================================================================
