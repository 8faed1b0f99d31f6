--------------------------- MODULE CasadiNlpTrace ---------------------------
EXTENDS CasadiNlp, Json
Traces == ndJsonDeserialize("traces.ndjson")
VARIABLES tid, l
Tr == Traces[tid].ev
E == Tr[l]
IsEvent(e) == l <= Len(Tr) /\ E.op = e /\ l' = l + 1 /\ UNCHANGED tid
TraceInit == tid \in 1..Len(Traces) /\ l = 1 /\ Create(Traces[tid].init)
Same == UNCHANGED nlpVars
StMap(F(_), n) == [r \in 1..n |-> F(r - 1)]
TCreate == /\ IsEvent("create") /\ Same
           /\ E.w0 = w0 /\ E.p = pv /\ E.lbw = lbw /\ E.ubw = ubw /\ E.lbg = lbg /\ E.ubg = ubg
           /\ E.lamx0 = lamx0 /\ E.lamg0 = lamg0
           /\ E.map.x = StMap(PX, d.N + 1) /\ E.map.u = StMap(PU, d.N)
           /\ E.map.sl = StMap(PSL, d.N + 1) /\ E.map.su = StMap(PSU, d.N + 1) /\ E.map.pi = StMap(PPI, d.N)
TEval == /\ IsEvent("eval") /\ Same
         /\ Chk("f2", E.f2, NlpF2(d, E.w, E.p)) /\ Chk("g", E.g, NlpG(d, E.w, E.p))
THess == /\ IsEvent("hess") /\ Same
         /\ Chk("H", E.H, NlpHess2(d, E.w, E.p, E.lamf, E.lamg, E.o))
TSingle == /\ IsEvent("single") /\ Same
           /\ LET w == SingleW(d, E.w, E.p) IN
              /\ Chk("f2", E.f2, NlpF2(d, w, E.p)) /\ Chk("g", E.g, NotDyn(d, NlpG(d, w, E.p)))
              /\ Chk("x", E.x, SingleX(d, E.w, E.p)) /\ Chk("u", E.u, [r \in 1..d.N |-> Sub(w, UinW(d, r - 1))])
           /\ Chk("lbw", E.lbw, NotX(d, lbw)) /\ Chk("ubw", E.ubw, NotX(d, ubw))
           /\ Chk("lbg", E.lbg, NotDyn(d, lbg)) /\ Chk("ubg", E.ubg, NotDyn(d, ubg))
TSet == IsEvent("set") /\ SetGuess(E.i, E.f, E.v)
TTraj == IsEvent("traj") /\ SetTraj(E.tr)
TParam == IsEvent("param") /\ SetParam(E.i, E.f, E.v)
TSparse == IsEvent("sparse") /\ SetParamSparse(E.i, E.idx, E.v)
TBound == IsEvent("bound") /\ SetBound(E.i, E.f, E.v)
TSolve == IsEvent("solve") /\ Solve(E.in, E.sol)
TGet == IsEvent("get") /\ Same /\ Chk(E.f, E.v, Get(E.i, E.f))
TFlat == IsEvent("getflat") /\ Same /\ Chk(E.f, E.v, GetFlat(E.f))
TIt == IsEvent("getit") /\ Same /\ \A f \in {"x", "u", "z", "sl", "su", "pi", "lam"} : E.it[f] = GetTraj(f)
TBGet == IsEvent("bget") /\ Same /\ E.v = BoundOf(E.i, E.f)
TCost == /\ IsEvent("cget") /\ Same
         /\ LET k == Kind(d, E.i) IN
            E.v = CASE E.f = "yref" -> Sub(pv, YinP(d, E.i)) [] E.f = "W" -> d.cost[k].W
                    [] E.f \in {"zl", "zu", "Zl", "Zu"} -> d.slack[k][E.f]
TVal == /\ IsEvent("cval") /\ Same
        /\ Chk("value", E.v, ConstrValue(E.i, sol.w, sol.g)) /\ Chk("mult", E.lam, ConstrValue(E.i, sol.lamx, sol.lamg))
        /\ Chk("cost", E.f, sol.f)
Done0 == l = Len(Tr) + 1 /\ UNCHANGED <<nlpVars, tid, l>>
TraceNext == TCreate \/ TEval \/ TSingle \/ THess \/ TSet \/ TTraj \/ TParam \/ TSparse \/ TBound \/ TSolve \/ TGet \/ TFlat \/ TIt \/ TBGet \/ TCost \/ TVal \/ Done0
TraceSpec == TraceInit /\ [][TraceNext]_<<nlpVars, tid, l>>
=============================================================================
