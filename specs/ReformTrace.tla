----------------------------- MODULE ReformTrace -----------------------------
EXTENDS Reform, Json
Traces == ndJsonDeserialize("traces.ndjson")
VARIABLES tid, l
Tr == Traces[tid].ev
E == Tr[l]
TraceInit == tid \in 1..Len(Traces) /\ l = 1 /\ Create(Traces[tid].init.d, Traces[tid].init.none0)
Is(e) == l <= Len(Tr) /\ E.op = e /\ l' = l + 1 /\ UNCHANGED tid
Worked == Chk("raised", E.err, "")
(* an operation that does not apply must be refused *)
Op(name, ok, act) == Is(name) /\ (IF E.err # "" THEN Chk(<<"refused although it applies", E.err>>, TRUE, ~ok) /\ UNCHANGED rvars ELSE Chk(<<"applies", name>>, TRUE, ok) /\ act)
Got(f, x) == IF f \in DOMAIN E THEN E[f] ELSE x
(* records of refused operations carry no arguments: any reason will do *)
Auto(k) == Has(Traces[tid].init.auto, k)
View ==
    /\ Is("view") /\ UNCHANGED rvars /\ Worked
    /\ Chk("values of the parameters", <<E.pval, E.pgval>>, <<pval, pgval>>)
    /\ (\A k \in Kinds: Chk(<<"objective", k>>, E.cost[k], CostAt(k, E.pt))) = TRUE
    /\ (\A k \in Kinds: Chk(<<"feasible", k>>, E.con[k], ConAt(k, E.pt))) = TRUE
    /\ (\A k \in Kinds: IF Auto(k) THEN Chk(<<"type", k>>, E.type[k] \in {"LINEAR_LS", "EXTERNAL"}, TRUE)
                        ELSE Chk(<<"type", k>>, E.type[k], IF k = "0" /\ none0 THEN cost["p"].type ELSE cost[k].type)) = TRUE
    /\ (\A k \in Kinds: IF cost[k].hess = "gn" /\ cost[k].pen = <<>> /\ ~(k = "0" /\ none0) THEN Chk(<<"Hessian", k>>, E.hess[k], GnHess(k, E.pt)) ELSE TRUE) = TRUE
TraceNext ==
    \/ View
    \/ Is("l2") /\ (IF E.err # "" THEN UNCHANGED rvars /\ Chk("refused although it applies", TRUE, ~PenOk(E.k, FALSE)) ELSE Penalty(E.k, E.p, E.lo, E.up, E.w, 0))
    \/ Is("huber") /\ (IF E.err # "" THEN UNCHANGED rvars /\ Chk("refused although it applies", TRUE, ~PenOk(E.k, TRUE)) ELSE Penalty(E.k, E.p, E.lo, E.up, E.w, E.delta))
    \/ Op("conl", ConlOk, ToConl)
    \/ Is("ext") /\ (IF E.err # "" THEN UNCHANGED rvars /\ Chk(<<"refused although it applies", E.err>>, TRUE, ~ExtOk(E.hess)) ELSE ToExternal(E.hess, E.yp, E.wp, E.pv, E.pgv))
    \/ Is("lin") /\ Worked /\ AddLinear(E.C, E.D, E.lg, E.ug)
    \/ Is("feas") /\ (IF E.err # "" THEN UNCHANGED rvars /\ Chk(<<"refused although it applies", E.err>>, TRUE, ~FeasOk(E.keep_x0, E.keep_cost, E.par)) ELSE Feasibility(E.keep_x0, E.keep_cost, E.par))
    \/ Is("bare") /\ (IF E.err # "" THEN UNCHANGED rvars /\ Chk("refused although it applies", TRUE, ~BareOk(E.keep_x0)) ELSE Bare(E.keep_x0))
    \/ Is("copy0") /\ Worked /\ Copy0
    \/ Is("x0e") /\ Worked /\ KeepX0
    \/ Is("detect") /\ Worked /\ Detect(E.k)
    \/ Is("poly") /\ Worked /\ PolyControl(E.deg)
           /\ Chk("value of the polynomial", E.uval, [j \in 1..d.nu |-> SumS([i \in 1..(E.deg + 1) |-> Pow(E.t, i - 1) * E.uc[(i - 1) * d.nu + j]])])
    \/ Is("hor") /\ UNCHANGED rvars /\ Worked /\ Chk("the problem was altered", E.same, TRUE) /\ Chk("two kinds of stages", E.multi, E.nc < d.N)
           /\ (IF E.multi THEN Chk("intervals", E.N, HorN(E.nc, E.nr)) /\ Chk("time steps", E.ts, HorSteps(E.nc, E.nr)) ELSE TRUE)
    \/ Is("hview") /\ UNCHANGED rvars
           /\ (\A k \in DOMAIN E.free: /\ Chk(<<"objective, free", k>>, E.free[k].cost, CostAt(k, E.pt)) /\ Chk(<<"feasible, free", k>>, E.free[k].con, ConAt(k, E.pt))
                                      /\ Chk(<<"dynamics, free", k>>, E.free[k].dyn, F(E.pt))) = TRUE
           /\ (\A k \in DOMAIN E.held: Chk(<<"objective, held", k>>, E.held[k].cost, CostAt(k, E.pt))) = TRUE
           /\ Chk("feasible, held", E.held["p"].con, HeldCon(E.pt)) /\ Chk("feasible at the end", E.held["e"].con, ConAt("e", E.pt))
           /\ Chk("dynamics, held", E.held["p"].dyn, HeldDyn(E.pt))
           /\ Chk("feasible, transition", E.trans.con, TransCon(E.pt)) /\ Chk("state after the transition", E.trans.dyn, E.pt[1] \o E.pt[2])
           /\ Chk("no objective at the transition", E.trans.cost, TRUE)
    \/ l = Len(Tr) + 1 /\ UNCHANGED <<rvars, tid, l>>
TraceSpec == TraceInit /\ [][TraceNext]_<<rvars, tid, l>>
=============================================================================
