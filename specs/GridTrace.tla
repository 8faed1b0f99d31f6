------------------------------- MODULE GridTrace -------------------------------
EXTENDS Grid, Json
Traces == ndJsonDeserialize("traces.ndjson")
VARIABLES tid, l
Tr == Traces[tid].ev
E == Tr[l]
Light == Traces[tid].light
TraceInit == /\ tid \in 1..Len(Traces) /\ l = 1
             /\ d = Traces[tid].init
             /\ IF Traces[tid].light THEN g = <<>> /\ py = <<>> ELSE Create
(* descriptions without a solver *)
DescribeEv == LET q == E.q ok == GridOk(q) IN
   /\ Chk("accepted", E.ok, ok)
   /\ (IF ok THEN LET w == Grid(q) IN /\ Chk("time steps", E.got.steps, w.steps) /\ Chk("shooting nodes", E.got.nodes, w.nodes)
                                      /\ Chk("cost scaling", E.got.scaling, w.scaling) /\ Chk("horizon", <<E.got.N, E.got.tf>>, <<w.N, w.tf>>)
                                      /\ Chk("step of the integrator", E.got.tsim, w.steps[1])
                                      /\ Chk("integrator steps", E.got.num_steps, [k \in 1..q.N |-> IF Len(E.num_steps) = 1 THEN E.num_steps[1] ELSE E.num_steps[k]])
       ELSE TRUE)
   /\ UNCHANGED gvars
PyIs == Chk("grid of the object", E.py, py')
LookEv ==
  /\ UNCHANGED gvars
  /\ PyIs
  /\ Chk("objective, eightfold", E.cost8, Cost8(E.p))
  /\ (\A k \in 0..g.n :
        LET e == E.qp[k + 1] IN
        /\ Chk(<<"scaling of stage", k>>, e.sc, Sc(k))
        /\ Chk(<<"Hessian of stage, fourfold", k>>, <<e.Q, e.R, e.S>>, <<Hxx(k), Huu(k), Hxu(k)>>)
        /\ Chk(<<"gradient of stage, fourfold", k>>, <<e.q, e.r>>, <<Gx(k, E.p), IF k = g.n THEN 0 ELSE Gu(k, E.p)>>)
        /\ (IF Soft(k) THEN Chk(<<"slack penalties of stage, fourfold", k>>, <<e.zl, e.zu, e.Zl, e.Zu>>, LET q == Pen(k) IN <<Sc(k) * (q.zl + q.Zl * E.p.sl[k + 1]), Sc(k) * (q.zu + q.Zu * E.p.su[k + 1]), Sc(k) * q.Zl, Sc(k) * q.Zu>>)
            ELSE TRUE)
        /\ (IF k < g.n THEN Chk(<<"dynamics of stage", k>>, <<e.A, e.B, e.b>>, <<QA(k), QB(k), Qb(k, E.p)>>) ELSE TRUE)) = TRUE
StepEv == CASE E.op = "steps" -> SetSteps(E.ts)
            [] E.op = "scaling" -> SetScaling(E.k, E.v)
            [] E.op = "W" -> SetW(E.k, E.v)
            [] E.op = "yref" -> SetY(E.k, E.v)
            [] E.op = "reset" -> IF E.values THEN ResetValues ELSE Keep
            [] E.op = "cond" -> Keep
            [] E.op = "created" -> Keep
Step == /\ l <= Len(Tr) /\ l' = l + 1 /\ UNCHANGED tid
        /\ (IF E.op = "describe" THEN DescribeEv ELSE IF E.op = "look" THEN LookEv ELSE StepEv /\ Chk("raised", E.err, "") /\ PyIs)
Done0 == l = Len(Tr) + 1 /\ UNCHANGED <<gvars, tid, l>>
TraceNext == Step \/ Done0
TraceSpec == TraceInit /\ [][TraceNext]_<<gvars, tid, l>>
=============================================================================
