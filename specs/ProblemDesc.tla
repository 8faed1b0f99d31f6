---------------------------- MODULE ProblemDesc ----------------------------
(* What a problem description must satisfy (Bad: the rules it breaks; a consistent description breaks none) and  *)
(* what making it consistent adds to it (Complete). A description D records the lengths of the model's symbols   *)
(* and expressions (-1: not given), every array as shape and integer data (shape <<-1>>: None), and the options. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
NONINT == -888887
INFB == 1000000000
Stg == {"_0", "", "_e"}
Soft == {"bx", "bu", "bx_e", "g", "g_e", "h_0", "h", "h_e", "phi_0", "phi", "phi_e"}
PathSoft == {"bx", "bu", "g", "h", "phi"}
Pen == {"Zl", "Zu", "zl", "zu"}
Mats == {"C", "D", "C_e", "W_0", "W", "W_e", "Vx_0", "Vx", "Vx_e", "Vu_0", "Vu", "Vz_0", "Vz"}
R(name, ok) == IF ok THEN {} ELSE {name}
Range0(n) == 0..(n - 1)
Prod(s) == FoldSeq(LAMBDA a, b : a * b, 1, s)
Sum(s) == FoldSeq(LAMBDA a, b : a + b, 0, s)
Distinct(s) == \A i, j \in 1..Len(s) : s[i] = s[j] => i = j
None(D, f) == D.A[f].s = <<-1>>
(* ---- selection matrices: J has one 1 per row and selects the variables; for slacks one 1 per column, at most one per row *)
ByJ(D, f) == f \in DOMAIN D.J
IsSlackIdx(f) == \E k \in Soft : f = "idxs" \o k
Ones(J, i) == {j \in 1..Len(J[i]) : J[i][j] # 0}
Jok(D, f) == LET J == D.J[f]
                 n == IF J = <<>> THEN 0 ELSE Len(J[1]) IN
             /\ \A i \in 1..Len(J), j \in 1..n : J[i][j] \in {0, 1}
             /\ IF IsSlackIdx(f) THEN (\A i \in 1..Len(J) : Cardinality(Ones(J, i)) <= 1) /\ (\A j \in 1..n : Cardinality({i \in 1..Len(J) : J[i][j] # 0}) = 1)
                ELSE \A i \in 1..Len(J) : Cardinality(Ones(J, i)) = 1
Jidx(D, f) == LET J == D.J[f] IN
              IF IsSlackIdx(f) THEN [j \in 1..Len(J[1]) |-> (CHOOSE i \in 1..Len(J) : J[i][j] # 0) - 1]
              ELSE [i \in 1..Len(J) |-> (CHOOSE j \in 1..Len(J[i]) : J[i][j] # 0) - 1]
(* ---- arrays *)
Dat(D, f) == IF ByJ(D, f) THEN (IF Jok(D, f) THEN Jidx(D, f) ELSE <<>>) ELSE D.A[f].d
Ln(D, f) == IF None(D, f) THEN -1 ELSE Len(Dat(D, f))
Rows(D, f) == IF Len(D.A[f].s) >= 1 THEN D.A[f].s[1] ELSE 1
Cols(D, f) == IF Len(D.A[f].s) >= 2 THEN D.A[f].s[2] ELSE 1
ShapeOk(D, f) == \/ None(D, f)
                 \/ ByJ(D, f)
                 \/ IF f \in Mats THEN Len(D.A[f].s) = 2 ELSE Len(D.A[f].s) = 1 \/ (Len(D.A[f].s) = 2 /\ 1 \in {D.A[f].s[1], D.A[f].s[2]})
Val(D, f) == IF None(D, f) \/ f \in Mats THEN D.A[f] ELSE [s |-> <<Len(Dat(D, f))>>, d |-> Dat(D, f)]
Ev(D, e) == IF D.E[e] < 0 THEN 0 ELSE D.E[e]
Zeros(n) == [s |-> <<n>>, d |-> [i \in 1..n |-> 0]]
(* ---- weights: square, symmetric, positive definite or diagonal with nonnegative entries *)
Weight(D, f) ==
  LET n == Rows(D, f)
      w(i, j) == D.A[f].d[(i - 1) * n + j]
      Det2 == w(1, 1) * w(2, 2) - w(1, 2) * w(2, 1)
      Det3 == w(1, 1) * (w(2, 2) * w(3, 3) - w(2, 3) * w(3, 2)) - w(1, 2) * (w(2, 1) * w(3, 3) - w(2, 3) * w(3, 1)) + w(1, 3) * (w(2, 1) * w(3, 2) - w(2, 2) * w(3, 1))
  IN /\ ~None(D, f) /\ Len(D.A[f].s) = 2 /\ Cols(D, f) = n
     /\ \A i, j \in 1..n : w(i, j) = w(j, i)
     /\ \/ (\A i, j \in 1..n : i # j => w(i, j) = 0) /\ (\A i \in 1..n : w(i, i) >= 0)
        \/ (n >= 1 => w(1, 1) > 0) /\ (n >= 2 => Det2 > 0) /\ (n >= 3 => Det3 > 0)
-----------------------------------------------------------------------------
N(D) == D.o.N
StgOn(D) == IF N(D) = 0 THEN {"_e"} ELSE Stg
(* the cost of the initial stage is the path cost if none is given *)
Ct(D, s) == IF s = "_0" /\ D.ct["_0"] = "None" THEN D.ct[""] ELSE D.ct[s]
Src(D, s) == IF s = "_0" /\ D.ct["_0"] = "None" THEN "" ELSE s
CostNy(D, s) == LET q == Src(D, s) IN
  CASE Ct(D, s) \in {"LINEAR_LS", "NONLINEAR_LS"} -> Rows(D, "W" \o q)
  [] Ct(D, s) = "CONVEX_OVER_NONLINEAR" -> Ev(D, "y" \o q)
  [] OTHER -> 0
BadCost(D, s) ==
  LET q == Src(D, s)
      t == Ct(D, s)
      ny == CostNy(D, s)
      nx == D.m.nx
      ch == D.chess[CASE s = "_0" -> 1 [] s = "" -> 2 [] OTHER -> 3]
      chq == D.chess[CASE q = "_0" -> 1 [] q = "" -> 2 [] OTHER -> 3]
  IN CASE t = "LINEAR_LS" ->
            R("W" \o s, Weight(D, "W" \o q)) \cup R("Vx rows" \o s, ~None(D, "Vx" \o q) /\ Rows(D, "Vx" \o q) = ny)
            \cup R("Vx cols" \o s, ny # 0 => Cols(D, "Vx" \o q) = nx) \cup R("yref" \o s, Ln(D, "yref" \o q) = ny)
            \cup (IF s = "_e" THEN {} ELSE
                  R("Vu rows" \o s, ~None(D, "Vu" \o q) /\ Rows(D, "Vu" \o q) = ny) \cup R("Vu cols" \o s, ny # 0 => Cols(D, "Vu" \o q) = D.m.nu)
                  \cup R("Vz" \o s, D.m.nz # 0 => ~None(D, "Vz" \o q) /\ Rows(D, "Vz" \o q) = ny /\ (ny # 0 => Cols(D, "Vz" \o q) = D.m.nz)))
     [] t = "NONLINEAR_LS" -> R("W" \o s, Weight(D, "W" \o q)) \cup R("y" \o s, Ev(D, "y" \o q) = ny) \cup R("yref" \o s, Ln(D, "yref" \o q) = ny)
     [] t = "CONVEX_OVER_NONLINEAR" ->
            R("y" \o s, ny > 0) \cup R("r in psi" \o s, Ev(D, "rin" \o q) = ny) \cup R("psi" \o s, Ev(D, "psi" \o q) = 1) \cup R("yref" \o s, Ln(D, "yref" \o q) = ny)
            \cup R("hessian for convex over nonlinear" \o s, D.o.hessian_approx = "GAUSS_NEWTON" \/ D.o.exact_hess_cost = 0)
     [] t = "EXTERNAL" ->
            R("external cost" \o s, Ev(D, "ext" \o q) = 1)
            \cup R("custom hessian" \o s, chq[1] >= 0 => chq = IF s = "_e" THEN <<nx, nx>> ELSE <<nx + D.m.nu, nx + D.m.nu>>)
     [] OTHER -> {"cost type" \o s}
-----------------------------------------------------------------------------
IdxOk(D, f, n) == \A i \in 1..Len(Dat(D, f)) : Dat(D, f)[i] # NONINT /\ Dat(D, f)[i] >= 0 /\ Dat(D, f)[i] < n
BadBounds(D, k, n) == LET q == Ln(D, "idx" \o k) IN
  R("bounds " \o k, Ln(D, "l" \o k) = q /\ Ln(D, "u" \o k) = q) \cup R("index " \o k, IdxOk(D, "idx" \o k, n))
Ng(D, s) == Ln(D, IF s = "_e" THEN "lg_e" ELSE "lg")
Count(D, k) == CASE k = "bx" -> Ln(D, "idxbx") [] k = "bu" -> Ln(D, "idxbu") [] k = "bx_e" -> Ln(D, "idxbx_e") [] k = "g" -> Ng(D, "") [] k = "g_e" -> Ng(D, "_e") [] OTHER -> Ev(D, k)
BadConstraints(D, s) ==
  LET nx == D.m.nx
      g == IF s = "_e" THEN "_e" ELSE "" IN
  (IF s = "_0" THEN
     BadBounds(D, "bx_0", nx) \cup R("x0", D.x0 >= 0 => D.x0 = nx) \cup R("index bxe_0", IdxOk(D, "idxbxe_0", Ln(D, "idxbx_0")))
   ELSE BadBounds(D, "bx" \o s, nx)
        \cup (IF s = "" THEN BadBounds(D, "bu", D.m.nu) ELSE {})
        \cup R("g" \o s, Ln(D, "ug" \o g) = Ng(D, s) /\ Rows(D, "C" \o g) = Ng(D, s) /\ (s = "" => Rows(D, "D") = Ng(D, s)))
        \cup R("C cols" \o s, Ng(D, s) > 0 => Cols(D, "C" \o g) = nx)
        \cup (IF s = "" THEN R("D cols", Ng(D, s) > 0 => Cols(D, "D") = D.m.nu) ELSE {}))
  \cup R("h" \o s, Ln(D, "lh" \o s) = Ev(D, "h" \o s) /\ Ln(D, "uh" \o s) = Ev(D, "h" \o s))
  \cup R("phi" \o s, Ln(D, "lphi" \o s) = Ev(D, "phi" \o s) /\ Ln(D, "uphi" \o s) = Ev(D, "phi" \o s))
  \cup R("r" \o s, Ev(D, "phi" \o s) > 0 => Ev(D, "r" \o s) > 0)
-----------------------------------------------------------------------------
Rev(D, s) == Ln(D, "idxs_rev" \o s) > 0
NiRev(D, s) == (IF s = "_e" THEN 0 ELSE Ln(D, "idxbu")) + Ln(D, "idxbx" \o s) + Ng(D, s) + Ev(D, "h" \o s) + Ev(D, "phi" \o s)
MaxOf(s) == FoldSeq(LAMBDA a, b : IF a > b THEN a ELSE b, -1, s)
Nsk(D, k) == Ln(D, "idxs" \o k)
Ns(D, s) == IF Rev(D, s) THEN MaxOf(Dat(D, "idxs_rev" \o s)) + 1
            ELSE CASE s = "_0" -> Nsk(D, "bu") + Nsk(D, "g") + Nsk(D, "h_0") + Nsk(D, "phi_0")
                   [] s = "" -> Nsk(D, "bx") + Nsk(D, "bu") + Nsk(D, "g") + Nsk(D, "h") + Nsk(D, "phi")
                   [] OTHER -> Nsk(D, "bx_e") + Nsk(D, "g_e") + Nsk(D, "h_e") + Nsk(D, "phi_e")
SlackKinds(s) == CASE s = "_0" -> {"h_0", "phi_0"} [] s = "" -> PathSoft [] OTHER -> {"bx_e", "g_e", "h_e", "phi_e"}
BndOk(D, f, n) == Ln(D, f) \in {0, n}
PenNone(D) == \A q \in Pen : None(D, q \o "_0")
BadSlacks(D, s) ==
  LET ns == Ns(D, s) IN
  (IF Rev(D, s) THEN
     R("idxs_rev length" \o s, Ln(D, "idxs_rev" \o s) = NiRev(D, s))
     \cup R("idxs_rev range" \o s, \A i \in 1..Ln(D, "idxs_rev" \o s) : Dat(D, "idxs_rev" \o s)[i] # NONINT /\ Dat(D, "idxs_rev" \o s)[i] >= -1 /\ Dat(D, "idxs_rev" \o s)[i] < NiRev(D, s))
     \cup R("idxs_rev gap" \o s, \A q \in Range0(ns) : \E i \in 1..Ln(D, "idxs_rev" \o s) : Dat(D, "idxs_rev" \o s)[i] = q)
     \cup R("slack bounds" \o s, BndOk(D, "ls" \o s, ns) /\ BndOk(D, "us" \o s, ns))
     \cup R("idxs_rev with this QP solver", D.o.qp_solver \in {"PARTIAL_CONDENSING_HPIPM", "FULL_CONDENSING_HPIPM"})
   ELSE UNION {R("slack index " \o k, IdxOk(D, "idxs" \o k, Count(D, k)) /\ Distinct(Dat(D, "idxs" \o k)))
               \cup R("slack bounds " \o k, BndOk(D, "ls" \o k, Nsk(D, k)) /\ BndOk(D, "us" \o k, Nsk(D, k))) : k \in SlackKinds(s)})
  \cup (IF s = "_0" /\ ~Rev(D, s) /\ PenNone(D) THEN R("no penalties for the initial stage", ns \in {0, Ns(D, "")})
        ELSE R("penalties" \o s, \A q \in Pen : Ln(D, q \o s) = ns))
BadMix(D) == R("idxs_rev mixed", (Rev(D, "_0") \/ Rev(D, "")) => \A k \in {"bx", "bu", "g", "h_0", "h", "phi_0", "phi"} : Nsk(D, k) = 0)
-----------------------------------------------------------------------------
CondN(D) == IF D.o.cond_N < 0 THEN N(D) ELSE D.o.cond_N
Hpipm(D) == D.o.qp_solver \in {"PARTIAL_CONDENSING_HPIPM", "FULL_CONDENSING_HPIPM"}
Ts(D) == IF N(D) = 0 THEN <<>>
         ELSE IF D.o.ts # <<>> THEN D.o.ts
         ELSE IF D.o.nodes # <<>> THEN [i \in 1..(Len(D.o.nodes) - 1) |-> D.o.nodes[i + 1] - D.o.nodes[i]]
         ELSE [i \in 1..N(D) |-> D.o.tf \div N(D)]
Nodes(D) == [i \in 1..(Len(Ts(D)) + 1) |-> Sum(SubSeq(Ts(D), 1, i - 1))]
Cts(D) == {Ct(D, s) : s \in StgOn(D)}
BoundFields(D) == {f \in DOMAIN D.A : \E b \in {"bx", "h", "phi", "g"} : \E s \in StgOn(D) : f \in {"l" \o b \o s, "u" \o b \o s}} \cup (IF N(D) > 0 THEN {"lbu", "ubu"} ELSE {})
Unbounded(D) == \E f \in BoundFields(D) : \E i \in 1..Len(Dat(D, f)) : Dat(D, f)[i] \in {INFB, -INFB}
Sens(D, name, qp) ==
  R(name \o " without p_global", D.m.npg > 0) \cup R(name \o " cost type", Cts(D) \subseteq {"EXTERNAL", "LINEAR_LS"})
  \cup R(name \o " integrator", N(D) > 0 => D.o.integrator_type = "DISCRETE") \cup (IF qp THEN R(name \o " QP solver", Hpipm(D)) ELSE {})
NphiAll(D, s) == Ev(D, "phi" \o s)
BadOptions(D) ==
  R("tf", N(D) > 0 => (IF D.o.ts = <<>> /\ D.o.nodes = <<>> THEN TRUE ELSE Sum(Ts(D)) = D.o.tf))
  \cup R("number of time steps", Len(Ts(D)) = N(D))
  \cup R("cost scaling", D.o.scaling # <<>> => Len(D.o.scaling) = N(D) + 1)
  \cup R("cond_N", CondN(D) <= N(D)) \cup R("block sizes", D.o.block # <<>> => Sum(D.o.block) = N(D) /\ Len(D.o.block) = CondN(D) + 1)
  \cup R("fixed_hess", D.o.fixed_hess = 1 => D.o.hessian_approx # "EXACT" /\ Cts(D) = {"LINEAR_LS"})
  \cup R("DDP", D.o.nlp_solver_type = "DDP" => /\ N(D) > 0 /\ D.o.qp_solver = "PARTIAL_CONDENSING_HPIPM" /\ CondN(D) = N(D)
                                               /\ \A k \in {"bx", "bu", "g", "h", "phi", "bx_e", "g_e", "h_e", "phi_e", "h_0", "phi_0"} : Count(D, k) = 0)
  \cup R("funnel", D.o.globalization = "FUNNEL_L1PEN_LINESEARCH" => D.o.nlp_solver_type \in {"SQP", "SQP_WITH_FEASIBLE_QP"})
  \cup R("QP tolerance strategy", D.o.adaptive_tol = 1 => D.o.nlp_solver_type # "SQP_RTI")
  \cup R("QP scaling", D.o.qpscaling = 1 => D.o.nlp_solver_type # "SQP_RTI")
  \cup R("AS-RTI", D.o.as_rti_level \in {1, 2} => Cts(D) \cap {"LINEAR_LS", "NONLINEAR_LS"} = {})
  \cup R("Anderson", D.o.anderson = 1 => D.o.nlp_solver_type # "DDP" /\ D.o.globalization = "FIXED_STEP")
  \cup R("warm start from NLP", D.o.warm_nlp = 1 => D.o.qp_solver = "PARTIAL_CONDENSING_HPIPM" /\ CondN(D) = N(D))
  \cup (IF D.o.sens_sol = 1 THEN Sens(D, "solution sensitivities", TRUE) ELSE {}) \cup (IF D.o.sens_val = 1 THEN Sens(D, "value sensitivities", FALSE) ELSE {})
  \cup R("N", D.o.dims_N >= 0 => D.o.dims_N = N(D)) \cup R("tau_min", D.o.tau_min = 1 => Hpipm(D))
  \cup R("num_steps", N(D) > 0 => D.o.nsteps_arr \in {0, 1, N(D)})
  \cup R("cost integration", D.o.cost_discretization = "INTEGRATOR" /\ N(D) > 0 => {Ct(D, "_0"), Ct(D, "")} \subseteq {"NONLINEAR_LS", "CONVEX_OVER_NONLINEAR"})
  \cup R("one-sided constraints", Unbounded(D) => Hpipm(D))
BadModel(D) ==
  LET m == D.m IN
  R("xdot", m.xdot >= 0 => m.xdot = m.nx) \cup R("f_expl", m.fexpl >= 0 => m.fexpl = m.nx) \cup R("f_impl", m.fimpl >= 0 => m.fimpl = m.nx + m.nz)
  \cup R("disc_dyn", m.disc >= 0 /\ N(D) > 1 => m.disc = m.nx)
  \cup R("p", D.pv = m.np) \cup R("p_global", D.pgv = m.npg)
  \cup R("integrator", N(D) > 0 => CASE D.o.integrator_type = "ERK" -> m.fexpl > 0 [] D.o.integrator_type = "DISCRETE" -> m.disc > 0 [] OTHER -> m.fimpl > 0)
  \cup R("terminal expression depends on u", \A i \in 1..Len(D.edep) : D.E[D.edep[i]] <= 0)
BadShape(D) == UNION {R("shape of " \o f, ShapeOk(D, f)) : f \in DOMAIN D.A}
               \cup UNION {R("matrix for " \o f, Jok(D, f)) : f \in DOMAIN D.J \ {"none"}}
Bad(D) == IF BadShape(D) # {} THEN BadShape(D)
          ELSE BadModel(D) \cup BadOptions(D) \cup UNION {BadCost(D, s) \cup BadConstraints(D, s) \cup BadSlacks(D, s) : s \in StgOn(D)} \cup (IF N(D) > 0 THEN BadMix(D) ELSE {})
(* descriptions on which the documentation is silent *)
Gray(D) ==
  \/ \E f \in {"idxbx_0", "idxbxe_0", "idxbx", "idxbu", "idxbx_e"} : ~Distinct(Dat(D, f))
  \/ D.m.disc >= 0 /\ D.m.disc # D.m.nx /\ N(D) <= 1
  \/ Rev(D, "_0") /\ PenNone(D)
  \/ D.o.ts # <<>> /\ D.o.nodes # <<>> /\ D.o.nodes # Nodes(D)
  \/ N(D) = 0 /\ (D.x0 >= 0 \/ \E f \in {"idxs_rev", "idxs_rev_0"} : Ln(D, f) > 0)
  \/ \E i \in 1..Len(Ts(D)) : Ts(D)[i] <= 0
  \/ Ts(D) = <<>> /\ N(D) > 0
  \/ N(D) > 0 /\ D.o.ts = <<>> /\ D.o.nodes = <<>> /\ (D.o.tf <= 0 \/ D.o.tf % N(D) # 0)
-----------------------------------------------------------------------------
Dims(D) ==
  LET on(v) == IF N(D) > 0 THEN v ELSE 0
      m == D.m
      nsk(k) == IF Rev(D, CASE k \in {"h_0", "phi_0"} -> "_0" [] k \in PathSoft -> "" [] OTHER -> "_e") THEN 0 ELSE IF k \in {"bx_e", "g_e", "h_e", "phi_e"} THEN Nsk(D, k) ELSE on(Nsk(D, k))
      nr(s) == IF Ev(D, "phi" \o s) > 0 THEN Ev(D, "r" \o s) ELSE 0
  IN [nx |-> m.nx, nu |-> m.nu, nz |-> m.nz, np |-> m.np, np_global |-> m.npg, N |-> N(D), nx_next |-> IF m.disc >= 0 THEN m.disc ELSE m.nx,
      ny_0 |-> on(CostNy(D, "_0")), ny |-> on(CostNy(D, "")), ny_e |-> CostNy(D, "_e"),
      nbx_0 |-> on(Ln(D, "idxbx_0")), nbxe_0 |-> on(Ln(D, "idxbxe_0")), nbx |-> on(Ln(D, "idxbx")), nbu |-> on(Ln(D, "idxbu")), nbx_e |-> Ln(D, "idxbx_e"),
      ng |-> on(Ng(D, "")), ng_e |-> Ng(D, "_e"), nh_0 |-> on(Ev(D, "h_0")), nh |-> on(Ev(D, "h")), nh_e |-> Ev(D, "h_e"),
      nphi_0 |-> on(Ev(D, "phi_0")), nphi |-> on(Ev(D, "phi")), nphi_e |-> Ev(D, "phi_e"), nr_0 |-> on(nr("_0")), nr |-> on(nr("")), nr_e |-> nr("_e"),
      nsbx |-> nsk("bx"), nsbu |-> nsk("bu"), nsbx_e |-> nsk("bx_e"), nsg |-> nsk("g"), nsg_e |-> nsk("g_e"), nsh_0 |-> nsk("h_0"), nsh |-> nsk("h"), nsh_e |-> nsk("h_e"),
      nsphi_0 |-> nsk("phi_0"), nsphi |-> nsk("phi"), nsphi_e |-> nsk("phi_e"), ns_0 |-> on(Ns(D, "_0")), ns |-> on(Ns(D, "")), ns_e |-> Ns(D, "_e")]
FillKind(D, f) == {k \in Soft : f \in {"ls" \o k, "us" \o k} /\ Ln(D, f) = 0
                                /\ LET s == CASE k \in {"h_0", "phi_0"} -> "_0" [] k \in PathSoft -> "" [] OTHER -> "_e" IN s \in StgOn(D) /\ ~Rev(D, s)}
FillRev(D, f) == {s \in StgOn(D) : f \in {"ls" \o s, "us" \o s} /\ Rev(D, s) /\ Ln(D, f) = 0}
CompleteA(D, f) ==
  IF FillKind(D, f) # {} THEN Zeros(Nsk(D, CHOOSE k \in FillKind(D, f) : TRUE))
  ELSE IF FillRev(D, f) # {} THEN Zeros(Ns(D, CHOOSE s \in FillRev(D, f) : TRUE))
  ELSE IF N(D) > 0 /\ D.ct["_0"] = "None" /\ f \in {"W_0", "Vx_0", "Vu_0", "Vz_0", "yref_0"}
       THEN Val(D, CASE f = "W_0" -> "W" [] f = "Vx_0" -> "Vx" [] f = "Vu_0" -> "Vu" [] f = "Vz_0" -> "Vz" [] OTHER -> "yref")
  ELSE IF N(D) > 0 /\ ~Rev(D, "_0") /\ PenNone(D) /\ f \in {"Zl_0", "Zu_0", "zl_0", "zu_0"}
       THEN IF Ns(D, "_0") = 0 THEN Zeros(0) ELSE Val(D, CASE f = "Zl_0" -> "Zl" [] f = "Zu_0" -> "Zu" [] f = "zl_0" -> "zl" [] OTHER -> "zu")
  ELSE Val(D, f)
Exp0 == {"y_0", "psi_0", "rin_0", "ext_0"}
CompleteE(D, e) == LET v == IF N(D) > 0 /\ D.ct["_0"] = "None" /\ e \in Exp0 THEN D.E[CASE e = "y_0" -> "y" [] e = "psi_0" -> "psi" [] e = "rin_0" -> "rin" [] OTHER -> "ext"] ELSE D.E[e] IN v
Complete(D) ==
  [dims |-> Dims(D), A |-> [f \in DOMAIN D.A |-> CompleteA(D, f)], E |-> [e \in DOMAIN D.E |-> CompleteE(D, e)],
   chess |-> [i \in 1..3 |-> IF i = 1 /\ N(D) > 0 /\ D.ct["_0"] = "None" THEN D.chess[2] ELSE D.chess[i]],
   ct |-> [s \in Stg |-> IF N(D) > 0 THEN Ct(D, s) ELSE D.ct[s]],
   con |-> [s \in Stg |-> IF s \in StgOn(D) /\ Ev(D, "phi" \o s) > 0 THEN "BGP" ELSE "BGH"],
   len |-> [x |-> D.m.nx, xdot |-> D.m.nx, u |-> D.m.nu, z |-> D.m.nz, p |-> D.m.np, p_global |-> D.m.npg, pi |-> IF D.m.disc >= 0 THEN D.m.disc ELSE D.m.nx],
   ts |-> Ts(D), nodes |-> Nodes(D), scaling |-> IF D.o.scaling # <<>> THEN D.o.scaling ELSE Append(Ts(D), 1), cond_N |-> CondN(D),
   nsteps |-> IF N(D) = 0 THEN [i \in 1..(IF D.o.nsteps_arr = 0 THEN 1 ELSE D.o.nsteps_arr) |-> D.o.nsteps] ELSE [i \in 1..N(D) |-> D.o.nsteps],
   nstages |-> [i \in 1..(IF N(D) = 0 THEN 1 ELSE N(D)) |-> D.o.nstages],
   named |-> TRUE, hess |-> D.o.hessian_approx = "EXACT"]
=============================================================================
