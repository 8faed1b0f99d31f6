------------------------------ MODULE OptStore ------------------------------
(***************************************************************************)
(* An options object is a map from option names to values. Assigning a     *)
(* value inside the documented domain stores exactly that value (or the    *)
(* options it stands for) and nothing else; assigning a value outside it   *)
(* is refused and changes nothing. Values are tokens (strings); rank gives *)
(* the order of the numeric ones.                                          *)
(***************************************************************************)
EXTENDS OptTable, FiniteSets, TLC
VARIABLES cls, st

Entry(c, o) == LET T == Table[c] IN IF \E i \in 1..Len(T) : T[i].o = o THEN T[CHOOSE i \in 1..Len(T) : T[i].o = o] ELSE [o |-> o, k |-> "unknown", d |-> "*"]
Has(c, o) == \E i \in 1..Len(Table[c]) : Table[c][i].o = o

(* v: a value [t, tok, c0, c1, n, s]: type, token, sign of value - 0 and value - 1, the integer, the string *)
Side(v, b) == IF b = 0 THEN v.c0 ELSE v.c1
LowOk(e, v) == CASE e.los = "" -> "yes" [] e.los = "ge" -> IF Side(v, e.lo) >= 0 THEN "yes" ELSE "no"
               [] e.los = "gt" -> IF Side(v, e.lo) > 0 THEN "yes" ELSE "no"
               [] OTHER -> IF Side(v, e.lo) > 0 THEN "yes" ELSE IF Side(v, e.lo) = 0 THEN "any" ELSE "no"
HighOk(e, v) == CASE e.his = "" -> "yes" [] e.his = "le" -> IF Side(v, e.hi) <= 0 THEN "yes" ELSE "no"
                [] OTHER -> IF Side(v, e.hi) < 0 THEN "yes" ELSE "no"
And3(a, b) == IF a = "no" \/ b = "no" THEN "no" ELSE IF a = "any" \/ b = "any" THEN "any" ELSE "yes"
Range(s) == {s[i] : i \in 1..Len(s)}
Verdict(c, o, v) ==
  LET e == Entry(c, o) IN
  CASE e.k = "unknown" -> "any"
  [] e.k = "enum" -> IF v.t = "str" THEN (IF v.s \in Range(e.v) THEN "yes" ELSE "no") ELSE "no"
  [] e.k = "float" -> CASE v.t = "float" -> And3(LowOk(e, v), HighOk(e, v))
                      [] v.t = "nan" -> IF e.los = "" THEN "any" ELSE "no"
                      [] v.t = "inf" -> IF And3(LowOk(e, v), HighOk(e, v)) = "no" THEN "no" ELSE "any"
                      [] v.t \in {"int", "bool"} -> IF And3(LowOk(e, v), HighOk(e, v)) = "no" THEN "no" ELSE "any"
                      [] v.t = "none" /\ e.none -> "yes"
                      [] OTHER -> "no"
  [] e.k = "int" -> CASE v.t = "int" -> IF v.n >= e.lo /\ v.n <= e.hi THEN "yes" ELSE "no"
                    [] v.t = "bool" -> "any"
                    [] v.t = "float" /\ v.whole -> IF v.n >= e.lo /\ v.n <= e.hi THEN "any" ELSE "no"
                    [] OTHER -> "no"
  [] e.k = "bool" -> CASE v.t = "bool" -> "yes"
                     [] v.t = "int" /\ v.n \in {0, 1} -> "any"
                     [] v.t = "float" /\ v.whole /\ v.n \in {0, 1} -> "any"
                     [] OTHER -> "no"
  [] e.k = "simint" -> IF v.t = "int" /\ v.n > 0 THEN "yes" ELSE "any"
  [] e.k = "number" -> IF v.t \in {"float", "int"} THEN "yes" ELSE IF v.t \in {"str", "none", "intlist", "list"} THEN "no" ELSE "any"
  [] e.k = "str" -> IF v.t = "str" THEN "yes" ELSE "no"
  [] e.k = "intlist" -> IF v.t = "intlist" THEN (IF v.n >= 0 THEN "yes" ELSE "no") ELSE IF v.t = "emptylist" THEN "any" ELSE "no"
  [] e.k = "array" -> IF v.t = "array" THEN "yes" ELSE IF v.t = "none" THEN "any" ELSE "no"
  [] OTHER -> "any"

NlpTols == <<"nlp_solver_tol_stat", "nlp_solver_tol_eq", "nlp_solver_tol_ineq", "nlp_solver_tol_comp">>
QpTols == <<"qp_solver_tol_stat", "qp_solver_tol_eq", "qp_solver_tol_ineq", "qp_solver_tol_comp">>
(* options which stand for others *)
Targets(c, o) ==
  CASE c = "ocp" /\ o = "tol" -> Range(NlpTols)
  [] c = "ocp" /\ o = "qp_tol" -> Range(QpTols)
  [] c = "codegen" /\ o = "with_solution_sens_wrt_params" -> {"with_solution_sens_wrt_params_forw", "with_solution_sens_wrt_params_adj"}
  [] OTHER -> {o}
Derived(c) == IF c = "ocp" THEN {"tol", "qp_tol"} ELSE IF c = "codegen" THEN {"with_solution_sens_wrt_params"} ELSE {}

MaxTok(rank, ts) == IF "None" \in ts THEN "None" ELSE CHOOSE t \in ts : \A u \in ts : rank[u] <= rank[t]
(* what reading every option gives *)
Read(rank, s) ==
  [o \in DOMAIN s |->
     CASE cls = "ocp" /\ o = "tol" -> MaxTok(rank, {s[NlpTols[i]] : i \in 1..4})
     [] cls = "ocp" /\ o = "qp_tol" -> MaxTok(rank, {s[QpTols[i]] : i \in 1..4})
     [] cls = "codegen" /\ o = "with_solution_sens_wrt_params" -> s["with_solution_sens_wrt_params_forw"]
     [] OTHER -> s[o]]

DefaultOk(c, o, tok) == LET e == Entry(c, o) IN e.d = "*" \/ o \in Derived(c) \/ e.d = tok

(* stored: what the object keeps where the documentation leaves the conversion open *)
Set(o, v, accepted, stored) ==
  LET w == Verdict(cls, o, v) IN
  /\ w = "yes" => accepted
  /\ w = "no" => ~accepted
  /\ st' = IF accepted THEN [q \in DOMAIN st |-> IF q \in Targets(cls, o) THEN (IF w = "any" /\ Entry(cls, o).k \in {"simint", "number", "unknown"} THEN stored ELSE v.tok) ELSE st[q]] ELSE st
  /\ UNCHANGED cls

-----------------------------------------------------------------------------
(* what the generated solver hands to the C library: option o is field f, relevant under Rel(o), value Val(o) *)
Funnel == st["globalization"] = "'FUNNEL_L1PEN_LINESEARCH'"
Merit == st["globalization"] = "'MERIT_BACKTRACKING'"
Fixed == st["globalization"] = "'FIXED_STEP'"
SolverIn(S) == st["nlp_solver_type"] \in S
SQP == "'SQP'"  DDP == "'DDP'"  RTI == "'SQP_RTI'"  WFQP == "'SQP_WITH_FEASIBLE_QP'"
DdpLs == Funnel \/ (SolverIn({DDP}) /\ Merit)
Hpipm == st["qp_solver"] \in {"'PARTIAL_CONDENSING_HPIPM'", "'FULL_CONDENSING_HPIPM'"}
Partial == st["qp_solver"] \in {"'PARTIAL_CONDENSING_HPIPM'", "'PARTIAL_CONDENSING_OSQP'"}
Reg(S) == st["regularize_method"] \in S

Gen == <<
  [o |-> "exact_hess_dyn", f |-> "exact_hess_dyn"], [o |-> "exact_hess_cost", f |-> "exact_hess_cost"], [o |-> "exact_hess_constr", f |-> "exact_hess_constr"],
  [o |-> "fixed_hess", f |-> "fixed_hess"],
  [o |-> "globalization_fixed_step_length", f |-> "globalization_fixed_step_length"],
  [o |-> "globalization_alpha_min", f |-> "globalization_alpha_min"], [o |-> "globalization_alpha_reduction", f |-> "globalization_alpha_reduction"],
  [o |-> "globalization_line_search_use_sufficient_descent", f |-> "globalization_line_search_use_sufficient_descent"],
  [o |-> "globalization_use_SOC", f |-> "globalization_use_SOC"], [o |-> "globalization_eps_sufficient_descent", f |-> "globalization_eps_sufficient_descent"],
  [o |-> "globalization_full_step_dual", f |-> "globalization_full_step_dual"],
  [o |-> "globalization_funnel_init_increase_factor", f |-> "globalization_funnel_init_increase_factor"],
  [o |-> "globalization_funnel_init_upper_bound", f |-> "globalization_funnel_init_upper_bound"],
  [o |-> "globalization_funnel_sufficient_decrease_factor", f |-> "globalization_funnel_sufficient_decrease_factor"],
  [o |-> "globalization_funnel_kappa", f |-> "globalization_funnel_kappa"],
  [o |-> "globalization_funnel_fraction_switching_condition", f |-> "globalization_funnel_fraction_switching_condition"],
  [o |-> "globalization_funnel_initial_penalty_parameter", f |-> "globalization_funnel_initial_penalty_parameter"],
  [o |-> "globalization_funnel_use_merit_fun_only", f |-> "globalization_funnel_use_merit_fun_only"],
  [o |-> "solution_sens_qp_t_lam_min", f |-> "solution_sens_qp_t_lam_min"],
  [o |-> "nlp_solver_warm_start_first_qp", f |-> "warm_start_first_qp"], [o |-> "nlp_solver_warm_start_first_qp_from_nlp", f |-> "warm_start_first_qp_from_nlp"],
  [o |-> "levenberg_marquardt", f |-> "levenberg_marquardt"],
  [o |-> "reg_epsilon", f |-> "reg_epsilon"], [o |-> "reg_max_cond_block", f |-> "reg_max_cond_block"], [o |-> "reg_min_epsilon", f |-> "reg_min_epsilon"],
  [o |-> "reg_adaptive_eps", f |-> "reg_adaptive_eps"],
  [o |-> "nlp_solver_ext_qp_res", f |-> "ext_qp_res"], [o |-> "store_iterates", f |-> "store_iterates"],
  [o |-> "log_primal_step_norm", f |-> "log_primal_step_norm"], [o |-> "log_dual_step_norm", f |-> "log_dual_step_norm"],
  [o |-> "nlp_solver_tol_min_step_norm", f |-> "tol_min_step_norm"],
  [o |-> "hpipm_mode", f |-> "qp_hpipm_mode"], [o |-> "qp_solver_mu0", f |-> "qp_mu0"], [o |-> "qp_solver_t0_init", f |-> "qp_t0_init"],
  [o |-> "tau_min", f |-> "tau_min"],
  [o |-> "byrd_omojokon_slack_relaxation_factor", f |-> "byrd_omojokon_slack_relaxation_factor"],
  [o |-> "use_constraint_hessian_in_feas_qp", f |-> "use_constraint_hessian_in_feas_qp"],
  [o |-> "search_direction_mode", f |-> "search_direction_mode"],
  [o |-> "allow_direction_mode_switch_to_nominal", f |-> "allow_direction_mode_switch_to_nominal"],
  [o |-> "nlp_solver_tol_stat", f |-> "tol_stat"], [o |-> "nlp_solver_tol_eq", f |-> "tol_eq"], [o |-> "nlp_solver_tol_ineq", f |-> "tol_ineq"],
  [o |-> "nlp_solver_tol_comp", f |-> "tol_comp"], [o |-> "nlp_solver_max_iter", f |-> "max_iter"],
  [o |-> "with_adaptive_levenberg_marquardt", f |-> "with_adaptive_levenberg_marquardt"],
  [o |-> "adaptive_levenberg_marquardt_lam", f |-> "adaptive_levenberg_marquardt_lam"],
  [o |-> "adaptive_levenberg_marquardt_mu_min", f |-> "adaptive_levenberg_marquardt_mu_min"],
  [o |-> "adaptive_levenberg_marquardt_mu0", f |-> "adaptive_levenberg_marquardt_mu0"],
  [o |-> "adaptive_levenberg_marquardt_obj_scalar", f |-> "adaptive_levenberg_marquardt_obj_scalar"],
  [o |-> "eval_residual_at_max_iter", f |-> "eval_residual_at_max_iter"],
  [o |-> "qpscaling_ub_max_abs_eig", f |-> "qpscaling_ub_max_abs_eig"], [o |-> "qpscaling_lb_norm_inf_grad_obj", f |-> "qpscaling_lb_norm_inf_grad_obj"],
  [o |-> "qpscaling_scale_objective", f |-> "qpscaling_scale_objective"], [o |-> "qpscaling_scale_constraints", f |-> "qpscaling_scale_constraints"],
  [o |-> "nlp_qp_tol_strategy", f |-> "nlp_qp_tol_strategy"], [o |-> "nlp_qp_tol_reduction_factor", f |-> "nlp_qp_tol_reduction_factor"],
  [o |-> "nlp_qp_tol_safety_factor", f |-> "nlp_qp_tol_safety_factor"], [o |-> "nlp_qp_tol_min_stat", f |-> "nlp_qp_tol_min_stat"],
  [o |-> "nlp_qp_tol_min_eq", f |-> "nlp_qp_tol_min_eq"], [o |-> "nlp_qp_tol_min_ineq", f |-> "nlp_qp_tol_min_ineq"],
  [o |-> "nlp_qp_tol_min_comp", f |-> "nlp_qp_tol_min_comp"],
  [o |-> "timeout_max_time", f |-> "timeout_max_time"], [o |-> "timeout_heuristic", f |-> "timeout_heuristic"],
  [o |-> "as_rti_iter", f |-> "as_rti_iter"], [o |-> "as_rti_level", f |-> "as_rti_level"], [o |-> "rti_log_residuals", f |-> "rti_log_residuals"],
  [o |-> "rti_log_only_available_residuals", f |-> "rti_log_only_available_residuals"],
  [o |-> "with_anderson_acceleration", f |-> "with_anderson_acceleration"], [o |-> "anderson_activation_threshold", f |-> "anderson_activation_threshold"],
  [o |-> "qp_solver_iter_max", f |-> "qp_iter_max"],
  [o |-> "qp_solver_tol_stat", f |-> "qp_tol_stat"], [o |-> "qp_solver_tol_eq", f |-> "qp_tol_eq"], [o |-> "qp_solver_tol_ineq", f |-> "qp_tol_ineq"],
  [o |-> "qp_solver_tol_comp", f |-> "qp_tol_comp"],
  [o |-> "qp_solver_warm_start", f |-> "qp_warm_start"], [o |-> "print_level", f |-> "print_level"],
  [o |-> "qp_solver_cond_ric_alg", f |-> "qp_cond_ric_alg"], [o |-> "qp_solver_ric_alg", f |-> "qp_ric_alg"],
  [o |-> "qp_solver_cond_N", f |-> "qp_cond_N"], [o |-> "qp_solver_cond_block_size", f |-> "qp_cond_block_size"]
>>
(* per-stage fields of the dynamics *)
GenStage == <<
  [o |-> "collocation_type", f |-> "dynamics_collocation_type"], [o |-> "sim_method_num_steps", f |-> "dynamics_num_steps"],
  [o |-> "sim_method_num_stages", f |-> "dynamics_num_stages"], [o |-> "sim_method_newton_iter", f |-> "dynamics_newton_iter"],
  [o |-> "sim_method_newton_tol", f |-> "dynamics_newton_tol"], [o |-> "sim_method_jac_reuse", f |-> "dynamics_jac_reuse"]
>>
Rel(o) ==
  CASE o \in {"exact_hess_dyn", "exact_hess_cost", "exact_hess_constr"} -> st["hessian_approx"] = "'EXACT'"
  [] o = "globalization_fixed_step_length" -> Fixed
  [] o \in {"globalization_alpha_min", "globalization_alpha_reduction"} -> ~Fixed
  [] o \in {"globalization_line_search_use_sufficient_descent", "globalization_use_SOC", "globalization_eps_sufficient_descent"} -> Merit
  [] o \in {"globalization_funnel_init_increase_factor", "globalization_funnel_init_upper_bound", "globalization_funnel_sufficient_decrease_factor",
            "globalization_funnel_kappa", "globalization_funnel_fraction_switching_condition", "globalization_funnel_initial_penalty_parameter",
            "globalization_funnel_use_merit_fun_only"} -> Funnel
  [] o = "reg_epsilon" -> Reg({"'PROJECT'", "'MIRROR'", "'CONVEXIFY'", "'GERSHGORIN_LEVENBERG_MARQUARDT'"})
  [] o \in {"reg_max_cond_block", "reg_min_epsilon", "reg_adaptive_eps"} -> Reg({"'PROJECT'", "'MIRROR'"})
  [] o \in {"log_primal_step_norm", "log_dual_step_norm", "nlp_solver_tol_min_step_norm"} -> SolverIn({SQP, WFQP})
  [] o \in {"hpipm_mode", "qp_solver_mu0", "qp_solver_t0_init", "tau_min"} -> Hpipm
  [] o \in {"byrd_omojokon_slack_relaxation_factor", "use_constraint_hessian_in_feas_qp", "search_direction_mode", "allow_direction_mode_switch_to_nominal"} -> SolverIn({WFQP})
  [] o \in {"nlp_solver_tol_stat", "nlp_solver_tol_eq", "nlp_solver_tol_ineq", "nlp_solver_tol_comp", "nlp_solver_max_iter", "eval_residual_at_max_iter",
            "qpscaling_ub_max_abs_eig", "qpscaling_lb_norm_inf_grad_obj", "qpscaling_scale_objective", "qpscaling_scale_constraints",
            "nlp_qp_tol_strategy", "nlp_qp_tol_reduction_factor", "nlp_qp_tol_safety_factor", "nlp_qp_tol_min_stat", "nlp_qp_tol_min_eq",
            "nlp_qp_tol_min_ineq", "nlp_qp_tol_min_comp"} -> SolverIn({SQP, DDP, WFQP})
  [] o \in {"with_adaptive_levenberg_marquardt", "adaptive_levenberg_marquardt_lam", "adaptive_levenberg_marquardt_mu_min",
            "adaptive_levenberg_marquardt_mu0", "adaptive_levenberg_marquardt_obj_scalar"} -> SolverIn({SQP, DDP, WFQP})
  [] o = "timeout_max_time" -> SolverIn({SQP, WFQP})
  [] o = "timeout_heuristic" -> SolverIn({SQP, WFQP}) /\ st["timeout_max_time"] # "0.0"
  [] o \in {"as_rti_iter", "as_rti_level", "rti_log_residuals", "rti_log_only_available_residuals"} -> SolverIn({RTI})
  [] o \in {"qp_solver_cond_N", "qp_solver_cond_ric_alg"} -> Partial
  [] o = "qp_solver_cond_block_size" -> Partial /\ st[o] # "None"
  [] o = "qp_solver_ric_alg" -> st["qp_solver"] = "'PARTIAL_CONDENSING_HPIPM'"
  [] o \in {"qp_solver_tol_stat", "qp_solver_tol_eq", "qp_solver_tol_ineq", "qp_solver_tol_comp"} -> st[o] # "None"
  [] OTHER -> TRUE
Val(o, N) ==
  CASE o = "globalization_alpha_min" /\ st[o] = "None" -> IF DdpLs THEN "1e-17" ELSE "0.05"
  [] o = "globalization_eps_sufficient_descent" /\ st[o] = "None" -> IF DdpLs THEN "1e-06" ELSE "0.0001"
  [] o = "eval_residual_at_max_iter" /\ st[o] = "None" -> IF DdpLs THEN "True" ELSE "False"
  [] o = "globalization_full_step_dual" /\ st[o] = "None" -> IF DdpLs THEN "1.0" ELSE "0.0"
  [] o = "nlp_solver_tol_min_step_norm" /\ st[o] = "None" -> IF DdpLs THEN "1e-12" ELSE "0.0"
  [] o = "qp_solver_cond_N" /\ st[o] = "None" -> N
  [] o \in {"qp_solver_ric_alg", "qp_solver_cond_ric_alg"} /\ Reg({"'PROJECT_REDUC_HESS'"}) -> "0.0"
  [] OTHER -> st[o]
(* the library's own value where nothing is handed over *)
LibDefault(f) ==
  CASE f \in {"warm_start_first_qp", "warm_start_first_qp_from_nlp"} -> "False"
  [] f \in {"qp_mu0", "tau_min", "timeout_max_time"} -> "0.0"
  [] f = "qp_warm_start" -> "0.0"
  [] OTHER -> "-"
Handed(f, got, want) == got = want \/ (got = "unset" /\ LibDefault(f) = want)
-----------------------------------------------------------------------------
(* options that may change at run time *)
RunDouble == {"tol_stat", "tol_eq", "tol_ineq", "tol_comp", "qp_tol_stat", "qp_tol_eq", "qp_tol_ineq", "qp_tol_comp", "levenberg_marquardt", "qp_mu0", "tau_min"}
RunInt == {"print_level", "max_iter", "qp_warm_start", "warm_start_first_qp", "globalization_full_step_dual", "rti_phase", "as_rti_level"}
RunBool == {"warm_start_first_qp_from_nlp"}
IntTok(n) == ToString(n) \o ".0"
RunVerdict(f, v) ==
  CASE f \in RunDouble -> IF v.t = "float" THEN "yes" ELSE IF v.t \in {"int", "bool"} THEN "any" ELSE "no"
  [] f \in RunBool -> IF v.t = "bool" THEN "yes" ELSE IF v.t = "int" /\ v.n \in {0, 1} THEN "any" ELSE "no"
  [] f = "max_iter" -> IF v.t = "int" THEN (IF \E m \in v.n..999 : IntTok(m) = st["nlp_solver_max_iter"] THEN "yes" ELSE "no") ELSE IF v.t = "bool" THEN "any" ELSE "no"
  [] f = "rti_phase" -> IF v.t = "int"
                        THEN IF v.n \in (IF ~SolverIn({RTI}) THEN {0} ELSE IF st["as_rti_level"] = "4.0" THEN {0, 1, 2} ELSE {1, 2}) THEN "yes" ELSE "no"
                        ELSE IF v.t = "bool" THEN "any" ELSE "no"
  [] f \in RunInt -> IF v.t = "int" THEN "yes" ELSE IF v.t = "bool" THEN "any" ELSE "no"
  [] OTHER -> "no"
=============================================================================
