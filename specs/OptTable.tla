------------------------------ MODULE OptTable ------------------------------
(***************************************************************************)
(* The documented options: name, kind, domain, default.                    *)
(*   enum  one of v              float  bounds lo, hi in {0, 1} with       *)
(*   int   lo..hi                       los in {gt, ge, gt?}, his in {lt,  *)
(*   bool  simint  str                  le}; gt?: the documentation says   *)
(*   intlist  array  number             > and the code accepts equality    *)
(* none: None is a documented value. d: the default as a token, "*" if the *)
(* documentation gives none (or depends on the environment).               *)
(***************************************************************************)
EXTENDS Integers, Sequences
OcpTable == <<
  [o |-> "qp_solver", k |-> "enum", v |-> <<"PARTIAL_CONDENSING_HPIPM", "FULL_CONDENSING_QPOASES", "FULL_CONDENSING_HPIPM", "PARTIAL_CONDENSING_QPDUNES", "PARTIAL_CONDENSING_OSQP", "PARTIAL_CONDENSING_CLARABEL", "FULL_CONDENSING_DAQP">>, lo |-> 0, los |-> "", hi |-> 0, his |-> "", none |-> FALSE, d |-> "'PARTIAL_CONDENSING_HPIPM'"],
  [o |-> "hpipm_mode", k |-> "enum", v |-> <<"BALANCE", "SPEED_ABS", "SPEED", "ROBUST">>, lo |-> 0, los |-> "", hi |-> 0, his |-> "", none |-> FALSE, d |-> "'BALANCE'"],
  [o |-> "hessian_approx", k |-> "enum", v |-> <<"GAUSS_NEWTON", "EXACT">>, lo |-> 0, los |-> "", hi |-> 0, his |-> "", none |-> FALSE, d |-> "'GAUSS_NEWTON'"],
  [o |-> "integrator_type", k |-> "enum", v |-> <<"ERK", "IRK", "GNSF", "DISCRETE", "LIFTED_IRK">>, lo |-> 0, los |-> "", hi |-> 0, his |-> "", none |-> FALSE, d |-> "'ERK'"],
  [o |-> "nlp_solver_type", k |-> "enum", v |-> <<"SQP", "SQP_RTI", "DDP", "SQP_WITH_FEASIBLE_QP">>, lo |-> 0, los |-> "", hi |-> 0, his |-> "", none |-> FALSE, d |-> "'SQP'"],
  [o |-> "globalization", k |-> "enum", v |-> <<"FIXED_STEP", "MERIT_BACKTRACKING", "FUNNEL_L1PEN_LINESEARCH">>, lo |-> 0, los |-> "", hi |-> 0, his |-> "", none |-> FALSE, d |-> "'FIXED_STEP'"],
  [o |-> "collocation_type", k |-> "enum", v |-> <<"GAUSS_RADAU_IIA", "GAUSS_LEGENDRE", "EXPLICIT_RUNGE_KUTTA">>, lo |-> 0, los |-> "", hi |-> 0, his |-> "", none |-> FALSE, d |-> "'GAUSS_LEGENDRE'"],
  [o |-> "regularize_method", k |-> "enum", v |-> <<"NO_REGULARIZE", "MIRROR", "PROJECT", "PROJECT_REDUC_HESS", "CONVEXIFY", "GERSHGORIN_LEVENBERG_MARQUARDT">>, lo |-> 0, los |-> "", hi |-> 0, his |-> "", none |-> FALSE, d |-> "'NO_REGULARIZE'"],
  [o |-> "qpscaling_scale_objective", k |-> "enum", v |-> <<"NO_OBJECTIVE_SCALING", "OBJECTIVE_GERSHGORIN">>, lo |-> 0, los |-> "", hi |-> 0, his |-> "", none |-> FALSE, d |-> "'NO_OBJECTIVE_SCALING'"],
  [o |-> "qpscaling_scale_constraints", k |-> "enum", v |-> <<"NO_CONSTRAINT_SCALING", "INF_NORM">>, lo |-> 0, los |-> "", hi |-> 0, his |-> "", none |-> FALSE, d |-> "'NO_CONSTRAINT_SCALING'"],
  [o |-> "nlp_qp_tol_strategy", k |-> "enum", v |-> <<"ADAPTIVE_CURRENT_RES_JOINT", "ADAPTIVE_QPSCALING", "FIXED_QP_TOL">>, lo |-> 0, los |-> "", hi |-> 0, his |-> "", none |-> FALSE, d |-> "'FIXED_QP_TOL'"],
  [o |-> "timeout_heuristic", k |-> "enum", v |-> <<"MAX_CALL", "MAX_OVERALL", "LAST", "AVERAGE", "ZERO">>, lo |-> 0, los |-> "", hi |-> 0, his |-> "", none |-> FALSE, d |-> "*"],
  [o |-> "cost_discretization", k |-> "enum", v |-> <<"EULER", "INTEGRATOR">>, lo |-> 0, los |-> "", hi |-> 0, his |-> "", none |-> FALSE, d |-> "'EULER'"],
  [o |-> "search_direction_mode", k |-> "enum", v |-> <<"NOMINAL_QP", "BYRD_OMOJOKUN", "FEASIBILITY_QP">>, lo |-> 0, los |-> "", hi |-> 0, his |-> "", none |-> FALSE, d |-> "'NOMINAL_QP'"],
  [o |-> "globalization_fixed_step_length", k |-> "float", v |-> <<>>, lo |-> 0, los |-> "ge", hi |-> 1, his |-> "le", none |-> FALSE, d |-> "1.0"],
  [o |-> "qpscaling_ub_max_abs_eig", k |-> "float", v |-> <<>>, lo |-> 0, los |-> "ge", hi |-> 0, his |-> "", none |-> FALSE, d |-> "100000.0"],
  [o |-> "qpscaling_lb_norm_inf_grad_obj", k |-> "float", v |-> <<>>, lo |-> 0, los |-> "ge", hi |-> 0, his |-> "", none |-> FALSE, d |-> "0.0001"],
  [o |-> "nlp_qp_tol_reduction_factor", k |-> "float", v |-> <<>>, lo |-> 0, los |-> "ge", hi |-> 1, his |-> "le", none |-> FALSE, d |-> "0.1"],
  [o |-> "nlp_qp_tol_safety_factor", k |-> "float", v |-> <<>>, lo |-> 0, los |-> "ge", hi |-> 1, his |-> "le", none |-> FALSE, d |-> "0.1"],
  [o |-> "nlp_qp_tol_min_stat", k |-> "float", v |-> <<>>, lo |-> 0, los |-> "gt", hi |-> 0, his |-> "", none |-> FALSE, d |-> "1e-09"],
  [o |-> "nlp_qp_tol_min_eq", k |-> "float", v |-> <<>>, lo |-> 0, los |-> "gt", hi |-> 0, his |-> "", none |-> FALSE, d |-> "1e-10"],
  [o |-> "nlp_qp_tol_min_ineq", k |-> "float", v |-> <<>>, lo |-> 0, los |-> "gt", hi |-> 0, his |-> "", none |-> FALSE, d |-> "1e-10"],
  [o |-> "nlp_qp_tol_min_comp", k |-> "float", v |-> <<>>, lo |-> 0, los |-> "gt", hi |-> 0, his |-> "", none |-> FALSE, d |-> "1e-11"],
  [o |-> "levenberg_marquardt", k |-> "float", v |-> <<>>, lo |-> 0, los |-> "ge", hi |-> 0, his |-> "", none |-> FALSE, d |-> "0.0"],
  [o |-> "sim_method_newton_tol", k |-> "float", v |-> <<>>, lo |-> 0, los |-> "ge", hi |-> 0, his |-> "", none |-> FALSE, d |-> "0.0"],
  [o |-> "qp_solver_tol_stat", k |-> "float", v |-> <<>>, lo |-> 0, los |-> "gt", hi |-> 0, his |-> "", none |-> FALSE, d |-> "None"],
  [o |-> "nlp_solver_tol_stat", k |-> "float", v |-> <<>>, lo |-> 0, los |-> "gt", hi |-> 0, his |-> "", none |-> FALSE, d |-> "1e-06"],
  [o |-> "qp_solver_tol_eq", k |-> "float", v |-> <<>>, lo |-> 0, los |-> "gt", hi |-> 0, his |-> "", none |-> FALSE, d |-> "None"],
  [o |-> "nlp_solver_tol_eq", k |-> "float", v |-> <<>>, lo |-> 0, los |-> "gt", hi |-> 0, his |-> "", none |-> FALSE, d |-> "1e-06"],
  [o |-> "qp_solver_tol_ineq", k |-> "float", v |-> <<>>, lo |-> 0, los |-> "gt", hi |-> 0, his |-> "", none |-> FALSE, d |-> "None"],
  [o |-> "nlp_solver_tol_ineq", k |-> "float", v |-> <<>>, lo |-> 0, los |-> "gt", hi |-> 0, his |-> "", none |-> FALSE, d |-> "1e-06"],
  [o |-> "qp_solver_tol_comp", k |-> "float", v |-> <<>>, lo |-> 0, los |-> "gt", hi |-> 0, his |-> "", none |-> FALSE, d |-> "None"],
  [o |-> "nlp_solver_tol_comp", k |-> "float", v |-> <<>>, lo |-> 0, los |-> "gt", hi |-> 0, his |-> "", none |-> FALSE, d |-> "1e-06"],
  [o |-> "qp_solver_mu0", k |-> "float", v |-> <<>>, lo |-> 0, los |-> "ge", hi |-> 0, his |-> "", none |-> FALSE, d |-> "0.0"],
  [o |-> "tau_min", k |-> "float", v |-> <<>>, lo |-> 0, los |-> "ge", hi |-> 0, his |-> "", none |-> FALSE, d |-> "0.0"],
  [o |-> "solution_sens_qp_t_lam_min", k |-> "float", v |-> <<>>, lo |-> 0, los |-> "ge", hi |-> 0, his |-> "", none |-> FALSE, d |-> "1e-09"],
  [o |-> "anderson_activation_threshold", k |-> "float", v |-> <<>>, lo |-> 0, los |-> "", hi |-> 0, his |-> "", none |-> FALSE, d |-> "10.0"],
  [o |-> "adaptive_levenberg_marquardt_lam", k |-> "float", v |-> <<>>, lo |-> 1, los |-> "gt?", hi |-> 0, his |-> "", none |-> FALSE, d |-> "5.0"],
  [o |-> "adaptive_levenberg_marquardt_mu_min", k |-> "float", v |-> <<>>, lo |-> 0, los |-> "gt?", hi |-> 0, his |-> "", none |-> FALSE, d |-> "1e-16"],
  [o |-> "adaptive_levenberg_marquardt_mu0", k |-> "float", v |-> <<>>, lo |-> 0, los |-> "gt?", hi |-> 0, his |-> "", none |-> FALSE, d |-> "0.001"],
  [o |-> "adaptive_levenberg_marquardt_obj_scalar", k |-> "float", v |-> <<>>, lo |-> 0, los |-> "gt?", hi |-> 0, his |-> "", none |-> FALSE, d |-> "2.0"],
  [o |-> "timeout_max_time", k |-> "float", v |-> <<>>, lo |-> 0, los |-> "ge", hi |-> 0, his |-> "", none |-> FALSE, d |-> "0.0"],
  [o |-> "nlp_solver_tol_min_step_norm", k |-> "float", v |-> <<>>, lo |-> 0, los |-> "ge", hi |-> 0, his |-> "", none |-> FALSE, d |-> "None"],
  [o |-> "globalization_alpha_min", k |-> "float", v |-> <<>>, lo |-> 0, los |-> "ge", hi |-> 0, his |-> "", none |-> TRUE, d |-> "None"],
  [o |-> "reg_epsilon", k |-> "float", v |-> <<>>, lo |-> 0, los |-> "ge", hi |-> 0, his |-> "", none |-> FALSE, d |-> "0.0001"],
  [o |-> "reg_max_cond_block", k |-> "float", v |-> <<>>, lo |-> 1, los |-> "gt?", hi |-> 0, his |-> "", none |-> FALSE, d |-> "10000000.0"],
  [o |-> "reg_min_epsilon", k |-> "float", v |-> <<>>, lo |-> 0, los |-> "gt?", hi |-> 0, his |-> "", none |-> FALSE, d |-> "1e-08"],
  [o |-> "globalization_alpha_reduction", k |-> "float", v |-> <<>>, lo |-> 0, los |-> "gt", hi |-> 1, his |-> "lt", none |-> FALSE, d |-> "0.7"],
  [o |-> "globalization_eps_sufficient_descent", k |-> "float", v |-> <<>>, lo |-> 0, los |-> "gt", hi |-> 0, his |-> "", none |-> FALSE, d |-> "None"],
  [o |-> "globalization_funnel_init_increase_factor", k |-> "float", v |-> <<>>, lo |-> 1, los |-> "gt", hi |-> 0, his |-> "", none |-> FALSE, d |-> "15.0"],
  [o |-> "globalization_funnel_init_upper_bound", k |-> "float", v |-> <<>>, lo |-> 0, los |-> "gt", hi |-> 0, his |-> "", none |-> FALSE, d |-> "1.0"],
  [o |-> "globalization_funnel_sufficient_decrease_factor", k |-> "float", v |-> <<>>, lo |-> 0, los |-> "gt", hi |-> 1, his |-> "lt", none |-> FALSE, d |-> "0.9"],
  [o |-> "globalization_funnel_kappa", k |-> "float", v |-> <<>>, lo |-> 0, los |-> "gt", hi |-> 1, his |-> "lt", none |-> FALSE, d |-> "0.9"],
  [o |-> "globalization_funnel_fraction_switching_condition", k |-> "float", v |-> <<>>, lo |-> 0, los |-> "gt", hi |-> 1, his |-> "lt", none |-> FALSE, d |-> "0.001"],
  [o |-> "globalization_funnel_initial_penalty_parameter", k |-> "float", v |-> <<>>, lo |-> 0, los |-> "ge", hi |-> 1, his |-> "le", none |-> FALSE, d |-> "1.0"],
  [o |-> "byrd_omojokon_slack_relaxation_factor", k |-> "float", v |-> <<>>, lo |-> 1, los |-> "ge", hi |-> 0, his |-> "", none |-> FALSE, d |-> "1.00001"],
  [o |-> "tol", k |-> "float", v |-> <<>>, lo |-> 0, los |-> "gt", hi |-> 0, his |-> "", none |-> FALSE, d |-> "*"],
  [o |-> "qp_tol", k |-> "float", v |-> <<>>, lo |-> 0, los |-> "gt", hi |-> 0, his |-> "", none |-> FALSE, d |-> "*"],
  [o |-> "nlp_solver_warm_start_first_qp", k |-> "bool", v |-> <<>>, lo |-> 0, los |-> "", hi |-> 0, his |-> "", none |-> FALSE, d |-> "False"],
  [o |-> "nlp_solver_warm_start_first_qp_from_nlp", k |-> "bool", v |-> <<>>, lo |-> 0, los |-> "", hi |-> 0, his |-> "", none |-> FALSE, d |-> "False"],
  [o |-> "with_anderson_acceleration", k |-> "bool", v |-> <<>>, lo |-> 0, los |-> "", hi |-> 0, his |-> "", none |-> FALSE, d |-> "False"],
  [o |-> "with_adaptive_levenberg_marquardt", k |-> "bool", v |-> <<>>, lo |-> 0, los |-> "", hi |-> 0, his |-> "", none |-> FALSE, d |-> "False"],
  [o |-> "log_primal_step_norm", k |-> "bool", v |-> <<>>, lo |-> 0, los |-> "", hi |-> 0, his |-> "", none |-> FALSE, d |-> "False"],
  [o |-> "log_dual_step_norm", k |-> "bool", v |-> <<>>, lo |-> 0, los |-> "", hi |-> 0, his |-> "", none |-> FALSE, d |-> "False"],
  [o |-> "store_iterates", k |-> "bool", v |-> <<>>, lo |-> 0, los |-> "", hi |-> 0, his |-> "", none |-> FALSE, d |-> "False"],
  [o |-> "reg_adaptive_eps", k |-> "bool", v |-> <<>>, lo |-> 0, los |-> "", hi |-> 0, his |-> "", none |-> FALSE, d |-> "False"],
  [o |-> "eval_residual_at_max_iter", k |-> "bool", v |-> <<>>, lo |-> 0, los |-> "", hi |-> 0, his |-> "", none |-> FALSE, d |-> "None"],
  [o |-> "use_constraint_hessian_in_feas_qp", k |-> "bool", v |-> <<>>, lo |-> 0, los |-> "", hi |-> 0, his |-> "", none |-> FALSE, d |-> "False"],
  [o |-> "allow_direction_mode_switch_to_nominal", k |-> "bool", v |-> <<>>, lo |-> 0, los |-> "", hi |-> 0, his |-> "", none |-> FALSE, d |-> "True"],
  [o |-> "globalization_funnel_use_merit_fun_only", k |-> "bool", v |-> <<>>, lo |-> 0, los |-> "", hi |-> 0, his |-> "", none |-> FALSE, d |-> "False"],
  [o |-> "with_batch_functionality", k |-> "bool", v |-> <<>>, lo |-> 0, los |-> "", hi |-> 0, his |-> "", none |-> FALSE, d |-> "False"],
  [o |-> "custom_update_copy", k |-> "bool", v |-> <<>>, lo |-> 0, los |-> "", hi |-> 0, his |-> "", none |-> FALSE, d |-> "True"],
  [o |-> "ext_fun_expand_constr", k |-> "bool", v |-> <<>>, lo |-> 0, los |-> "", hi |-> 0, his |-> "", none |-> FALSE, d |-> "False"],
  [o |-> "ext_fun_expand_cost", k |-> "bool", v |-> <<>>, lo |-> 0, los |-> "", hi |-> 0, his |-> "", none |-> FALSE, d |-> "False"],
  [o |-> "ext_fun_expand_dyn", k |-> "bool", v |-> <<>>, lo |-> 0, los |-> "", hi |-> 0, his |-> "", none |-> FALSE, d |-> "False"],
  [o |-> "ext_fun_expand_precompute", k |-> "bool", v |-> <<>>, lo |-> 0, los |-> "", hi |-> 0, his |-> "", none |-> FALSE, d |-> "False"],
  [o |-> "sens_forw_p", k |-> "bool", v |-> <<>>, lo |-> 0, los |-> "", hi |-> 0, his |-> "", none |-> FALSE, d |-> "False"],
  [o |-> "with_solution_sens_wrt_params", k |-> "bool", v |-> <<>>, lo |-> 0, los |-> "", hi |-> 0, his |-> "", none |-> FALSE, d |-> "False"],
  [o |-> "with_value_sens_wrt_params", k |-> "bool", v |-> <<>>, lo |-> 0, los |-> "", hi |-> 0, his |-> "", none |-> FALSE, d |-> "False"],
  [o |-> "qp_solver_warm_start", k |-> "int", v |-> <<>>, lo |-> 0, los |-> "", hi |-> 3, his |-> "", none |-> FALSE, d |-> "0.0"],
  [o |-> "qp_solver_cond_ric_alg", k |-> "int", v |-> <<>>, lo |-> 0, los |-> "", hi |-> 1, his |-> "", none |-> FALSE, d |-> "1.0"],
  [o |-> "qp_solver_ric_alg", k |-> "int", v |-> <<>>, lo |-> 0, los |-> "", hi |-> 1, his |-> "", none |-> FALSE, d |-> "1.0"],
  [o |-> "qp_solver_t0_init", k |-> "int", v |-> <<>>, lo |-> 0, los |-> "", hi |-> 2, his |-> "", none |-> FALSE, d |-> "2.0"],
  [o |-> "as_rti_level", k |-> "int", v |-> <<>>, lo |-> 0, los |-> "", hi |-> 4, his |-> "", none |-> FALSE, d |-> "4.0"],
  [o |-> "globalization_line_search_use_sufficient_descent", k |-> "int", v |-> <<>>, lo |-> 0, los |-> "", hi |-> 1, his |-> "", none |-> FALSE, d |-> "0.0"],
  [o |-> "globalization_use_SOC", k |-> "int", v |-> <<>>, lo |-> 0, los |-> "", hi |-> 1, his |-> "", none |-> FALSE, d |-> "0.0"],
  [o |-> "globalization_full_step_dual", k |-> "int", v |-> <<>>, lo |-> 0, los |-> "", hi |-> 1, his |-> "", none |-> FALSE, d |-> "None"],
  [o |-> "nlp_solver_ext_qp_res", k |-> "int", v |-> <<>>, lo |-> 0, los |-> "", hi |-> 1, his |-> "", none |-> FALSE, d |-> "0.0"],
  [o |-> "rti_log_residuals", k |-> "int", v |-> <<>>, lo |-> 0, los |-> "", hi |-> 1, his |-> "", none |-> FALSE, d |-> "0.0"],
  [o |-> "rti_log_only_available_residuals", k |-> "int", v |-> <<>>, lo |-> 0, los |-> "", hi |-> 1, his |-> "", none |-> FALSE, d |-> "0.0"],
  [o |-> "exact_hess_constr", k |-> "int", v |-> <<>>, lo |-> 0, los |-> "", hi |-> 1, his |-> "", none |-> FALSE, d |-> "1.0"],
  [o |-> "exact_hess_cost", k |-> "int", v |-> <<>>, lo |-> 0, los |-> "", hi |-> 1, his |-> "", none |-> FALSE, d |-> "1.0"],
  [o |-> "exact_hess_dyn", k |-> "int", v |-> <<>>, lo |-> 0, los |-> "", hi |-> 1, his |-> "", none |-> FALSE, d |-> "1.0"],
  [o |-> "fixed_hess", k |-> "int", v |-> <<>>, lo |-> 0, los |-> "", hi |-> 1, his |-> "", none |-> FALSE, d |-> "0.0"],
  [o |-> "ext_cost_num_hess", k |-> "int", v |-> <<>>, lo |-> 0, los |-> "", hi |-> 1, his |-> "", none |-> FALSE, d |-> "0.0"],
  [o |-> "qp_solver_cond_N", k |-> "int", v |-> <<>>, lo |-> 0, los |-> "", hi |-> 99999, his |-> "", none |-> FALSE, d |-> "None"],
  [o |-> "qp_solver_iter_max", k |-> "int", v |-> <<>>, lo |-> 0, los |-> "", hi |-> 99999, his |-> "", none |-> FALSE, d |-> "50.0"],
  [o |-> "as_rti_iter", k |-> "int", v |-> <<>>, lo |-> 0, los |-> "", hi |-> 99999, his |-> "", none |-> FALSE, d |-> "1.0"],
  [o |-> "nlp_solver_max_iter", k |-> "int", v |-> <<>>, lo |-> 0, los |-> "", hi |-> 99999, his |-> "", none |-> FALSE, d |-> "100.0"],
  [o |-> "N_horizon", k |-> "int", v |-> <<>>, lo |-> 0, los |-> "", hi |-> 99999, his |-> "", none |-> FALSE, d |-> "None"],
  [o |-> "print_level", k |-> "int", v |-> <<>>, lo |-> 0, los |-> "", hi |-> 99999, his |-> "", none |-> FALSE, d |-> "0.0"],
  [o |-> "sim_method_newton_iter", k |-> "simint", v |-> <<>>, lo |-> 0, los |-> "", hi |-> 0, his |-> "", none |-> FALSE, d |-> "3.0"],
  [o |-> "sim_method_num_stages", k |-> "simint", v |-> <<>>, lo |-> 0, los |-> "", hi |-> 0, his |-> "", none |-> FALSE, d |-> "4.0"],
  [o |-> "sim_method_num_steps", k |-> "simint", v |-> <<>>, lo |-> 0, los |-> "", hi |-> 0, his |-> "", none |-> FALSE, d |-> "1.0"],
  [o |-> "sim_method_jac_reuse", k |-> "simint", v |-> <<>>, lo |-> 0, los |-> "", hi |-> 0, his |-> "", none |-> FALSE, d |-> "0.0"],
  [o |-> "custom_update_filename", k |-> "str", v |-> <<>>, lo |-> 0, los |-> "", hi |-> 0, his |-> "", none |-> FALSE, d |-> "''"],
  [o |-> "custom_update_header_filename", k |-> "str", v |-> <<>>, lo |-> 0, los |-> "", hi |-> 0, his |-> "", none |-> FALSE, d |-> "''"],
  [o |-> "ext_fun_compile_flags", k |-> "str", v |-> <<>>, lo |-> 0, los |-> "", hi |-> 0, his |-> "", none |-> FALSE, d |-> "*"],
  [o |-> "model_external_shared_lib_dir", k |-> "str", v |-> <<>>, lo |-> 0, los |-> "", hi |-> 0, his |-> "", none |-> FALSE, d |-> "None"],
  [o |-> "qp_solver_cond_block_size", k |-> "intlist", v |-> <<>>, lo |-> 0, los |-> "", hi |-> 0, his |-> "", none |-> FALSE, d |-> "None"],
  [o |-> "time_steps", k |-> "array", v |-> <<>>, lo |-> 0, los |-> "", hi |-> 0, his |-> "", none |-> FALSE, d |-> "None"],
  [o |-> "shooting_nodes", k |-> "array", v |-> <<>>, lo |-> 0, los |-> "", hi |-> 0, his |-> "", none |-> FALSE, d |-> "None"],
  [o |-> "cost_scaling", k |-> "array", v |-> <<>>, lo |-> 0, los |-> "", hi |-> 0, his |-> "", none |-> FALSE, d |-> "None"]
>>
QpTable == <<
  [o |-> "qp_solver", k |-> "enum", v |-> <<"PARTIAL_CONDENSING_HPIPM", "FULL_CONDENSING_QPOASES", "FULL_CONDENSING_HPIPM", "PARTIAL_CONDENSING_QPDUNES", "PARTIAL_CONDENSING_OSQP", "PARTIAL_CONDENSING_CLARABEL", "FULL_CONDENSING_DAQP">>, lo |-> 0, los |-> "", hi |-> 0, his |-> "", none |-> FALSE, d |-> "'PARTIAL_CONDENSING_HPIPM'"],
  [o |-> "hpipm_mode", k |-> "enum", v |-> <<"BALANCE", "SPEED_ABS", "SPEED", "ROBUST">>, lo |-> 0, los |-> "", hi |-> 0, his |-> "", none |-> FALSE, d |-> "'BALANCE'"],
  [o |-> "tol_stat", k |-> "float", v |-> <<>>, lo |-> 0, los |-> "gt", hi |-> 0, his |-> "", none |-> FALSE, d |-> "1e-06"],
  [o |-> "tol_eq", k |-> "float", v |-> <<>>, lo |-> 0, los |-> "gt", hi |-> 0, his |-> "", none |-> FALSE, d |-> "1e-06"],
  [o |-> "tol_ineq", k |-> "float", v |-> <<>>, lo |-> 0, los |-> "gt", hi |-> 0, his |-> "", none |-> FALSE, d |-> "1e-06"],
  [o |-> "tol_comp", k |-> "float", v |-> <<>>, lo |-> 0, los |-> "gt", hi |-> 0, his |-> "", none |-> FALSE, d |-> "1e-06"],
  [o |-> "mu0", k |-> "float", v |-> <<>>, lo |-> 0, los |-> "ge", hi |-> 0, his |-> "", none |-> FALSE, d |-> "None"],
  [o |-> "warm_start", k |-> "int", v |-> <<>>, lo |-> 0, los |-> "", hi |-> 3, his |-> "", none |-> FALSE, d |-> "0.0"],
  [o |-> "cond_ric_alg", k |-> "int", v |-> <<>>, lo |-> 0, los |-> "", hi |-> 1, his |-> "", none |-> FALSE, d |-> "1.0"],
  [o |-> "ric_alg", k |-> "int", v |-> <<>>, lo |-> 0, los |-> "", hi |-> 1, his |-> "", none |-> FALSE, d |-> "1.0"],
  [o |-> "t0_init", k |-> "int", v |-> <<>>, lo |-> 0, los |-> "", hi |-> 2, his |-> "", none |-> FALSE, d |-> "2.0"],
  [o |-> "iter_max", k |-> "int", v |-> <<>>, lo |-> 0, los |-> "", hi |-> 99999, his |-> "", none |-> FALSE, d |-> "50.0"],
  [o |-> "cond_N", k |-> "int", v |-> <<>>, lo |-> 0, los |-> "", hi |-> 99999, his |-> "", none |-> FALSE, d |-> "None"],
  [o |-> "print_level", k |-> "int", v |-> <<>>, lo |-> -99999, los |-> "", hi |-> 99999, his |-> "", none |-> FALSE, d |-> "0.0"],
  [o |-> "cond_block_size", k |-> "intlist", v |-> <<>>, lo |-> 0, los |-> "", hi |-> 0, his |-> "", none |-> FALSE, d |-> "None"]
>>
SimTable == <<
  [o |-> "integrator_type", k |-> "enum", v |-> <<"ERK", "IRK", "GNSF">>, lo |-> 0, los |-> "", hi |-> 0, his |-> "", none |-> FALSE, d |-> "'ERK'"],
  [o |-> "collocation_type", k |-> "enum", v |-> <<"GAUSS_RADAU_IIA", "GAUSS_LEGENDRE", "EXPLICIT_RUNGE_KUTTA">>, lo |-> 0, los |-> "", hi |-> 0, his |-> "", none |-> FALSE, d |-> "'GAUSS_LEGENDRE'"],
  [o |-> "num_stages", k |-> "simint", v |-> <<>>, lo |-> 0, los |-> "", hi |-> 0, his |-> "", none |-> FALSE, d |-> "4.0"],
  [o |-> "num_steps", k |-> "simint", v |-> <<>>, lo |-> 0, los |-> "", hi |-> 0, his |-> "", none |-> FALSE, d |-> "1.0"],
  [o |-> "newton_iter", k |-> "simint", v |-> <<>>, lo |-> 0, los |-> "", hi |-> 0, his |-> "", none |-> FALSE, d |-> "3.0"],
  [o |-> "newton_tol", k |-> "float", v |-> <<>>, lo |-> 0, los |-> "", hi |-> 0, his |-> "", none |-> FALSE, d |-> "0.0"],
  [o |-> "sens_forw", k |-> "bool", v |-> <<>>, lo |-> 0, los |-> "", hi |-> 0, his |-> "", none |-> FALSE, d |-> "True"],
  [o |-> "sens_adj", k |-> "bool", v |-> <<>>, lo |-> 0, los |-> "", hi |-> 0, his |-> "", none |-> FALSE, d |-> "False"],
  [o |-> "sens_algebraic", k |-> "bool", v |-> <<>>, lo |-> 0, los |-> "", hi |-> 0, his |-> "", none |-> FALSE, d |-> "False"],
  [o |-> "sens_hess", k |-> "bool", v |-> <<>>, lo |-> 0, los |-> "", hi |-> 0, his |-> "", none |-> FALSE, d |-> "False"],
  [o |-> "output_z", k |-> "bool", v |-> <<>>, lo |-> 0, los |-> "", hi |-> 0, his |-> "", none |-> FALSE, d |-> "True"],
  [o |-> "with_batch_functionality", k |-> "bool", v |-> <<>>, lo |-> 0, los |-> "", hi |-> 0, his |-> "", none |-> FALSE, d |-> "False"],
  [o |-> "ext_fun_expand_dyn", k |-> "bool", v |-> <<>>, lo |-> 0, los |-> "", hi |-> 0, his |-> "", none |-> FALSE, d |-> "False"],
  [o |-> "sens_forw_p", k |-> "bool", v |-> <<>>, lo |-> 0, los |-> "", hi |-> 0, his |-> "", none |-> FALSE, d |-> "False"],
  [o |-> "sim_method_jac_reuse", k |-> "int", v |-> <<>>, lo |-> 0, los |-> "", hi |-> 1, his |-> "", none |-> FALSE, d |-> "0.0"],
  [o |-> "T", k |-> "number", v |-> <<>>, lo |-> 0, los |-> "", hi |-> 0, his |-> "", none |-> FALSE, d |-> "None"],
  [o |-> "ext_fun_compile_flags", k |-> "str", v |-> <<>>, lo |-> 0, los |-> "", hi |-> 0, his |-> "", none |-> FALSE, d |-> "*"]
>>
CodeGenTable == <<
  [o |-> "ext_fun_expand_constr", k |-> "bool", v |-> <<>>, lo |-> 0, los |-> "", hi |-> 0, his |-> "", none |-> FALSE, d |-> "False"],
  [o |-> "ext_fun_expand_cost", k |-> "bool", v |-> <<>>, lo |-> 0, los |-> "", hi |-> 0, his |-> "", none |-> FALSE, d |-> "False"],
  [o |-> "ext_fun_expand_dyn", k |-> "bool", v |-> <<>>, lo |-> 0, los |-> "", hi |-> 0, his |-> "", none |-> FALSE, d |-> "False"],
  [o |-> "ext_fun_expand_precompute", k |-> "bool", v |-> <<>>, lo |-> 0, los |-> "", hi |-> 0, his |-> "", none |-> FALSE, d |-> "False"],
  [o |-> "with_solution_sens_wrt_params", k |-> "bool", v |-> <<>>, lo |-> 0, los |-> "", hi |-> 0, his |-> "", none |-> FALSE, d |-> "False"],
  [o |-> "with_solution_sens_wrt_params_forw", k |-> "bool", v |-> <<>>, lo |-> 0, los |-> "", hi |-> 0, his |-> "", none |-> FALSE, d |-> "False"],
  [o |-> "with_solution_sens_wrt_params_adj", k |-> "bool", v |-> <<>>, lo |-> 0, los |-> "", hi |-> 0, his |-> "", none |-> FALSE, d |-> "False"],
  [o |-> "with_value_sens_wrt_params", k |-> "bool", v |-> <<>>, lo |-> 0, los |-> "", hi |-> 0, his |-> "", none |-> FALSE, d |-> "False"],
  [o |-> "generate_hess", k |-> "bool", v |-> <<>>, lo |-> 0, los |-> "", hi |-> 0, his |-> "", none |-> FALSE, d |-> "False"],
  [o |-> "sens_forw_p", k |-> "bool", v |-> <<>>, lo |-> 0, los |-> "", hi |-> 0, his |-> "", none |-> FALSE, d |-> "False"],
  [o |-> "ext_fun_compile_flags", k |-> "str", v |-> <<>>, lo |-> 0, los |-> "", hi |-> 0, his |-> "", none |-> FALSE, d |-> "*"],
  [o |-> "model_external_shared_lib_dir", k |-> "str", v |-> <<>>, lo |-> 0, los |-> "", hi |-> 0, his |-> "", none |-> FALSE, d |-> "None"]
>>
Table == [ocp |-> OcpTable, qp |-> QpTable, sim |-> SimTable, codegen |-> CodeGenTable]
=============================================================================
