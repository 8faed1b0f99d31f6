#!/usr/bin/env python3
"""writes properties.jsonl: the properties are authored here, one call per property"""
import json
import os

P = []


def prop(id, title, statement, over, qtext, why, files, mechanism, state=(), observe=None):
    assert len(title) <= 80, title
    a = {"files": files, "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
         "mechanism": [dict(zip(("name", "where"), m)) for m in mechanism]}
    if observe:
        a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})


T = "interfaces/acados_template/acados_template/"
C = "acados/ocp_nlp/"

prop("C01", "An SQP solve stops for the reason it reports",
     "A call of the SQP solver iterates until the first of: a residual that is not a number, all four residuals below "
     "their tolerances, a step below the minimum step norm, the iteration limit, a failed QP, and it returns the status "
     "of exactly that reason (0, 1, 2, 3, 4). The iteration count, number of QPs, statistics table, stored iterates, final "
     "residuals and cost describe the iterate that is returned. Options changed between calls take effect in the next "
     "call, and nothing of an earlier call (warm start level, step length, counters, temporary option overrides) leaks into a later one.",
     ["histories", "inputs", "configurations"],
     "every sequence of solve calls, problem data, initial guess, QP solver answer (including failures and NaN) and option setting",
     "The tests solve a handful of fixed problems to success; failures of the QP solver at a chosen iteration, NaN, exact ties "
     "of residual and tolerance and option changes between calls never occur in them.",
     [C + "ocp_nlp_sqp.c", C + "ocp_nlp_common.c", C + "ocp_nlp_globalization_fixed_step.c", C + "ocp_nlp_globalization_merit_backtracking.c"],
     [["termination decision", C + "ocp_nlp_sqp.c:check_termination"], ["main loop", C + "ocp_nlp_sqp.c:ocp_nlp_sqp"]],
     [["statistics table", "one row per iterate", C + "ocp_nlp_sqp.h"], ["iterates", "stored iterates of a call", C + "ocp_nlp_common.h"]])

prop("C02", "A reported solution satisfies the optimality conditions of the user's problem",
     "When a solver reports success, the primal and dual variables it returns satisfy, up to the requested tolerances, the "
     "optimality conditions (stationarity, dynamics, bounds, complementarity, signs of multipliers) of the optimal control "
     "problem as the user formulated it. This holds for every combination of cost type, constraint type, "
     "soft constraint, horizon with varying stage data and discretization, and the reported cost equals the documented objective at that point.",
     ["inputs", "configurations"],
     "every supported problem formulation: cost and constraint modules per initial, path and terminal stage, slack penalties, masks of infinite bounds, integer problem data",
     "The tests compare one problem with one reference solution; the formulation space (which bound carries which slack, "
     "which stage has which module) is combinatorial.",
     [C + "ocp_nlp_common.c", C + "ocp_nlp_cost_ls.c", C + "ocp_nlp_cost_nls.c", C + "ocp_nlp_cost_external.c", C + "ocp_nlp_cost_conl.c",
      C + "ocp_nlp_constraints_bgh.c", C + "ocp_nlp_constraints_bgp.c", C + "ocp_nlp_dynamics_disc.c", C + "ocp_nlp_dynamics_cont.c", T + "acados_ocp.py"],
     [["linearization", C + "ocp_nlp_common.c:ocp_nlp_approximate_qp_matrices"], ["residuals", C + "ocp_nlp_common.c:ocp_nlp_res_compute"],
      ["code generation", T + "c_templates_tera/acados_solver.in.c"]])

prop("C03", "Real-time iteration: preparation then feedback is one SQP step",
     "Calling the preparation phase and then the feedback phase with a new initial state gives exactly the iterate that one full "
     "real-time iteration, and one full SQP step, gives from the same point. The feedback phase uses the initial-state bounds "
     "set after the preparation, and the linearization of the preparation, and a sequence of phases yields the status and statistics documented for each.",
     ["histories", "schedules"],
     "every order of phase calls, data updates between the phases, and initial points",
     "Tests run one closed loop with one phase order and compare trajectories to a few digits.",
     [C + "ocp_nlp_sqp_rti.c", C + "ocp_nlp_common.c"],
     [["phases", C + "ocp_nlp_sqp_rti.c:ocp_nlp_sqp_rti_preparation_step, ocp_nlp_sqp_rti_feedback_step"]])

prop("C04", "Globalization accepts only steps its criterion allows",
     "With merit backtracking the accepted step length is the first in the sequence 1, r, r^2, ... that gives the sufficient "
     "decrease of the merit function (or the last one tried at the minimum), the merit weights follow their documented update, and the fixed-step rule takes exactly the "
     "configured step length. With the funnel every accepted step satisfies the funnel conditions and the funnel width never grows. "
     "The rules do not depend on what was solved before the call.",
     ["inputs", "histories"],
     "every sequence of QP answers and iterates reaching the line search, every setting of the line search options",
     "Line search decisions are internal; the tests only see that a few problems converge.",
     [C + "ocp_nlp_globalization_merit_backtracking.c", C + "ocp_nlp_globalization_funnel.c", C + "ocp_nlp_globalization_fixed_step.c", C + "ocp_nlp_globalization_common.c"],
     [["line search", C + "ocp_nlp_globalization_merit_backtracking.c"], ["funnel", C + "ocp_nlp_globalization_funnel.c"]],
     [["weights", "merit function weights", C + "ocp_nlp_common.h"], ["funnel width", "current width", C + "ocp_nlp_globalization_funnel.h"]])

prop("C05", "The QP back end does not change the answer",
     "For a given problem, the solution the solver reports does not depend on the QP solver, on full or partial condensing and its block sizes, on the QP scaling, "
     "on the Riccati variant or on the level of warm starting: only on the problem. Multipliers are reported in the user's constraint order and scaling.",
     ["configurations", "inputs"],
     "every QP solver of the build, condensing horizon, block size vector, scaling choice and problem with bounds, general and soft constraints",
     "The tests use one QP solver and one condensing setting per problem.",
     ["acados/ocp_qp/ocp_qp_partial_condensing.c", "acados/ocp_qp/ocp_qp_full_condensing.c", "acados/ocp_qp/ocp_qp_xcond_solver.c", C + "ocp_nlp_qpscaling.c"],
     [["condensing", "acados/ocp_qp/ocp_qp_partial_condensing.c"], ["scaling", C + "ocp_nlp_qpscaling.c"]])

prop("C06", "What is set is what is read back, and nothing else changes",
     "Every numerical field of a solver object (trajectories, multipliers, bounds, references, weights, parameters) is a store of its own per stage: "
     "reading a field returns the value last written to it by any setter, stage-wise or flat, and writing one field changes no other field or stage. "
     "A write with a wrong field, stage or shape is rejected and changes nothing.",
     ["histories", "inputs"],
     "every sequence of writes and reads over all fields, stages and dimensions",
     "Tests write a few fields and look at solutions; aliasing and offset errors show only for particular dimension combinations.",
     ["interfaces/acados_c/ocp_nlp_interface.c", T + "acados_ocp_solver.py", C + "ocp_nlp_common.c"],
     [["C setters and getters", "interfaces/acados_c/ocp_nlp_interface.c"], ["Python access", T + "acados_ocp_solver.py"]])

prop("C07", "Saved iterates are restored exactly",
     "Storing an iterate to a file, dictionary, flat vector or object and loading it back restores every primal, slack and dual variable of every stage exactly, "
     "for every horizon length and every combination of dimensions including empty ones. Conversions between the representations lose and reorder nothing, and an iterate of another shape is refused.",
     ["inputs", "histories"],
     "every horizon and stage-wise dimension pattern, every chain of conversions between file, dictionary, flat, object and solver",
     "Tests round-trip one iterate of one problem; zero-padded stage keys, empty fields and varying dimensions are not reached.",
     [T + "acados_ocp_iterate.py", T + "acados_ocp_solver.py", T + "acados_casadi_ocp_solver.py"],
     [["iterate classes", T + "acados_ocp_iterate.py"], ["store and load", T + "acados_ocp_solver.py"]])

prop("C08", "Parameters act exactly at the stages where they are set",
     "Stage parameters set for a stage influence the cost, dynamics and constraints of that stage only, partial updates change only the listed entries, and global parameters "
     "influence all stages. What the solver computes after any sequence of parameter updates equals what a fresh solver with the final values computes.",
     ["histories", "inputs"],
     "every sequence of full, sparse and flat parameter updates and solver calls",
     "Tests set all parameters once to the same value.",
     ["interfaces/acados_c/ocp_nlp_interface.c", "acados/utils/external_function_generic.c", T + "acados_ocp_solver.py", T + "c_templates_tera/acados_solver.in.c"],
     [["parameter memory", "acados/utils/external_function_generic.c"], ["setters", T + "acados_ocp_solver.py:set_params_sparse"]])

prop("C09", "Integrators integrate the model and differentiate what they integrate",
     "Explicit and implicit integrators return the value their Butcher scheme prescribes for the model over the whole interval, for every number of stages and steps, "
     "and the forward, adjoint and second-order sensitivities are the derivatives of exactly that value. Algebraic variables are those of the documented point, and results do not depend on earlier calls beyond the initial guess.",
     ["inputs", "configurations", "histories"],
     "every polynomial model in the class, step and stage count, time step, seed, and sequence of simulation calls",
     "Tests compare a trajectory of one model with a reference of a few digits, too coarse to see a wrong weight in a sensitivity.",
     ["acados/sim/sim_erk_integrator.c", "acados/sim/sim_irk_integrator.c", "acados/sim/sim_lifted_irk_integrator.c", "acados/sim/sim_gnsf.c", "acados/sim/sim_common.c", T + "acados_sim_solver.py"],
     [["ERK", "acados/sim/sim_erk_integrator.c"], ["IRK", "acados/sim/sim_irk_integrator.c"]])

prop("C10", "A batch solver does what its solvers do one after another",
     "For every batch size, number of threads and number of active entries, solving, simulating, and setting or getting flat data in a batch gives for each active entry exactly what the single solver gives from the same state, "
     "and leaves the inactive entries untouched.",
     ["schedules", "histories", "configurations"],
     "every batch size, active count, thread count and sequence of batch operations",
     "Tests compare one batch size on one problem, sequential timing included.",
     [T + "acados_ocp_batch_solver.py", T + "acados_sim_batch_solver.py", T + "c_templates_tera/acados_solver.in.c"],
     [["batch calls", T + "acados_ocp_batch_solver.py"]])

prop("C11", "A multi-phase problem is the concatenation of its phases",
     "A multi-phase problem assigns each phase's model, cost, constraints and options to exactly the documented stages, with the terminal stage taken from the last phase and the initial stage from the first. "
     "When all phases carry the same data, the result is that of the equivalent single-phase problem.",
     ["configurations", "inputs"],
     "every list of phase lengths (with and without transition stages) and assignment of data to phases",
     "Tests have one phase pattern.",
     [T + "acados_multiphase_ocp.py", T + "c_templates_tera/acados_multi_solver.in.c"],
     [["stage assignment", T + "acados_multiphase_ocp.py:make_consistent"]])

prop("C12", "The CasADi translation of a problem is the same problem",
     "The nonlinear program handed to a CasADi solver has the objective, constraints, bounds, parameters and Hessian of the optimal control problem the user wrote, variable for variable and stage for stage, "
     "and the CasADi solver's reading and writing of states, controls, slacks and multipliers follows the same order and sign convention as the native solver. Reading back what was written returns it.",
     ["inputs", "configurations", "histories"],
     "every formulation the translation accepts and every point at which it is evaluated, every sequence of sets and gets",
     "The tests solve one or two problems with both solvers and compare the primal solution only.",
     [T + "acados_casadi_ocp.py", T + "acados_casadi_ocp_solver.py"],
     [["translation", T + "acados_casadi_ocp.py"], ["data access", T + "acados_casadi_ocp_solver.py"]],
     [["index map", "where each stage's entries sit in the flat vectors", T + "acados_casadi_ocp.py:index_map"]])

prop("C13", "Inconsistent problem descriptions are rejected, consistent ones completed",
     "A problem description whose data contradict each other in dimension, index range, duplicated index, sign or type is refused with an error before a solver is built. "
     "A consistent description is accepted, its dimensions are derived from the data, and documented defaults for initial and terminal stage and slack data are filled in without changing what the user gave.",
     ["inputs", "configurations"],
     "every assignment of the constraint, cost and slack fields in small dimensions, each with every single inconsistency",
     "Tests build consistent problems.",
     [T + "acados_ocp.py", T + "acados_ocp_constraints.py", T + "acados_ocp_cost.py", T + "acados_model.py", T + "acados_dims.py"],
     [["consistency check", T + "acados_ocp.py:make_consistent"]])

prop("C14", "A problem description survives its JSON file",
     "Writing a problem description to its JSON file and reading it back gives a description with the same numerical data, options, dimensions and symbolic model, for which writing again gives the same file. "
     "Equality of descriptions is decided by their content.",
     ["inputs", "configurations"],
     "every formulation and option set that can be dumped",
     "Tests dump one problem.",
     [T + "acados_ocp.py", T + "acados_model.py", T + "acados_ocp_options.py", T + "acados_ocp_cost.py", T + "acados_ocp_constraints.py", T + "utils.py"],
     [["dump and load", T + "acados_ocp.py:dump_to_json, from_json"]])

prop("C15", "A stage-structured QP object means the same QP in every representation",
     "A QP object keeps the data set for each stage, derives its dimensions from them and rejects inconsistent data; storing it to JSON and back, and handing it to the native or the CasADi QP solver, preserves the QP: "
     "objective, dynamics, bounds, general and soft constraints, and masks. The solution of each QP solver satisfies the optimality conditions of the stored QP, with multipliers in the documented order and sign.",
     ["inputs", "configurations"],
     "every small QP with integer data, slack assignment, masks and equalities",
     "Tests solve a few dumped QPs.",
     [T + "acados_ocp_qp.py", T + "acados_ocp_qp_solver.py", T + "acados_casadi_ocp_qp.py", T + "acados_casadi_ocp_qp_solver.py"],
     [["container", T + "acados_ocp_qp.py"], ["CasADi form", T + "acados_casadi_ocp_qp.py"]])

prop("C16", "Regularization returns the positive definite matrix it promises",
     "Each Hessian regularization turns the stage Hessians of a problem into positive (semi)definite ones in its documented way (projection, mirroring, convexification, Gershgorin), changes nothing that already satisfies its bound, "
     "and is undone in the multipliers so that they are multipliers of the unregularized problem.",
     ["inputs"],
     "every symmetric integer Hessian of small size and every regularization setting",
     "Tests run one indefinite problem per method and only watch convergence.",
     [C + "ocp_nlp_reg_project.c", C + "ocp_nlp_reg_mirror.c", C + "ocp_nlp_reg_convexify.c", C + "ocp_nlp_reg_project_reduc_hess.c", C + "ocp_nlp_reg_glm.c", "acados/utils/math.c"],
     [["eigenvalue handling", "acados/utils/math.c:acados_project, acados_mirror"]])

prop("C17", "A reset or a repeated solve does not depend on history",
     "After a reset and setting the same data, a solver returns the same result, statistics and status as a freshly created one, whatever was done with it before. "
     "Running the same sequence of calls twice, in one process or in two, gives identical results.",
     ["histories"],
     "every history of solves, failures and option changes before the reset",
     "Tests never look at a solver after a failure.",
     [T + "c_templates_tera/acados_solver.in.c", C + "ocp_nlp_common.c", T + "acados_ocp_solver.py"],
     [["reset", T + "c_templates_tera/acados_solver.in.c:reset"]])

prop("C18", "Time steps and cost scaling weight each stage as documented",
     "The horizon, its shooting nodes and time steps agree with one another however the user gives them, each stage's dynamics are integrated over that stage's time step, "
     "and each stage's cost is weighted by its time step unless the user scales it explicitly. Changing time steps or scaling at run time has the effect of building the solver with the new values.",
     ["inputs", "histories", "configurations"],
     "every horizon grid given by time steps, shooting nodes or end time, with and without explicit scaling, changed in every order",
     "Tests use uniform grids.",
     [T + "acados_ocp.py", T + "acados_ocp_solver.py", T + "c_templates_tera/acados_solver.in.c", T + "acados_ocp_options.py"],
     [["grid", T + "acados_ocp.py"], ["run-time change", T + "acados_ocp_solver.py:set_new_time_steps"]])

prop("C19", "Problem reformulations describe the same objective and feasible set",
     "The reformulation helpers (rewriting one cost type as another, turning constraints into quadratic or Huber penalties, building the feasibility problem, "
     "merging move-blocked controls, detecting bounds and linear constraints) produce a problem whose objective and feasible set at every point are those documented in terms of the original problem. They leave the original's meaning intact where they copy.",
     ["inputs", "configurations"],
     "every cost and constraint formulation in the class, at every integer point",
     "Tests check the helpers on one problem each, or only plot them.",
     [T + "acados_ocp.py", T + "penalty_utils.py", T + "mpc_utils.py"],
     [["cost conversion", T + "acados_ocp.py:translate_cost_to_external_cost"], ["penalties", T + "penalty_utils.py"], ["structure detection", T + "mpc_utils.py:detect_constraint_structure"]])

prop("C20", "A structure-exploiting model equals the model it was derived from",
     "When the structure of a dynamic system is detected, the structured form (linear output part, nonlinear part, permutation) describes the same implicit dynamics as the original model at every point, "
     "and the integrator built on it returns what the implicit integrator returns on the original model.",
     ["inputs", "programs"],
     "every model in a class of sparse polynomial implicit models, with and without algebraic variables",
     "Tests detect the structure of one or two models.",
     [T + "gnsf.py", "acados/sim/sim_gnsf.c"],
     [["detection", T + "gnsf.py"]])

prop("C23", "A parameter manager is a faithful store of named parameters per stage",
     "Values set for a named parameter at a stage are those read back, flattened and handed to the solver, for exactly the stages addressed; other parameters and stages keep their values, defaults apply where nothing was set, "
     "and changing the horizon keeps what was set for the stages that remain.",
     ["histories", "inputs"],
     "every sequence of adding, setting, reading, and resizing",
     "There is one example.",
     [T + "acados_param_manager.py"],
     [["store", T + "acados_param_manager.py"]])

prop("C25", "The problem evaluator computes the documented objective and violations",
     "The evaluator of a problem returns, for every point, parameter and stage, the cost, constraint values and violations that the problem description defines, "
     "and its closed-loop accumulation and the cost-state model agree with that cost.",
     ["inputs", "configurations"],
     "every formulation in the class and every evaluation point",
     "There is one example that compares one number.",
     [T + "mpc_utils.py"],
     [["evaluator", T + "mpc_utils.py"]])

prop("C26", "Option values are validated when they are set",
     "Every solver option accepts exactly its documented values and refuses others with an error that leaves the option unchanged, and an accepted value is the one the solver is generated with. "
     "Options which may change at run time take effect in the next call.",
     ["inputs", "histories"],
     "every option and every candidate value of every type, in any order",
     "Tests set valid options.",
     [T + "acados_ocp_options.py", T + "acados_sim.py", T + "acados_code_gen_options.py"],
     [["setters", T + "acados_ocp_options.py"]])

prop("C21", "DDP and feasible-QP solvers solve the same problem as SQP",
     "The differential dynamic programming solver and the SQP solver with feasible QPs stop for the reason they report, return only iterates that meet the convergence conditions they claim, "
     "and follow their documented rollout, relaxation and step acceptance rules. On problems both accept they agree with the SQP solver on the solution.",
     ["histories", "inputs"],
     "every unconstrained (DDP) or possibly infeasible (feasible QP) problem in the class, initial point and option setting",
     "Tests run one problem each.",
     [C + "ocp_nlp_ddp.c", C + "ocp_nlp_sqp_with_feasible_qp.c"],
     [["DDP loop", C + "ocp_nlp_ddp.c:ocp_nlp_ddp"], ["relaxed QPs", C + "ocp_nlp_sqp_with_feasible_qp.c"]])

prop("C24", "Zero-order robust MPC propagates uncertainty and tightens as documented",
     "The uncertainty matrices follow the documented propagation over the horizon for every feedback mode, and exactly the selected bounds of each stage are tightened by the documented back-off, "
     "all others keep the values the user set. The update's data layout is the concatenation the description announces.",
     ["inputs", "configurations"],
     "every selection of tightened constraints, small system, disturbance and initial covariance, and sequence of updates",
     "There are two examples.",
     [T + "zoro_description.py", T + "custom_update_templates/custom_update_function_zoro_template.in.c"],
     [["update", T + "custom_update_templates/custom_update_function_zoro_template.in.c"]])

prop("C27", "Generated functions evaluate the user's expressions and their derivatives",
     "Every external function generated for a model, cost or constraint returns, at every point, the user's expression and exactly the derivatives its consumers expect (orientation, order of variables, weighting), "
     "for symbolic types, vector parameters and empty dimensions alike.",
     ["inputs", "configurations", "programs"],
     "every polynomial expression in the class, every module type and stage",
     "Tests exercise these through whole solves, where a transposed block of a symmetric problem is invisible.",
     [T + "casadi_function_generation.py", "acados/utils/external_function_generic.c"],
     [["generation", T + "casadi_function_generation.py"]])

if __name__ == "__main__":
    with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    print(len(P), "properties")
