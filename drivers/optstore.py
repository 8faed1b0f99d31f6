"""Histories of assignments to the option objects, and what a generated solver hands to the library (C26)."""
import ctypes
import inspect
import math
import os
import random
import struct
import warnings

import numpy as np

from drivers.common import main, make_solver, quiet

NAMES = ['PARTIAL_CONDENSING_HPIPM', 'FULL_CONDENSING_QPOASES', 'FULL_CONDENSING_HPIPM', 'PARTIAL_CONDENSING_QPDUNES', 'PARTIAL_CONDENSING_OSQP',
         'PARTIAL_CONDENSING_CLARABEL', 'FULL_CONDENSING_DAQP', 'BALANCE', 'SPEED_ABS', 'SPEED', 'ROBUST', 'GAUSS_NEWTON', 'EXACT', 'ERK', 'IRK', 'GNSF',
         'DISCRETE', 'LIFTED_IRK', 'SQP', 'SQP_RTI', 'DDP', 'SQP_WITH_FEASIBLE_QP', 'FIXED_STEP', 'MERIT_BACKTRACKING', 'FUNNEL_L1PEN_LINESEARCH',
         'GAUSS_RADAU_IIA', 'GAUSS_LEGENDRE', 'EXPLICIT_RUNGE_KUTTA', 'NO_REGULARIZE', 'MIRROR', 'PROJECT', 'PROJECT_REDUC_HESS', 'CONVEXIFY',
         'GERSHGORIN_LEVENBERG_MARQUARDT', 'NO_OBJECTIVE_SCALING', 'OBJECTIVE_GERSHGORIN', 'NO_CONSTRAINT_SCALING', 'INF_NORM', 'ADAPTIVE_CURRENT_RES_JOINT',
         'ADAPTIVE_QPSCALING', 'FIXED_QP_TOL', 'MAX_CALL', 'MAX_OVERALL', 'LAST', 'AVERAGE', 'ZERO', 'EULER', 'INTEGRATOR', 'NOMINAL_QP', 'BYRD_OMOJOKUN', 'FEASIBILITY_QP']
FLOATS = [-1e3, -1.0, -1e-9, 0.0, 1e-17, 1e-12, 1e-9, 1e-6, 1e-4, 1e-3, 0.05, 0.1, 0.3, 0.7, 0.9, 1 - 1e-9, 1.0, 1.00001, 1.5, 2.0, 5.0, 15.0, 1e5, 1e7]
INTS = [-7, -1, 0, 1, 2, 3, 4, 5, 17]


def tok(v):
    if isinstance(v, (bool, np.bool_)):
        return str(bool(v))
    if v is None:
        return "None"
    if isinstance(v, str):
        return "'%s'" % v
    if isinstance(v, (int, float, np.integer, np.floating)):
        return repr(float(v))
    if isinstance(v, np.ndarray):
        return "array" + repr(v.astype(float).tolist())
    if isinstance(v, (list, tuple)):
        return type(v).__name__ + repr([tok(x) for x in v])
    return repr(type(v))


def sgn(x):
    return -1 if x < 0 else 1 if x > 0 else 0


def describe(v):
    r = {"t": "other", "tok": tok(v), "c0": 0, "c1": 0, "n": 0, "s": "", "whole": False}
    if isinstance(v, (bool, np.bool_)):
        r.update(t="bool", c0=sgn(int(v)), c1=sgn(int(v) - 1), n=int(v))
    elif isinstance(v, (int, np.integer)):
        r.update(t="int", c0=sgn(v), c1=sgn(int(v) - 1), n=int(v), whole=True)
    elif isinstance(v, float):
        if math.isnan(v):
            r["t"] = "nan"
        else:
            w = abs(v) < 1e6 and v == int(v)
            r.update(t="inf" if math.isinf(v) else "float", c0=sgn(v), c1=sgn(v - 1), n=int(v) if w else 0, whole=w)
    elif isinstance(v, str):
        r.update(t="str", s=v)
    elif v is None:
        r["t"] = "none"
    elif isinstance(v, list):
        if not v:
            r["t"] = "emptylist"
        elif all(isinstance(x, int) and not isinstance(x, bool) for x in v):
            r.update(t="intlist", n=min(v))
        else:
            r["t"] = "list"
    elif isinstance(v, np.ndarray):
        r["t"] = "array"
    return r


def options(cls):
    return [n for n, p in inspect.getmembers(cls, lambda v: isinstance(v, property)) if p.fset is not None]


def read(obj, names):
    out = {}
    for n in names:
        try:
            out[n] = tok(getattr(obj, n))
        except Exception as e:
            out[n] = "unreadable: " + type(e).__name__
    return out


def candidate(rng, cur):
    """mostly of the type of the current value"""
    k = rng.random()
    if k < .75:
        if isinstance(cur, bool):
            return rng.choice([True, False])
        if isinstance(cur, str):
            return rng.choice(NAMES)
        if isinstance(cur, float) or cur is None and rng.random() < .5:
            return rng.choice(FLOATS)
        if isinstance(cur, int):
            return rng.choice(INTS)
    return rng.choice([rng.choice(FLOATS), rng.choice(FLOATS), rng.choice(INTS), True, False, None, float("nan"), float("inf"), -float("inf"), rng.choice(NAMES), "", "abc",
                       [], [1, 2], [0, 3, 1], [1, -1], [1.5, 2.5], ["a"], np.array([1., 2.]), np.array([0, 2, 3]), np.float64(rng.choice(FLOATS)), (1, 2), {}])


PATHY = {"acados_include_path", "acados_lib_path", "json_file", "code_export_directory", "casadi_code_gen_options", "model_external_shared_lib_name", "custom_templates", "tf", "Tsim"}


def classes():
    from acados_template import AcadosOcpOptions, AcadosSim
    from acados_template.acados_ocp_options import AcadosOcpQpOptions
    from acados_template.acados_code_gen_options import AcadosCodeGenOptions
    return {"ocp": AcadosOcpOptions, "qp": AcadosOcpQpOptions, "sim": lambda: AcadosSim().solver_options, "codegen": AcadosCodeGenOptions}


def ranks():
    pool = set(FLOATS) | set(float(x) for x in INTS) | {50.0, 100.0, 1e-10, 1e-11, 1e-16, 1e-8, 10.0, 1e4}
    return {repr(float(v)): k for k, v in enumerate(sorted(pool))}


def history(rng, tid, n, which):
    mk = classes()[which]
    obj = mk()
    names = [x for x in options(type(obj)) if x not in PATHY]
    init = read(obj, names)
    ev = [{"op": "new", "all": init}]
    order = rng.sample(names, len(names)) if n >= len(names) else []
    for k in range(n):
        o = order[k] if k < len(order) else rng.choice(names)
        v = candidate(rng, getattr(obj, o) if not init[o].startswith("unread") else None)
        via = rng.random()
        try:
            if which == "ocp" and via < .2:
                obj.set(o, v)
            else:
                setattr(obj, o, v)
            ok = True
        except Exception:
            ok = False
        ev.append({"op": "set", "o": o, "v": describe(v), "ok": ok, "all": read(obj, names)})
    rk = ranks()
    for e in ev:
        for t in [x for x in e["all"].values()]:
            try:
                rk.setdefault(t, None) if t.replace(".", "").replace("-", "").replace("e", "").isdigit() else None
            except Exception:
                pass
    vals = sorted({float(t) for t in rk} | {float("inf"), -float("inf")})
    rk = {repr(v): i for i, v in enumerate(vals)}
    rk["True"] = rk["1.0"]
    rk["False"] = rk["0.0"]
    return {"tid": tid, "cls": which, "init": init, "rank": rk, "ev": ev}


# ------------------------------------------------------------------ generated solvers
DBL, INT, BOOL = "d", "i", "b"
KIND = {}
for f in ("globalization_fixed_step_length globalization_alpha_min globalization_alpha_reduction globalization_eps_sufficient_descent globalization_funnel_init_increase_factor "
          "globalization_funnel_init_upper_bound globalization_funnel_sufficient_decrease_factor globalization_funnel_kappa globalization_funnel_fraction_switching_condition "
          "globalization_funnel_initial_penalty_parameter solution_sens_qp_t_lam_min levenberg_marquardt reg_epsilon reg_max_cond_block reg_min_epsilon tol_min_step_norm qp_mu0 tau_min "
          "byrd_omojokon_slack_relaxation_factor tol_stat tol_eq tol_ineq tol_comp adaptive_levenberg_marquardt_lam adaptive_levenberg_marquardt_mu_min adaptive_levenberg_marquardt_mu0 "
          "adaptive_levenberg_marquardt_obj_scalar qpscaling_ub_max_abs_eig qpscaling_lb_norm_inf_grad_obj nlp_qp_tol_reduction_factor nlp_qp_tol_safety_factor nlp_qp_tol_min_stat "
          "nlp_qp_tol_min_eq nlp_qp_tol_min_ineq nlp_qp_tol_min_comp timeout_max_time anderson_activation_threshold qp_tol_stat qp_tol_eq qp_tol_ineq qp_tol_comp dynamics_newton_tol").split():
    KIND[f] = DBL
for f in ("globalization_line_search_use_sufficient_descent globalization_use_SOC globalization_full_step_dual exact_hess_dyn exact_hess_cost exact_hess_constr fixed_hess ext_qp_res max_iter "
          "qp_t0_init as_rti_iter as_rti_level rti_log_residuals rti_log_only_available_residuals qp_iter_max qp_warm_start print_level qp_cond_ric_alg qp_ric_alg qp_cond_N "
          "dynamics_num_steps dynamics_num_stages dynamics_newton_iter rti_phase").split():
    KIND[f] = INT
for f in ("globalization_funnel_use_merit_fun_only reg_adaptive_eps store_iterates use_constraint_hessian_in_feas_qp allow_direction_mode_switch_to_nominal with_adaptive_levenberg_marquardt "
          "eval_residual_at_max_iter with_anderson_acceleration").split():
    KIND[f] = BOOL
for f in "warm_start_first_qp warm_start_first_qp_from_nlp log_primal_step_norm log_dual_step_norm".split():
    KIND[f] = "ib"          # an int that is a truth value
KIND["dynamics_jac_reuse"] = "bi"
ENUMS = {"search_direction_mode": ('NOMINAL_QP', 'BYRD_OMOJOKUN', 'FEASIBILITY_QP'), "qpscaling_scale_objective": ('NO_OBJECTIVE_SCALING', 'OBJECTIVE_GERSHGORIN'),
         "qpscaling_scale_constraints": ('NO_CONSTRAINT_SCALING', 'INF_NORM'), "nlp_qp_tol_strategy": ('FIXED_QP_TOL', 'ADAPTIVE_CURRENT_RES_JOINT', 'ADAPTIVE_QPSCALING'),
         "timeout_heuristic": ('MAX_CALL', 'MAX_OVERALL', 'LAST', 'AVERAGE', 'ZERO'), "dynamics_collocation_type": ('GAUSS_LEGENDRE', 'GAUSS_RADAU_IIA', 'EXPLICIT_RUNGE_KUTTA')}


class Log:
    def __init__(self, prefix):
        L = self.L = ctypes.CDLL(os.path.join(prefix, "lib", "liboptlog.so"), mode=ctypes.RTLD_GLOBAL)
        L.optlog_field.restype = ctypes.c_char_p
        L.optlog_raw.restype = ctypes.POINTER(ctypes.c_ubyte * 512)

    def enum(self, names, v):
        for n in names:
            if self.L.optlog_enum(n.encode()) == v:
                return "'%s'" % n
        return "unknown %d" % v

    def decode(self, f, raw, blocks=0):
        if f in ENUMS:
            return self.enum(ENUMS[f], struct.unpack("i", raw[:4])[0])
        k = KIND.get(f)
        if k == DBL:
            return repr(struct.unpack("d", raw[:8])[0])
        if k == INT:
            return repr(float(struct.unpack("i", raw[:4])[0]))
        if k == BOOL:
            return str(bool(raw[0]))
        if k == "ib":
            return str(bool(struct.unpack("i", raw[:4])[0]))
        if k == "bi":
            return repr(float(bool(raw[0])))
        if f == "qp_hpipm_mode":
            return "'%s'" % raw[:raw.index(0)].decode()
        if f == "qp_cond_block_size":
            return "list" + repr([repr(float(x)) for x in struct.unpack("%di" % blocks, raw[:4 * blocks])])
        return "?"

    def last(self, N, blocks=0):
        glob, stage = {}, [dict() for _ in range(N)]
        for i in range(self.L.optlog_n()):
            f, s = self.L.optlog_field(i).decode(), self.L.optlog_stage(i)
            raw = bytes(self.L.optlog_raw(i).contents)
            v = self.decode(f, raw, blocks)
            if s < 0:
                glob[f] = v
            elif s < N:
                stage[s][f] = v
        return glob, stage


def choose(rng, o, N, multi):
    """an admissible combination of options"""
    F = rng.choice
    s = F(["SQP", "SQP", "SQP_RTI", "DDP", "SQP_WITH_FEASIBLE_QP"]) if not multi else F(["SQP", "SQP", "SQP_RTI"])
    o.nlp_solver_type = s
    o.globalization = F({"SQP": ["FIXED_STEP", "MERIT_BACKTRACKING", "FUNNEL_L1PEN_LINESEARCH"], "SQP_RTI": ["FIXED_STEP"], "DDP": ["FIXED_STEP", "MERIT_BACKTRACKING"],
                         "SQP_WITH_FEASIBLE_QP": ["FIXED_STEP", "FUNNEL_L1PEN_LINESEARCH"]}[s])
    part = s in ("DDP", "SQP_WITH_FEASIBLE_QP") or rng.random() < .7
    o.qp_solver = "PARTIAL_CONDENSING_HPIPM" if part else "FULL_CONDENSING_HPIPM"
    o.hessian_approx = F(["GAUSS_NEWTON", "EXACT"]) if s != "SQP_WITH_FEASIBLE_QP" else "GAUSS_NEWTON"
    o.regularize_method = F(["NO_REGULARIZE", "MIRROR", "PROJECT", "PROJECT_REDUC_HESS", "CONVEXIFY", "GERSHGORIN_LEVENBERG_MARQUARDT"])
    o.hpipm_mode = F(["BALANCE", "SPEED_ABS", "SPEED", "ROBUST"])
    o.integrator_type = "ERK" if multi else F(["ERK", "IRK", "DISCRETE"])
    o.collocation_type = F(["GAUSS_RADAU_IIA", "GAUSS_LEGENDRE"])
    r = lambda lo=1e-9, hi=1.0: round(rng.uniform(lo, hi), 6)
    some = lambda: rng.random() < .6
    for n, g in [("globalization_fixed_step_length", r), ("qpscaling_ub_max_abs_eig", lambda: r(1, 1e4)), ("qpscaling_lb_norm_inf_grad_obj", r), ("nlp_qp_tol_reduction_factor", r),
                 ("nlp_qp_tol_safety_factor", r), ("nlp_qp_tol_min_stat", r), ("nlp_qp_tol_min_eq", r), ("nlp_qp_tol_min_ineq", r), ("nlp_qp_tol_min_comp", r), ("levenberg_marquardt", r),
                 ("sim_method_newton_tol", r), ("qp_solver_tol_stat", r), ("qp_solver_tol_eq", r), ("qp_solver_tol_ineq", r), ("qp_solver_tol_comp", r), ("nlp_solver_tol_stat", r),
                 ("nlp_solver_tol_eq", r), ("nlp_solver_tol_ineq", r), ("nlp_solver_tol_comp", r), ("qp_solver_mu0", r), ("tau_min", r), ("solution_sens_qp_t_lam_min", r),
                 ("anderson_activation_threshold", r), ("adaptive_levenberg_marquardt_lam", lambda: r(1.1, 9)), ("adaptive_levenberg_marquardt_mu_min", r), ("adaptive_levenberg_marquardt_mu0", r),
                 ("adaptive_levenberg_marquardt_obj_scalar", r), ("timeout_max_time", r), ("nlp_solver_tol_min_step_norm", r), ("globalization_alpha_min", r), ("reg_epsilon", r),
                 ("reg_max_cond_block", lambda: r(2, 1e5)), ("reg_min_epsilon", r), ("globalization_alpha_reduction", lambda: r(.1, .9)), ("globalization_eps_sufficient_descent", r),
                 ("globalization_funnel_init_increase_factor", lambda: r(1.1, 20)), ("globalization_funnel_init_upper_bound", r), ("globalization_funnel_sufficient_decrease_factor", lambda: r(.1, .9)),
                 ("globalization_funnel_kappa", lambda: r(.1, .9)), ("globalization_funnel_fraction_switching_condition", lambda: r(.1, .9)), ("globalization_funnel_initial_penalty_parameter", r),
                 ("byrd_omojokon_slack_relaxation_factor", lambda: r(1.0, 2.0)), ("tol", r), ("qp_tol", r)]:
        if rng.random() < (.6 if n not in ("tol", "qp_tol") else .15):
            setattr(o, n, g())
    for n in ("with_adaptive_levenberg_marquardt", "log_primal_step_norm", "log_dual_step_norm", "reg_adaptive_eps", "use_constraint_hessian_in_feas_qp", "allow_direction_mode_switch_to_nominal",
              "globalization_funnel_use_merit_fun_only", "nlp_solver_warm_start_first_qp", "eval_residual_at_max_iter", "store_iterates"):
        if some():
            setattr(o, n, F([True, False]))
    for n, hi in (("qp_solver_warm_start", 3), ("qp_solver_cond_ric_alg", 1), ("qp_solver_ric_alg", 1), ("qp_solver_t0_init", 2), ("globalization_line_search_use_sufficient_descent", 1),
                  ("globalization_use_SOC", 1), ("globalization_full_step_dual", 1), ("nlp_solver_ext_qp_res", 1), ("rti_log_residuals", 1), ("rti_log_only_available_residuals", 1), ("exact_hess_constr", 1),
                  ("exact_hess_cost", 1), ("exact_hess_dyn", 1), ("qp_solver_iter_max", 90), ("as_rti_iter", 5), ("nlp_solver_max_iter", 80), ("print_level", 0), ("sim_method_newton_iter", 7)):
        if some():
            setattr(o, n, rng.randint(1 if hi > 4 else 0, hi))
    if s == "SQP_RTI":
        o.as_rti_level = F([0, 3, 4])
        if o.globalization == "FIXED_STEP" and some():
            o.with_anderson_acceleration = F([True, False])
    else:
        if o.globalization == "FIXED_STEP" and s != "DDP" and some():
            o.with_anderson_acceleration = F([True, False])
        o.qpscaling_scale_objective = F(["NO_OBJECTIVE_SCALING", "OBJECTIVE_GERSHGORIN"])
        o.qpscaling_scale_constraints = F(["NO_CONSTRAINT_SCALING", "INF_NORM"])
        sc = o.qpscaling_scale_objective != "NO_OBJECTIVE_SCALING" or o.qpscaling_scale_constraints != "NO_CONSTRAINT_SCALING"
        o.nlp_qp_tol_strategy = F(["FIXED_QP_TOL", "ADAPTIVE_CURRENT_RES_JOINT"] + ["ADAPTIVE_QPSCALING"] * sc)
        o.timeout_heuristic = F(["MAX_CALL", "MAX_OVERALL", "LAST", "AVERAGE", "ZERO"])
    o.search_direction_mode = F(["NOMINAL_QP", "BYRD_OMOJOKUN", "FEASIBILITY_QP"])
    if part and s != "DDP":
        if rng.random() < .4 and not multi and s != "SQP_WITH_FEASIBLE_QP":
            o.qp_solver_cond_N = rng.randint(1, N)
            if some():
                m = o.qp_solver_cond_N
                cut = sorted(rng.randint(0, N) for _ in range(m))
                bl = [b - a for a, b in zip([0] + cut, cut + [N])]
                o.qp_solver_cond_block_size = bl
    if o.qp_solver == "PARTIAL_CONDENSING_HPIPM" and o.qp_solver_cond_N in (None, N) and o.qp_solver_cond_block_size is None and s != "SQP_WITH_FEASIBLE_QP" and some():
        o.nlp_solver_warm_start_first_qp_from_nlp = F([True, False])
    if o.integrator_type != "DISCRETE" and not multi:
        for n, hi in (("sim_method_num_steps", 4), ("sim_method_num_stages", 4), ("sim_method_jac_reuse", 1)):
            lo = 0 if hi == 1 else 1
            setattr(o, n, F([rng.randint(lo, hi), np.array([rng.randint(lo, hi) for _ in range(N)])]))
            if n == "sim_method_num_stages" and o.integrator_type == "IRK" and o.collocation_type == "GAUSS_RADAU_IIA" and False:
                pass


def problem(rng, N, multi):
    import casadi as ca
    from acados_template import AcadosOcp, AcadosMultiphaseOcp, AcadosModel

    def one(name):
        m = AcadosModel()
        m.name = name
        m.x, m.u = ca.SX.sym("x", 2), ca.SX.sym("u")
        xd = ca.SX.sym("xd", 2)
        m.xdot = xd
        f = ca.vertcat(m.x[1], m.u)
        m.f_expl_expr, m.f_impl_expr, m.disc_dyn_expr = f, xd - f, m.x + .1 * f
        o = AcadosOcp()
        o.model = m
        o.cost.cost_type = o.cost.cost_type_e = "EXTERNAL"
        m.cost_expr_ext_cost = m.x[0]**2 + m.x[1]**2 + m.u**2
        m.cost_expr_ext_cost_e = m.x[0]**2 + m.x[1]**2
        o.constraints.x0 = np.array([1., 0.])
        return o
    if not multi:
        o = one("m")
        o.solver_options.N_horizon = N
        o.solver_options.tf = float(N)
        return o
    mo = AcadosMultiphaseOcp(N_list=[1, N - 1])
    for k in range(2):
        o = one("m%d" % k)
        mo.set_phase(o, k)
    mo.name = "mm"
    mo.solver_options.tf = float(N)
    mo.solver_options.N_horizon = N
    return mo


RUN = {"tol_stat": "d", "tol_eq": "d", "tol_ineq": "d", "tol_comp": "d", "qp_tol_stat": "d", "qp_tol_eq": "d", "qp_tol_ineq": "d", "qp_tol_comp": "d", "levenberg_marquardt": "d", "qp_mu0": "d",
       "tau_min": "d", "print_level": "i", "max_iter": "i", "qp_warm_start": "i", "warm_start_first_qp": "i", "warm_start_first_qp_from_nlp": "b", "globalization_full_step_dual": "i",
       "rti_phase": "i", "as_rti_level": "i"}


def generated(rng, tid, log, prefix):
    N = rng.randint(2, 4)
    multi = rng.random() < .25
    ocp = problem(rng, N, multi)
    o = ocp.solver_options
    names = [x for x in options(type(o)) if x not in PATHY]
    choose(rng, o, N, multi)
    given = read(o, names)
    want = []
    for k in range(N):
        w = {}
        for n in ("collocation_type", "sim_method_num_steps", "sim_method_num_stages", "sim_method_newton_iter", "sim_method_newton_tol", "sim_method_jac_reuse"):
            v = getattr(o, n)
            w[n] = tok(v if not isinstance(v, np.ndarray) else v[k])
        want.append(w)
    log.L.optlog_clear()
    blocks = len(o.qp_solver_cond_block_size or [])
    s = make_solver(ocp, None if multi else "g" + tid.replace("-", "_"))
    glob, stage = log.last(N, blocks)
    val = {f: glob.get(f, "unset") for f in list(KIND) + list(ENUMS) + ["qp_hpipm_mode", "qp_cond_block_size"]}
    P = lambda i, ns: log.enum(ns, log.L.optlog_plan(i))
    plan = {"nlp_solver_type": P(0, ["SQP", "SQP_RTI", "DDP", "SQP_WITH_FEASIBLE_QP"]),
            "regularize_method": P(1, ["NO_REGULARIZE", "MIRROR", "PROJECT", "PROJECT_REDUC_HESS", "CONVEXIFY", "GERSHGORIN_LEVENBERG_MARQUARDT"]),
            "globalization": P(2, ["FIXED_STEP", "MERIT_BACKTRACKING", "FUNNEL_L1PEN_LINESEARCH"]),
            "qp_solver": P(3, ["PARTIAL_CONDENSING_HPIPM", "FULL_CONDENSING_HPIPM"])}
    sims = {log.L.optlog_sim(i) for i in range(N)}
    nm = {-1: "'DISCRETE'"}
    for n in ("ERK", "IRK", "GNSF", "LIFTED_IRK"):
        nm[log.L.optlog_enum(n.encode())] = "'%s'" % n
    plan["integrator_type"] = nm[sims.pop()] if len(sims) == 1 else "several"
    ev = [{"op": "gen", "N": repr(float(N)), "val": val, "stage": [{f: st.get(f, "unset") for f in ("dynamics_collocation_type", "dynamics_num_steps", "dynamics_num_stages",
          "dynamics_newton_iter", "dynamics_newton_tol", "dynamics_jac_reuse")} for st in stage], "want": want, "plan": plan}]
    # run time
    rti = o.nlp_solver_type == "SQP_RTI"
    for _ in range(25):
        f = rng.choice(list(RUN))
        k = RUN[f]
        if rng.random() < .1:
            f = rng.choice(["abc", "tol", "qp_solver", "N_horizon"])
        v = rng.choice([rng.choice([1e-3, .25, 2.0]), rng.choice([1e-3, .25, 2.0]), rng.randint(0, 3), rng.randint(0, 3), True, False, "abc", None, [1]])
        if f in ("as_rti_level", "rti_phase") and not rti and f == "as_rti_level":
            continue
        isint = isinstance(v, int)
        if isint and f in ("qp_warm_start", "as_rti_level") and v not in range(0, 4):
            continue
        if f == "tau_min" and v == 0 or f == "qp_mu0" and v == 0:
            continue
        if f == "warm_start_first_qp_from_nlp" and (o.qp_solver != "PARTIAL_CONDENSING_HPIPM" or multi):
            continue
        log.L.optlog_clear()
        try:
            s.options_set(f, v)
            ok = True
        except Exception:
            ok = False
        got, _ = log.last(N)
        t = tok(v)
        if ok:      # as the library reads it
            t = repr(float(v)) if k in "di" and KIND.get(f) in ("d", "i") else str(bool(v))
        ev.append({"op": "run", "f": f, "tok": t, "v": describe(v), "ok": ok, "got": got.get(f, "unset")})
    return {"tid": tid, "cls": "ocp", "init": given, "rank": {}, "ev": ev}


def run(job):
    warnings.simplefilter("ignore")
    rng = random.Random(job["seed"])
    out = []
    if job["kind"] == "hist":
        for k in range(job["n"]):
            out.append(history(rng, "%s-%d" % (job["name"], k), job["len"], rng.choice(["ocp", "ocp", "ocp", "qp", "sim", "codegen"])))
    else:
        prefix = os.environ["ACADOS_SOURCE_DIR"] if "ACADOS_SOURCE_DIR" in os.environ else os.environ["ACADOS_INSTALL_DIR"]
        log = Log(prefix)
        for k in range(job["n"]):
            out.append(generated(rng, "%s-%d" % (job["name"], k), log, prefix))
    return out


if __name__ == "__main__":
    main(run)
