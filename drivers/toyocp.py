"""The small OCP whose every quantity is an exact integer; specs/ToyOcp.tla states it independently."""
import numpy as np


def build(solver_type="SQP", glob="FIXED_STEP", **opts):
    import casadi as ca
    from acados_template import AcadosOcp
    ocp = AcadosOcp()
    x, u, p = ca.SX.sym("x"), ca.SX.sym("u"), ca.SX.sym("p")
    m = ocp.model
    m.x, m.u, m.p, m.name = x, u, p, "toy"
    m.disc_dyn_expr = x + u + x * u + p
    ocp.parameter_values = np.array([0.0])
    ocp.solver_options.N_horizon = 2
    ocp.cost.cost_type = ocp.cost.cost_type_e = "EXTERNAL"
    m.cost_expr_ext_cost = (x - 1) ** 2 + u ** 2 + x * u
    m.cost_expr_ext_cost_e = 2 * (x + 1) ** 2
    c = ocp.constraints
    c.x0 = np.array([2.0])
    c.lbu, c.ubu, c.idxbu = np.array([-2.0]), np.array([3.0]), np.array([0])
    m.con_h_expr = x * x - u
    c.lh, c.uh, c.idxsh = np.array([-4.0]), np.array([6.0]), np.array([0])
    ocp.cost.Zl, ocp.cost.Zu = np.array([2.0]), np.array([4.0])
    ocp.cost.zl, ocp.cost.zu = np.array([3.0]), np.array([5.0])
    c.lbx_e, c.ubx_e, c.idxbx_e, c.idxsbx_e = np.array([-5.0]), np.array([6.0]), np.array([0]), np.array([0])
    ocp.cost.Zl_e, ocp.cost.Zu_e = np.array([6.0]), np.array([8.0])
    ocp.cost.zl_e, ocp.cost.zu_e = np.array([7.0]), np.array([9.0])
    so = ocp.solver_options
    so.tf = 2.0
    so.cost_scaling = np.ones(3)
    so.integrator_type = "DISCRETE"
    so.hessian_approx = "EXACT"
    so.regularize_method = "NO_REGULARIZE"
    so.nlp_solver_type = solver_type
    so.globalization = glob
    so.qp_solver = "PARTIAL_CONDENSING_HPIPM"
    so.print_level = 0
    for k, v in opts.items():
        setattr(so, k, v)
    return ocp
