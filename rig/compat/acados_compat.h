/* Force-included (-include) when the acados C library is compiled by the rig.
 *
 * The BLASFEO/HPIPM binaries and headers that exist offline (shipped with the installed casadi
 * wheel) are a slightly older HPIPM than the one this acados commit pins as a submodule. This
 * header bridges the difference; it changes nothing in acados itself.
 */
#ifndef RIG_ACADOS_COMPAT_H_
#define RIG_ACADOS_COMPAT_H_

#include "blasfeo_target.h"
#include "blasfeo_common.h"
#include "blasfeo_d_aux.h"
#include "hpipm_common.h"
#include "hpipm_d_dense_qp.h"
#include "hpipm_d_dense_qp_sol.h"
#include "hpipm_d_dense_qp_ipm.h"
#include "hpipm_d_ocp_qp.h"
#include "hpipm_d_ocp_qp_sol.h"
#include "hpipm_d_ocp_qp_ipm.h"
#include "hpipm_d_ocp_qp_red.h"
#include "hpipm_d_cond.h"
#include "hpipm_d_part_cond.h"

/* ---- seeds: absent from the older HPIPM ---- */
struct d_ocp_qp_seed
{
    struct d_ocp_qp_dim *dim;
    struct blasfeo_dvec *seed_g;
    struct blasfeo_dvec *seed_b;
    struct blasfeo_dvec *seed_d;
    struct blasfeo_dvec *seed_m;
    hpipm_size_t memsize;
};
struct d_dense_qp_seed
{
    struct d_dense_qp_dim *dim;
    struct blasfeo_dvec *seed_g;
    struct blasfeo_dvec *seed_b;
    struct blasfeo_dvec *seed_d;
    struct blasfeo_dvec *seed_m;
    hpipm_size_t memsize;
};
hpipm_size_t d_ocp_qp_seed_memsize(struct d_ocp_qp_dim *dim);
void d_ocp_qp_seed_create(struct d_ocp_qp_dim *dim, struct d_ocp_qp_seed *seed, void *mem);
void d_ocp_qp_seed_set_zero(struct d_ocp_qp_seed *seed);
hpipm_size_t d_dense_qp_seed_memsize(struct d_dense_qp_dim *dim);
void d_dense_qp_seed_create(struct d_dense_qp_dim *dim, struct d_dense_qp_seed *seed, void *mem);

/* ---- argument-order differences ---- */
#define d_ocp_qp_reduce_eq_dof_arg_set_alias_unchanged(a, b) rig_red_arg_alias(a, b)
#define d_ocp_qp_reduce_eq_dof_arg_set_comp_prim_sol(a, b) rig_red_arg_prim(a, b)
#define d_ocp_qp_reduce_eq_dof_arg_set_comp_dual_sol_eq(a, b) rig_red_arg_dual_eq(a, b)
#define d_ocp_qp_reduce_eq_dof_arg_set_comp_dual_sol_ineq(a, b) rig_red_arg_dual_ineq(a, b)
void rig_red_arg_alias(int *v, struct d_ocp_qp_reduce_eq_dof_arg *arg);
void rig_red_arg_prim(int *v, struct d_ocp_qp_reduce_eq_dof_arg *arg);
void rig_red_arg_dual_eq(int *v, struct d_ocp_qp_reduce_eq_dof_arg *arg);
void rig_red_arg_dual_ineq(int *v, struct d_ocp_qp_reduce_eq_dof_arg *arg);

/* ---- option fields the older HPIPM does not know (they are ignored) ---- */
#define d_ocp_qp_ipm_arg_set(f, v, a) rig_ocp_arg_set(f, v, a)
#define d_dense_qp_ipm_arg_set(f, v, a) rig_dense_arg_set(f, v, a)
void rig_ocp_arg_set(char *field, void *value, struct d_ocp_qp_ipm_arg *arg);
void rig_dense_arg_set(char *field, void *value, struct d_dense_qp_ipm_arg *arg);

/* ---- signature differences ---- */
#define d_part_cond_qp_expand_sol(qp, pcsol, sol, arg, ws) rig_part_cond_expand_sol(qp, pcsol, sol, arg, ws)
#define d_part_cond_qp_cond(a, b, c, d) rig_part_cond_cond(a, b, c, d)
#define d_part_cond_qp_cond_rhs(a, b, c, d) rig_part_cond_cond_rhs(a, b, c, d)
#define d_part_cond_qp_cond_lhs(a, b, c, d) rig_part_cond_cond_lhs(a, b, c, d)
void rig_part_cond_cond(struct d_ocp_qp *qp, struct d_ocp_qp *pc, struct d_part_cond_qp_arg *arg, struct d_part_cond_qp_ws *ws);
void rig_part_cond_cond_rhs(struct d_ocp_qp *qp, struct d_ocp_qp *pc, struct d_part_cond_qp_arg *arg, struct d_part_cond_qp_ws *ws);
void rig_part_cond_cond_lhs(struct d_ocp_qp *qp, struct d_ocp_qp *pc, struct d_part_cond_qp_arg *arg, struct d_part_cond_qp_ws *ws);
void rig_part_cond_expand_sol(struct d_ocp_qp *qp, struct d_ocp_qp_sol *pcsol, struct d_ocp_qp_sol *sol,
                              struct d_part_cond_qp_arg *arg, struct d_part_cond_qp_ws *ws);

/* ---- functions absent from the older HPIPM ---- */
void d_ocp_qp_set_m_all(double *value, struct d_ocp_qp *qp);
void d_dense_qp_dim_get_nv(struct d_dense_qp_dim *dim, int *value);
void d_dense_qp_set_m_all(double *value, struct d_dense_qp *qp);
void d_ocp_qp_ipm_arg_get(char *field, struct d_ocp_qp_ipm_arg *arg, void *value);
void d_dense_qp_ipm_arg_get(char *field, struct d_dense_qp_ipm_arg *arg, void *value);
void d_ocp_qp_ipm_get_tau_iter(struct d_ocp_qp_ipm_ws *ws, double *tau);
void d_ocp_qp_get_idxe(int stage, struct d_ocp_qp *qp, int *vec);
void d_ocp_qp_reduce_eq_dof_sol(struct d_ocp_qp *qp, struct d_ocp_qp_sol *sol, struct d_ocp_qp_sol *red_sol,
                                struct d_ocp_qp_reduce_eq_dof_arg *arg, struct d_ocp_qp_reduce_eq_dof_ws *ws);
void d_cond_qp_cond_sol(struct d_ocp_qp *qp, struct d_ocp_qp_sol *sol, struct d_dense_qp_sol *dsol,
                        struct d_cond_qp_arg *arg, struct d_cond_qp_ws *ws);
void d_part_cond_qp_cond_sol(struct d_ocp_qp *qp, struct d_ocp_qp *pcqp, struct d_ocp_qp_sol *sol, struct d_ocp_qp_sol *pcsol,
                             struct d_part_cond_qp_arg *arg, struct d_part_cond_qp_ws *ws);
void d_ocp_qp_reduce_eq_dof_seed(struct d_ocp_qp *qp, struct d_ocp_qp_seed *seed, struct d_ocp_qp_seed *red,
                                 struct d_ocp_qp_reduce_eq_dof_arg *arg, struct d_ocp_qp_reduce_eq_dof_ws *ws);
void d_ocp_qp_restore_eq_dof_seed(struct d_ocp_qp *qp, struct d_ocp_qp_seed *seed, struct d_ocp_qp_sol *red,
                                  struct d_ocp_qp_sol *sol, struct d_ocp_qp_reduce_eq_dof_arg *arg,
                                  struct d_ocp_qp_reduce_eq_dof_ws *ws);
void d_cond_qp_cond_seed(struct d_ocp_qp *qp, struct d_ocp_qp_seed *seed, struct d_dense_qp_seed *dseed,
                         struct d_cond_qp_arg *arg, struct d_cond_qp_ws *ws);
void d_cond_qp_expand_sol_seed(struct d_ocp_qp *qp, struct d_ocp_qp_seed *seed, struct d_dense_qp_sol *dsol,
                               struct d_ocp_qp_sol *sol, struct d_cond_qp_arg *arg, struct d_cond_qp_ws *ws);
void d_part_cond_qp_cond_seed(struct d_ocp_qp *qp, struct d_ocp_qp_seed *seed, struct d_ocp_qp_seed *pcseed,
                              struct d_part_cond_qp_arg *arg, struct d_part_cond_qp_ws *ws);
void d_part_cond_qp_expand_sol_seed(struct d_ocp_qp *qp, struct d_ocp_qp_seed *seed, struct d_ocp_qp_sol *pcsol,
                                    struct d_ocp_qp_sol *sol, struct d_part_cond_qp_arg *arg, struct d_part_cond_qp_ws *ws);
void d_ocp_qp_ipm_sens_frw(struct d_ocp_qp *qp, struct d_ocp_qp_seed *seed, struct d_ocp_qp_sol *sens,
                           struct d_ocp_qp_ipm_arg *arg, struct d_ocp_qp_ipm_ws *ws);
void d_ocp_qp_ipm_sens_adj(struct d_ocp_qp *qp, struct d_ocp_qp_seed *seed, struct d_ocp_qp_sol *sens,
                           struct d_ocp_qp_ipm_arg *arg, struct d_ocp_qp_ipm_ws *ws);
void d_dense_qp_ipm_sens_frw(struct d_dense_qp *qp, struct d_dense_qp_seed *seed, struct d_dense_qp_sol *sens,
                             struct d_dense_qp_ipm_arg *arg, struct d_dense_qp_ipm_ws *ws);
void d_dense_qp_ipm_sens_adj(struct d_dense_qp *qp, struct d_dense_qp_seed *seed, struct d_dense_qp_sol *sens,
                             struct d_dense_qp_ipm_arg *arg, struct d_dense_qp_ipm_ws *ws);
#endif
