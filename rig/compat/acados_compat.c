/* See acados_compat.h. Functions of the newer HPIPM that acados calls, on top of the older one. */
#include "acados_compat.h"
#include "hpipm_d_core_qp_ipm.h"
#include <pthread.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

#undef d_ocp_qp_reduce_eq_dof_arg_set_alias_unchanged
#undef d_ocp_qp_reduce_eq_dof_arg_set_comp_prim_sol
#undef d_ocp_qp_reduce_eq_dof_arg_set_comp_dual_sol_eq
#undef d_ocp_qp_reduce_eq_dof_arg_set_comp_dual_sol_ineq
#undef d_part_cond_qp_expand_sol
#undef d_part_cond_qp_cond
#undef d_part_cond_qp_cond_rhs
#undef d_part_cond_qp_cond_lhs

#undef d_ocp_qp_ipm_arg_set
#undef d_dense_qp_ipm_arg_set

void rig_ocp_arg_set(char *f, void *v, struct d_ocp_qp_ipm_arg *arg)
{
    if (!strcmp(f, "t0_init")) return;
    d_ocp_qp_ipm_arg_set(f, v, arg);
}
void rig_dense_arg_set(char *f, void *v, struct d_dense_qp_ipm_arg *arg)
{
    if (!strcmp(f, "t0_init")) return;
    d_dense_qp_ipm_arg_set(f, v, arg);
}

static void unsupported(const char *what)
{
    fprintf(stderr, "RIG-UNSUPPORTED %s\n", what);
    fflush(stderr);
    abort();
}

/* ---------------- seeds ---------------- */
static size_t up64(size_t s) { return (s + 63) / 64 * 64; }

hpipm_size_t d_ocp_qp_seed_memsize(struct d_ocp_qp_dim *dim)
{
    size_t size = 4 * (dim->N + 1) * sizeof(struct blasfeo_dvec) + 64;
    for (int i = 0; i <= dim->N; i++)
    {
        int nc = 2 * dim->nb[i] + 2 * dim->ng[i] + 2 * dim->ns[i];
        size += up64(blasfeo_memsize_dvec(dim->nu[i] + dim->nx[i] + 2 * dim->ns[i]));
        size += 2 * up64(blasfeo_memsize_dvec(nc));
        if (i < dim->N) size += up64(blasfeo_memsize_dvec(dim->nx[i + 1]));
    }
    return up64(size) + 64;
}
void d_ocp_qp_seed_create(struct d_ocp_qp_dim *dim, struct d_ocp_qp_seed *s, void *mem)
{
    char *c = (char *) up64((size_t) mem);
    s->dim = dim;
    s->seed_g = (struct blasfeo_dvec *) c; c += (dim->N + 1) * sizeof(struct blasfeo_dvec);
    s->seed_b = (struct blasfeo_dvec *) c; c += (dim->N + 1) * sizeof(struct blasfeo_dvec);
    s->seed_d = (struct blasfeo_dvec *) c; c += (dim->N + 1) * sizeof(struct blasfeo_dvec);
    s->seed_m = (struct blasfeo_dvec *) c; c += (dim->N + 1) * sizeof(struct blasfeo_dvec);
    c = (char *) up64((size_t) c);
    for (int i = 0; i <= dim->N; i++)
    {
        int nc = 2 * dim->nb[i] + 2 * dim->ng[i] + 2 * dim->ns[i];
        int nv = dim->nu[i] + dim->nx[i] + 2 * dim->ns[i];
        blasfeo_create_dvec(nv, s->seed_g + i, c); c += up64(blasfeo_memsize_dvec(nv));
        blasfeo_create_dvec(nc, s->seed_d + i, c); c += up64(blasfeo_memsize_dvec(nc));
        blasfeo_create_dvec(nc, s->seed_m + i, c); c += up64(blasfeo_memsize_dvec(nc));
        if (i < dim->N)
        {
            blasfeo_create_dvec(dim->nx[i + 1], s->seed_b + i, c);
            c += up64(blasfeo_memsize_dvec(dim->nx[i + 1]));
        }
    }
    s->memsize = d_ocp_qp_seed_memsize(dim);
    d_ocp_qp_seed_set_zero(s);
}
void d_ocp_qp_seed_set_zero(struct d_ocp_qp_seed *s)
{
    struct d_ocp_qp_dim *dim = s->dim;
    for (int i = 0; i <= dim->N; i++)
    {
        int nc = 2 * dim->nb[i] + 2 * dim->ng[i] + 2 * dim->ns[i];
        blasfeo_dvecse(dim->nu[i] + dim->nx[i] + 2 * dim->ns[i], 0.0, s->seed_g + i, 0);
        blasfeo_dvecse(nc, 0.0, s->seed_d + i, 0);
        blasfeo_dvecse(nc, 0.0, s->seed_m + i, 0);
        if (i < dim->N) blasfeo_dvecse(dim->nx[i + 1], 0.0, s->seed_b + i, 0);
    }
}
hpipm_size_t d_dense_qp_seed_memsize(struct d_dense_qp_dim *dim)
{
    int nc = 2 * dim->nb + 2 * dim->ng + 2 * dim->ns;
    return up64(4 * sizeof(struct blasfeo_dvec)) + up64(blasfeo_memsize_dvec(dim->nv + 2 * dim->ns))
        + up64(blasfeo_memsize_dvec(dim->ne)) + 2 * up64(blasfeo_memsize_dvec(nc)) + 128;
}
void d_dense_qp_seed_create(struct d_dense_qp_dim *dim, struct d_dense_qp_seed *s, void *mem)
{
    char *c = (char *) up64((size_t) mem);
    int nc = 2 * dim->nb + 2 * dim->ng + 2 * dim->ns;
    s->dim = dim;
    s->seed_g = (struct blasfeo_dvec *) c; c += sizeof(struct blasfeo_dvec);
    s->seed_b = (struct blasfeo_dvec *) c; c += sizeof(struct blasfeo_dvec);
    s->seed_d = (struct blasfeo_dvec *) c; c += sizeof(struct blasfeo_dvec);
    s->seed_m = (struct blasfeo_dvec *) c; c += sizeof(struct blasfeo_dvec);
    c = (char *) up64((size_t) c);
    blasfeo_create_dvec(dim->nv + 2 * dim->ns, s->seed_g, c); c += up64(blasfeo_memsize_dvec(dim->nv + 2 * dim->ns));
    blasfeo_create_dvec(dim->ne, s->seed_b, c); c += up64(blasfeo_memsize_dvec(dim->ne));
    blasfeo_create_dvec(nc, s->seed_d, c); c += up64(blasfeo_memsize_dvec(nc));
    blasfeo_create_dvec(nc, s->seed_m, c);
    blasfeo_dvecse(dim->nv + 2 * dim->ns, 0.0, s->seed_g, 0);
    blasfeo_dvecse(dim->ne, 0.0, s->seed_b, 0);
    blasfeo_dvecse(nc, 0.0, s->seed_d, 0);
    blasfeo_dvecse(nc, 0.0, s->seed_m, 0);
    s->memsize = d_dense_qp_seed_memsize(dim);
}

/* ---------------- argument order ---------------- */
void rig_red_arg_alias(int *v, struct d_ocp_qp_reduce_eq_dof_arg *a) { d_ocp_qp_reduce_eq_dof_arg_set_alias_unchanged(a, *v); }
void rig_red_arg_prim(int *v, struct d_ocp_qp_reduce_eq_dof_arg *a) { d_ocp_qp_reduce_eq_dof_arg_set_comp_prim_sol(a, *v); }
void rig_red_arg_dual_eq(int *v, struct d_ocp_qp_reduce_eq_dof_arg *a) { d_ocp_qp_reduce_eq_dof_arg_set_comp_dual_sol_eq(a, *v); }
void rig_red_arg_dual_ineq(int *v, struct d_ocp_qp_reduce_eq_dof_arg *a) { d_ocp_qp_reduce_eq_dof_arg_set_comp_dual_sol_ineq(a, *v); }

/* ---------------- partial condensing: the older expand needs the condensed QP ---------------- */
#define NTAB 4096
static struct { struct d_part_cond_qp_ws *ws; struct d_ocp_qp *pc; } tab[NTAB];
static pthread_mutex_t tab_lock = PTHREAD_MUTEX_INITIALIZER;
static void remember(struct d_part_cond_qp_ws *ws, struct d_ocp_qp *pc)
{
    pthread_mutex_lock(&tab_lock);
    size_t h = ((size_t) ws >> 4) % NTAB;
    for (int k = 0; k < NTAB; k++)
    {
        size_t j = (h + k) % NTAB;
        if (tab[j].ws == NULL || tab[j].ws == ws)
        {
            tab[j].ws = ws;
            tab[j].pc = pc;
            break;
        }
    }
    pthread_mutex_unlock(&tab_lock);
}
static struct d_ocp_qp *recall(struct d_part_cond_qp_ws *ws)
{
    struct d_ocp_qp *pc = NULL;
    pthread_mutex_lock(&tab_lock);
    size_t h = ((size_t) ws >> 4) % NTAB;
    for (int k = 0; k < NTAB && tab[(h + k) % NTAB].ws; k++)
        if (tab[(h + k) % NTAB].ws == ws) { pc = tab[(h + k) % NTAB].pc; break; }
    pthread_mutex_unlock(&tab_lock);
    if (!pc) unsupported("part_cond expand before cond");
    return pc;
}
void rig_part_cond_cond(struct d_ocp_qp *qp, struct d_ocp_qp *pc, struct d_part_cond_qp_arg *arg, struct d_part_cond_qp_ws *ws)
{ remember(ws, pc); d_part_cond_qp_cond(qp, pc, arg, ws); }
void rig_part_cond_cond_rhs(struct d_ocp_qp *qp, struct d_ocp_qp *pc, struct d_part_cond_qp_arg *arg, struct d_part_cond_qp_ws *ws)
{ remember(ws, pc); d_part_cond_qp_cond_rhs(qp, pc, arg, ws); }
void rig_part_cond_cond_lhs(struct d_ocp_qp *qp, struct d_ocp_qp *pc, struct d_part_cond_qp_arg *arg, struct d_part_cond_qp_ws *ws)
{ remember(ws, pc); d_part_cond_qp_cond_lhs(qp, pc, arg, ws); }
void rig_part_cond_expand_sol(struct d_ocp_qp *qp, struct d_ocp_qp_sol *pcsol, struct d_ocp_qp_sol *sol,
                              struct d_part_cond_qp_arg *arg, struct d_part_cond_qp_ws *ws)
{ d_part_cond_qp_expand_sol(qp, recall(ws), pcsol, sol, arg, ws); }

/* ---------------- small ones ---------------- */
void d_ocp_qp_set_m_all(double *v, struct d_ocp_qp *qp)
{
    for (int i = 0; i <= qp->dim->N; i++)
        blasfeo_dvecse(2 * (qp->dim->nb[i] + qp->dim->ng[i] + qp->dim->ns[i]), *v, qp->m + i, 0);
}
void d_dense_qp_set_m_all(double *v, struct d_dense_qp *qp)
{
    blasfeo_dvecse(2 * (qp->dim->nb + qp->dim->ng + qp->dim->ns), *v, qp->m, 0);
}
#define ARG_GET(arg) \
    if (!strcmp(f, "iter_max")) *(int *) v = arg->iter_max; \
    else if (!strcmp(f, "alpha_min")) *(double *) v = arg->alpha_min; \
    else if (!strcmp(f, "mu0")) *(double *) v = arg->mu0; \
    else if (!strcmp(f, "tol_stat")) *(double *) v = arg->res_g_max; \
    else if (!strcmp(f, "tol_eq")) *(double *) v = arg->res_b_max; \
    else if (!strcmp(f, "tol_ineq")) *(double *) v = arg->res_d_max; \
    else if (!strcmp(f, "tol_comp")) *(double *) v = arg->res_m_max; \
    else if (!strcmp(f, "reg_prim")) *(double *) v = arg->reg_prim; \
    else if (!strcmp(f, "warm_start")) *(int *) v = arg->warm_start; \
    else if (!strcmp(f, "tau_min")) *(double *) v = arg->tau_min; \
    else { fprintf(stderr, "RIG-UNSUPPORTED ipm_arg_get %s\n", f); abort(); }
void d_ocp_qp_ipm_arg_get(char *f, struct d_ocp_qp_ipm_arg *arg, void *v) { ARG_GET(arg) }
void d_dense_qp_ipm_arg_get(char *f, struct d_dense_qp_ipm_arg *arg, void *v) { ARG_GET(arg) }
void d_ocp_qp_ipm_get_tau_iter(struct d_ocp_qp_ipm_ws *ws, double *tau) { *tau = ws->core_workspace->tau_min; }
void d_ocp_qp_get_idxe(int stage, struct d_ocp_qp *qp, int *vec)
{
    int n = qp->dim->nbxe[stage] + qp->dim->nbue[stage] + qp->dim->nge[stage];
    for (int k = 0; k < n; k++) vec[k] = qp->idxe[stage][k];
}

void d_dense_qp_dim_get_nv(struct d_dense_qp_dim *dim, int *v) { *v = dim->nv; }

/* ---------------- not provided (solution sensitivities, initial guess condensing) ---------------- */
void d_ocp_qp_reduce_eq_dof_sol(struct d_ocp_qp *a, struct d_ocp_qp_sol *b, struct d_ocp_qp_sol *c,
    struct d_ocp_qp_reduce_eq_dof_arg *d, struct d_ocp_qp_reduce_eq_dof_ws *e) { unsupported("reduce_eq_dof_sol"); }
void d_cond_qp_cond_sol(struct d_ocp_qp *a, struct d_ocp_qp_sol *b, struct d_dense_qp_sol *c,
    struct d_cond_qp_arg *d, struct d_cond_qp_ws *e) { unsupported("cond_sol"); }
void d_part_cond_qp_cond_sol(struct d_ocp_qp *a, struct d_ocp_qp *b, struct d_ocp_qp_sol *c, struct d_ocp_qp_sol *d,
    struct d_part_cond_qp_arg *e, struct d_part_cond_qp_ws *f) { unsupported("part_cond_sol"); }
void d_ocp_qp_reduce_eq_dof_seed(struct d_ocp_qp *a, struct d_ocp_qp_seed *b, struct d_ocp_qp_seed *c,
    struct d_ocp_qp_reduce_eq_dof_arg *d, struct d_ocp_qp_reduce_eq_dof_ws *e) { unsupported("reduce_eq_dof_seed"); }
void d_ocp_qp_restore_eq_dof_seed(struct d_ocp_qp *a, struct d_ocp_qp_seed *b, struct d_ocp_qp_sol *c,
    struct d_ocp_qp_sol *d, struct d_ocp_qp_reduce_eq_dof_arg *e, struct d_ocp_qp_reduce_eq_dof_ws *f) { unsupported("restore_eq_dof_seed"); }
void d_cond_qp_cond_seed(struct d_ocp_qp *a, struct d_ocp_qp_seed *b, struct d_dense_qp_seed *c,
    struct d_cond_qp_arg *d, struct d_cond_qp_ws *e) { unsupported("cond_seed"); }
void d_cond_qp_expand_sol_seed(struct d_ocp_qp *a, struct d_ocp_qp_seed *b, struct d_dense_qp_sol *c,
    struct d_ocp_qp_sol *d, struct d_cond_qp_arg *e, struct d_cond_qp_ws *f) { unsupported("expand_sol_seed"); }
void d_part_cond_qp_cond_seed(struct d_ocp_qp *a, struct d_ocp_qp_seed *b, struct d_ocp_qp_seed *c,
    struct d_part_cond_qp_arg *d, struct d_part_cond_qp_ws *e) { unsupported("part_cond_seed"); }
void d_part_cond_qp_expand_sol_seed(struct d_ocp_qp *a, struct d_ocp_qp_seed *b, struct d_ocp_qp_sol *c,
    struct d_ocp_qp_sol *d, struct d_part_cond_qp_arg *e, struct d_part_cond_qp_ws *f) { unsupported("part_expand_sol_seed"); }
void d_ocp_qp_ipm_sens_frw(struct d_ocp_qp *a, struct d_ocp_qp_seed *b, struct d_ocp_qp_sol *c,
    struct d_ocp_qp_ipm_arg *d, struct d_ocp_qp_ipm_ws *e) { unsupported("ocp_qp_ipm_sens_frw"); }
void d_ocp_qp_ipm_sens_adj(struct d_ocp_qp *a, struct d_ocp_qp_seed *b, struct d_ocp_qp_sol *c,
    struct d_ocp_qp_ipm_arg *d, struct d_ocp_qp_ipm_ws *e) { unsupported("ocp_qp_ipm_sens_adj"); }
void d_dense_qp_ipm_sens_frw(struct d_dense_qp *a, struct d_dense_qp_seed *b, struct d_dense_qp_sol *c,
    struct d_dense_qp_ipm_arg *d, struct d_dense_qp_ipm_ws *e) { unsupported("dense_qp_ipm_sens_frw"); }
void d_dense_qp_ipm_sens_adj(struct d_dense_qp *a, struct d_dense_qp_seed *b, struct d_dense_qp_sol *c,
    struct d_dense_qp_ipm_arg *d, struct d_dense_qp_ipm_ws *e) { unsupported("dense_qp_ipm_sens_adj"); }
