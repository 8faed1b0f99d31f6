/* A QP solver that follows a script.

   stub_install() replaces the solve entry points of an ocp_nlp solver's QP solver module. Each call
   takes the next scripted entry (status, iterations, primal step, multipliers), writes it into the
   QP solution as the real module would, and appends what it was given (entry point, warm start option,
   the complete QP) to a log that the driver reads. With the script exhausted it reports status 99. */
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include "acados/ocp_nlp/ocp_nlp_common.h"
#include "acados/ocp_qp/ocp_qp_xcond_solver.h"
#include "acados/ocp_qp/ocp_qp_common.h"

#define MAXE 256
static double *script[MAXE];
static int script_len[MAXE];
static int n_script = 0, next_script = 0;
static double *logbuf = NULL;
static long log_n = 0, log_cap = 0;
static int log_qp = 1;
static double cur_warm_start = -1;
static double cur_tol[4] = {-1, -1, -1, -1};

static int (*orig_evaluate)(void *, ocp_qp_xcond_solver_dims *, ocp_qp_in *, ocp_qp_out *, void *, void *, void *);
static int (*orig_lhs)(void *, ocp_qp_xcond_solver_dims *, ocp_qp_in *, ocp_qp_out *, void *, void *, void *);
static int (*orig_rhs)(void *, ocp_qp_xcond_solver_dims *, ocp_qp_in *, ocp_qp_out *, void *, void *, void *);
static void (*orig_opts_set)(void *, void *, const char *, void *);
static int passthrough = 0;

static void put(double v)
{
    if (log_n == log_cap)
    {
        log_cap = log_cap ? 2 * log_cap : 4096;
        logbuf = realloc(logbuf, log_cap * sizeof(double));
    }
    logbuf[log_n++] = v;
}

static void put_qp(ocp_qp_in *q)
{
    int N = q->dim->N;
    put(N);
    for (int i = 0; i <= N; i++)
    {
        int nx = q->dim->nx[i], nu = q->dim->nu[i], nb = q->dim->nb[i], ng = q->dim->ng[i], ns = q->dim->ns[i];
        int nx1 = i < N ? q->dim->nx[i+1] : 0;
        put(nx); put(nu); put(nb); put(ng); put(ns); put(nx1);
        for (int r = 0; r < nu+nx; r++) for (int c = 0; c < nx1; c++) put(BLASFEO_DMATEL(q->BAbt+i, r, c));
        for (int c = 0; c < nx1; c++) put(BLASFEO_DVECEL(q->b+i, c));
        for (int r = 0; r < nu+nx; r++) for (int c = 0; c <= r; c++) put(BLASFEO_DMATEL(q->RSQrq+i, r, c));
        for (int r = 0; r < nu+nx+2*ns; r++) put(BLASFEO_DVECEL(q->rqz+i, r));
        for (int r = 0; r < 2*ns; r++) put(BLASFEO_DVECEL(q->Z+i, r));
        for (int r = 0; r < nu+nx; r++) for (int c = 0; c < ng; c++) put(BLASFEO_DMATEL(q->DCt+i, r, c));
        for (int r = 0; r < 2*(nb+ng+ns); r++) put(BLASFEO_DVECEL(q->d+i, r));
        for (int r = 0; r < 2*(nb+ng+ns); r++) put(BLASFEO_DVECEL(q->d_mask+i, r));
        for (int r = 0; r < nb; r++) put(q->idxb[i][r]);
        for (int r = 0; r < nb+ng; r++) put(q->idxs_rev[i][r]);
    }
}

static int follow(int entry, ocp_qp_in *qp_in, ocp_qp_out *qp_out)
{
    long start = log_n;
    put(0); /* record length, patched */
    put(entry);
    put(cur_warm_start);
    for (int j = 0; j < 4; j++) put(cur_tol[j]);
    if (log_qp) put_qp(qp_in);
    logbuf[start] = log_n - start;
    if (next_script >= n_script) return 99;
    double *s = script[next_script];
    double *end = s + script_len[next_script];
    next_script++;
    int status = (int) s[0];
    ((qp_info *) qp_out->misc)->num_iter = (int) s[1];
    s += 2;
    int N = qp_in->dim->N;
    for (int i = 0; i <= N; i++)
    {
        int nv = qp_in->dim->nx[i] + qp_in->dim->nu[i] + 2*qp_in->dim->ns[i];
        for (int r = 0; r < nv && s < end; r++) BLASFEO_DVECEL(qp_out->ux+i, r) = *s++;
        if (i < N)
            for (int r = 0; r < qp_in->dim->nx[i+1] && s < end; r++) BLASFEO_DVECEL(qp_out->pi+i, r) = *s++;
        int ni = qp_in->dim->nb[i] + qp_in->dim->ng[i] + qp_in->dim->ns[i];
        for (int r = 0; r < 2*ni && s < end; r++) BLASFEO_DVECEL(qp_out->lam+i, r) = *s++;
    }
    return status;
}

static int stub_evaluate(void *c, ocp_qp_xcond_solver_dims *d, ocp_qp_in *qi, ocp_qp_out *qo, void *o, void *m, void *w)
{
    if (passthrough)
    {
        long start = log_n;
        put(0); put(0); put(cur_warm_start);
        for (int j = 0; j < 4; j++) put(cur_tol[j]);
        if (log_qp) put_qp(qi);
        logbuf[start] = log_n - start;
        return orig_evaluate(c, d, qi, qo, o, m, w);
    }
    return follow(0, qi, qo);
}

static int stub_lhs(void *c, ocp_qp_xcond_solver_dims *d, ocp_qp_in *qi, ocp_qp_out *qo, void *o, void *m, void *w)
{
    long start = log_n;
    put(0); put(1); put(cur_warm_start);
    for (int j = 0; j < 4; j++) put(cur_tol[j]);
    if (log_qp) put_qp(qi);
    logbuf[start] = log_n - start;
    if (passthrough) return orig_lhs(c, d, qi, qo, o, m, w);
    return 0;
}

static int stub_rhs(void *c, ocp_qp_xcond_solver_dims *d, ocp_qp_in *qi, ocp_qp_out *qo, void *o, void *m, void *w)
{
    if (passthrough)
    {
        long start = log_n;
        put(0); put(2); put(cur_warm_start);
        for (int j = 0; j < 4; j++) put(cur_tol[j]);
        if (log_qp) put_qp(qi);
        logbuf[start] = log_n - start;
        return orig_rhs(c, d, qi, qo, o, m, w);
    }
    return follow(2, qi, qo);
}

static void stub_opts_set(void *c, void *o, const char *field, void *value)
{
    if (!strcmp(field, "warm_start")) cur_warm_start = *(int *) value;
    if (!strcmp(field, "tol_stat")) cur_tol[0] = *(double *) value;
    if (!strcmp(field, "tol_eq")) cur_tol[1] = *(double *) value;
    if (!strcmp(field, "tol_ineq")) cur_tol[2] = *(double *) value;
    if (!strcmp(field, "tol_comp")) cur_tol[3] = *(double *) value;
    orig_opts_set(c, o, field, value);
}

void stub_install(ocp_nlp_config *config)
{
    ocp_qp_xcond_solver_config *q = config->qp_solver;
    if (q->evaluate != stub_evaluate)
    {
        orig_evaluate = q->evaluate;
        orig_lhs = q->condense_lhs;
        orig_rhs = q->condense_rhs_and_solve;
        orig_opts_set = q->opts_set;
    }
    q->evaluate = stub_evaluate;
    q->condense_lhs = stub_lhs;
    q->condense_rhs_and_solve = stub_rhs;
    q->opts_set = stub_opts_set;
}

void stub_mode(int pass, int with_qp) { passthrough = pass; log_qp = with_qp; }

void stub_clear(void)
{
    for (int i = 0; i < n_script; i++) free(script[i]);
    n_script = next_script = 0;
    log_n = 0;
}

int stub_push(const double *v, int n)
{
    if (n_script == MAXE) return 1;
    script[n_script] = malloc(n * sizeof(double));
    memcpy(script[n_script], v, n * sizeof(double));
    script_len[n_script++] = n;
    return 0;
}

int stub_used(void) { return next_script; }
long stub_log_len(void) { return log_n; }
const double *stub_log(void) { return logbuf; }
