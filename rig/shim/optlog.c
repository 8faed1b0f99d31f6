/* Logs the options a generated solver hands to the library.

   Interposes ocp_nlp_config_create: keeps the plan and wraps the opts_set entry points of the created
   configuration. Each call is kept as (stage or -1, field, first 512 bytes of the value). */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include "acados_c/ocp_nlp_interface.h"
#include "acados/sim/sim_collocation_utils.h"

typedef struct { int stage; char field[96]; unsigned char raw[512]; } entry;
static entry *log_ = NULL;
static int n_log = 0, cap = 0;
static int plan_[6];
static int sims[256];
static void (*orig_set)(void *, void *, const char *, void *);
static void (*orig_stage)(void *, void *, size_t, const char *, void *);

static void put(int stage, const char *field, const void *value)
{
    if (n_log == cap)
    {
        cap = cap ? 2 * cap : 512;
        log_ = realloc(log_, cap * sizeof(entry));
    }
    entry *e = log_ + n_log++;
    memset(e, 0, sizeof(*e));
    e->stage = stage;
    strncpy(e->field, field, 95);
    int n = 8;
    if (!strcmp(field, "qp_hpipm_mode")) n = (int) strlen((const char *) value);
    if (!strcmp(field, "qp_cond_block_size")) n = 64;
    memcpy(e->raw, value, n);
}
static void my_set(void *c, void *o, const char *f, void *v) { put(-1, f, v); orig_set(c, o, f, v); }
static void my_stage(void *c, void *o, size_t s, const char *f, void *v) { put((int) s, f, v); orig_stage(c, o, s, f, v); }

ocp_nlp_config *ocp_nlp_config_create(ocp_nlp_plan_t plan)
{
    static ocp_nlp_config *(*real)(ocp_nlp_plan_t) = NULL;
    if (!real) real = (ocp_nlp_config * (*)(ocp_nlp_plan_t)) dlsym(RTLD_NEXT, "ocp_nlp_config_create");
    plan_[0] = plan.nlp_solver;
    plan_[1] = plan.regularization;
    plan_[2] = plan.globalization;
    plan_[3] = plan.ocp_qp_solver_plan.qp_solver;
    plan_[4] = plan.N;
    for (int i = 0; i < plan.N && i < 256; i++)
        sims[i] = plan.nlp_dynamics[i] == DISCRETE_MODEL ? -1 : (int) plan.sim_solver_plan[i].sim_solver;
    ocp_nlp_config *c = real(plan);
    if (c->opts_set != my_set) orig_set = c->opts_set;
    if (c->opts_set_at_stage != my_stage) orig_stage = c->opts_set_at_stage;
    c->opts_set = my_set;
    c->opts_set_at_stage = my_stage;
    return c;
}
void *optlog_keep(void) { return (void *) &ocp_nlp_solver_opts_set; }   /* keeps the library a dependency */
void optlog_clear(void) { n_log = 0; }
int optlog_n(void) { return n_log; }
int optlog_stage(int i) { return log_[i].stage; }
const char *optlog_field(int i) { return log_[i].field; }
const unsigned char *optlog_raw(int i) { return log_[i].raw; }
int optlog_plan(int i) { return plan_[i]; }
int optlog_sim(int i) { return sims[i]; }

#define K(x) if (!strcmp(s, #x)) return (int) x;
int optlog_enum(const char *s)
{
    K(SQP) K(SQP_RTI) K(DDP) K(SQP_WITH_FEASIBLE_QP)
    K(NO_REGULARIZE) K(MIRROR) K(PROJECT) K(PROJECT_REDUC_HESS) K(CONVEXIFY) K(GERSHGORIN_LEVENBERG_MARQUARDT)
    K(FIXED_STEP) K(MERIT_BACKTRACKING) K(FUNNEL_L1PEN_LINESEARCH)
    K(PARTIAL_CONDENSING_HPIPM) K(FULL_CONDENSING_HPIPM)
    K(ERK) K(IRK) K(GNSF) K(LIFTED_IRK)
    K(GAUSS_LEGENDRE) K(GAUSS_RADAU_IIA) K(EXPLICIT_RUNGE_KUTTA)
    K(FIXED_QP_TOL) K(ADAPTIVE_CURRENT_RES_JOINT) K(ADAPTIVE_QPSCALING)
    K(MAX_CALL) K(MAX_OVERALL) K(LAST) K(AVERAGE) K(ZERO)
    K(NOMINAL_QP) K(BYRD_OMOJOKUN) K(FEASIBILITY_QP)
    K(NO_OBJECTIVE_SCALING) K(OBJECTIVE_GERSHGORIN) K(NO_CONSTRAINT_SCALING) K(INF_NORM)
    return -99;
}
