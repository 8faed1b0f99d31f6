/* Evaluates generated functions through acados' external function wrappers, with arguments in every form.

   An output is put into a container that is larger than it and filled with a mark: what lies outside of the output must stay. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include "acados/utils/external_function_generic.h"
#include "blasfeo_d_aux_ext_dep.h"
#include "blasfeo_d_aux.h"

#define MARK 77.0
#define MAXA 32
typedef struct
{
    int flavour;    /* 0: no parameter memory, 1: own parameters, 2: pointer to parameters */
    union { external_function_casadi c; external_function_param_casadi p; external_function_external_param_casadi e; } f;
    void *mem, *work;
    void *lib;
} handle;

static void *sym(handle *h, const char *name, const char *suffix)
{
    char b[512];
    snprintf(b, 512, "%s%s", name, suffix);
    return dlsym(h->lib, b);
}

void *ef_create(const char *lib, const char *name, int flavour, int np, int global_data, int external_workspace)
{
    handle *h = calloc(1, sizeof(handle));
    h->flavour = flavour;
    h->lib = dlopen(lib, RTLD_NOW | RTLD_LOCAL);
    if (!h->lib || !sym(h, name, "")) return NULL;
    external_function_opts o;
    external_function_opts_set_to_default(&o);
    o.external_workspace = external_workspace;
    o.with_global_data = global_data;
#define SET(F) F.casadi_fun = sym(h, name, ""); F.casadi_work = sym(h, name, "_work"); F.casadi_sparsity_in = sym(h, name, "_sparsity_in"); \
    F.casadi_sparsity_out = sym(h, name, "_sparsity_out"); F.casadi_n_in = sym(h, name, "_n_in"); F.casadi_n_out = sym(h, name, "_n_out")
    if (flavour == 0)
    {
        SET(h->f.c);
        h->mem = malloc(external_function_casadi_calculate_size(&h->f.c, &o));
        external_function_casadi_assign(&h->f.c, h->mem);
    }
    else if (flavour == 1)
    {
        SET(h->f.p);
        h->mem = malloc(external_function_param_casadi_calculate_size(&h->f.p, np, &o));
        external_function_param_casadi_assign(&h->f.p, h->mem);
    }
    else
    {
        SET(h->f.e);
        h->mem = malloc(external_function_external_param_casadi_calculate_size(&h->f.e, &o));
        external_function_external_param_casadi_assign(&h->f.e, h->mem);
    }
    external_function_generic *g = (external_function_generic *) &h->f;
    size_t n = external_function_get_workspace_requirement_if_defined(g);
    h->work = malloc(n + 64);
    external_function_set_fun_workspace_if_defined(g, h->work);
    return h;
}

void ef_set(void *h_, double *p) { handle *h = h_; h->f.p.set_param(&h->f, p); }
void ef_set_sparse(void *h_, int n, int *idx, double *p) { handle *h = h_; h->f.p.set_param_sparse(&h->f, n, idx, p); }
int ef_nparam(void *h_) { handle *h = h_; int n; h->f.p.get_nparam(&h->f, &n); return n; }
void ef_pointers(void *h_, double *p, double *gd) { handle *h = h_; h->f.e.set_param_pointer(&h->f, p); if (gd) h->f.e.set_global_data_pointer(&h->f, gd); }
void ef_free(void *h_) { handle *h = h_; free(h->mem); free(h->work); free(h); }

typedef struct
{
    int type, r, c, o1, o2, R, C;
    double *buf;
    struct blasfeo_dmat m;
    struct blasfeo_dvec v;
    struct colmaj_args ca;
    struct blasfeo_dmat_args ma;
    struct blasfeo_dvec_args va;
    void *ptr;
} box;

static void box_make(box *b, int type, int r, int c, int o1, int o2)
{
    memset(b, 0, sizeof(*b));
    b->type = type; b->r = r; b->c = c;
    int args = type == COLMAJ_ARGS || type == BLASFEO_DMAT_ARGS || type == BLASFEO_DVEC_ARGS;
    b->o1 = args ? o1 : 0;
    b->o2 = type == BLASFEO_DMAT_ARGS || type == COLMAJ_ARGS ? o2 : 0;
    b->R = (type == COLMAJ ? r : b->o1 + r + 2);
    b->C = (type == BLASFEO_DVEC || type == BLASFEO_DVEC_ARGS) ? 1 : b->o2 + c + (type == COLMAJ ? 0 : 2);
    if (type == COLMAJ || type == COLMAJ_ARGS)
    {
        b->buf = malloc((b->R * b->C + 8) * sizeof(double));
        for (int i = 0; i < b->R * b->C + 8; i++) b->buf[i] = MARK;
        b->ca.A = b->buf + b->o1 + b->R * b->o2;
        b->ca.lda = b->R;
        b->ptr = type == COLMAJ ? (void *) b->buf : (void *) &b->ca;
    }
    else if (type == BLASFEO_DMAT || type == BLASFEO_DMAT_ARGS)
    {
        blasfeo_allocate_dmat(b->R, b->C, &b->m);
        blasfeo_dgese(b->R, b->C, MARK, &b->m, 0, 0);
        b->ma.A = &b->m; b->ma.ai = b->o1; b->ma.aj = b->o2;
        b->ptr = type == BLASFEO_DMAT ? (void *) &b->m : (void *) &b->ma;
    }
    else if (type == BLASFEO_DVEC || type == BLASFEO_DVEC_ARGS)
    {
        blasfeo_allocate_dvec(b->R, &b->v);
        blasfeo_dvecse(b->R, MARK, &b->v, 0);
        b->va.x = &b->v; b->va.xi = b->o1;
        b->ptr = type == BLASFEO_DVEC ? (void *) &b->v : (void *) &b->va;
    }
}
static double *box_at(box *b, int i, int j)
{
    if (b->buf) return b->buf + i + b->R * j;
    if (b->type == BLASFEO_DMAT || b->type == BLASFEO_DMAT_ARGS) return &BLASFEO_DMATEL(&b->m, i, j);
    return &BLASFEO_DVECEL(&b->v, i);
}
static void box_free(box *b)
{
    free(b->buf);
    if (b->type == BLASFEO_DMAT || b->type == BLASFEO_DMAT_ARGS) blasfeo_free_dmat(&b->m);
    if (b->type == BLASFEO_DVEC || b->type == BLASFEO_DVEC_ARGS) blasfeo_free_dvec(&b->v);
}

/* sizes: for every argument type, rows, columns, offsets. returns how many entries outside of the outputs changed */
int ef_eval(void *h_, int n_in, int *sizes_in, double *data_in, int n_out, int *sizes_out, double *data_out)
{
    handle *h = h_;
    static box bi[MAXA], bo[MAXA];
    ext_fun_arg_t ti[MAXA], to[MAXA];
    void *pi[MAXA], *po[MAXA];
    for (int k = 0; k < n_in; k++)
    {
        int *s = sizes_in + 5 * k;
        box_make(bi + k, s[0], s[1], s[2], s[3], s[4]);
        if (s[0] != IGNORE_ARGUMENT)
            for (int j = 0; j < s[2]; j++)
                for (int i = 0; i < s[1]; i++) *box_at(bi + k, bi[k].o1 + i, bi[k].o2 + j) = data_in[i + j * s[1]];
        data_in += s[1] * s[2];
        ti[k] = s[0]; pi[k] = bi[k].ptr;
    }
    for (int k = 0; k < n_out; k++)
    {
        int *s = sizes_out + 5 * k;
        box_make(bo + k, s[0], s[1], s[2], s[3], s[4]);
        to[k] = s[0]; po[k] = bo[k].ptr;
    }
    external_function_generic *g = (external_function_generic *) &h->f;
    g->evaluate(g, ti, pi, to, po);
    int touched = 0;
    for (int k = 0; k < n_out; k++)
    {
        box *b = bo + k;
        if (b->type != IGNORE_ARGUMENT)
        {
            for (int j = 0; j < b->C; j++)
                for (int i = 0; i < b->R; i++)
                {
                    int in = i >= b->o1 && i < b->o1 + b->r && j >= b->o2 && j < b->o2 + b->c;
                    if (in) data_out[i - b->o1 + (j - b->o2) * b->r] = *box_at(b, i, j);
                    else touched += *box_at(b, i, j) != MARK;
                }
            if (b->buf) for (int i = 0; i < 8; i++) touched += b->buf[b->R * b->C + i] != MARK;
        }
        data_out += b->r * b->c;
    }
    for (int k = 0; k < n_in; k++) box_free(bi + k);
    for (int k = 0; k < n_out; k++) box_free(bo + k);
    return touched;
}
