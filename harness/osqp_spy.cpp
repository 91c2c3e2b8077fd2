#include "osqp_spy.hpp"
#include "qp.hpp"
#include <cstdlib>

VERIF_TLS QpSpy qp;
namespace
{
enum Kind { BUFFER = 1, MATRIX, WORK };
struct Block { Kind k; size_t call; };
#ifdef VERIF_THREADS     // every thread has its own monitor, the life of objects is not followed
void reg(const void *, Kind, size_t = 0) {}
bool owned(const void *p, Kind) { return p; }
bool drop(const void *p, Kind, const char *) { return p; }
QpCall &callOf(OSQPWorkspace *) { if (qp.log.empty()) qp.log.emplace_back(); return qp.log.back(); }
#else
std::map<const void *, Block> &ledger() { static std::map<const void *, Block> l; return l; }
void reg(const void *p, Kind k, size_t call = 0) { ledger()[p] = {k, call}; qp.live++; }
bool owned(const void *p, Kind k) { auto it = ledger().find(p); return it != ledger().end() && it->second.k == k; }
bool drop(const void *p, Kind k, const char *what)
{
    if (!owned(p, k))
    {
        if (qp.errors.size() < 20) qp.errors.push_back(MSG(what << " of an object that is not alive"));
        return false;
    }
    ledger().erase(p);
    qp.live--;
    return true;
}
QpCall &callOf(OSQPWorkspace *w)
{
    static QpCall dummy;
    size_t k = ledger()[w].call;
    return k < qp.log.size() ? qp.log[k] : dummy;
}
#endif
bool alive(OSQPWorkspace *w, const char *what)
{
    if (!w) return false;
    if (!owned(w, WORK)) { if (qp.errors.size() < 20) qp.errors.push_back(MSG(what << " with a workspace that is not alive")); return false; }
    return true;
}
std::string checkCsc(const csc *M, int rows, int cols, bool upper, MatrixXd &dense, long &nnz, const char *name, MatrixXd &pattern)
{
    if (!M) return MSG(name << " is missing");
    if (!owned(M, MATRIX)) return MSG(name << " is not an allocated matrix");
    if (M->m != rows || M->n != cols) return MSG(name << " is " << M->m << "x" << M->n << " instead of " << rows << "x" << cols);
    if (M->nz != -1) return MSG(name << " is not in column-compressed form");
    if (!M->p || (M->nzmax > 0 && (!M->i || !M->x))) return MSG(name << " lacks its arrays");
    if (M->p[0] != 0) return MSG(name << ": first column starts at " << M->p[0]);
    dense = pattern = MatrixXd::Zero(rows, cols);
    for (int k = 0; k < cols; k++)
    {
        if (M->p[k + 1] < M->p[k] || M->p[k + 1] > M->nzmax) return MSG(name << ": column " << k << " ends at " << M->p[k + 1] << " (starts " << M->p[k] << ", nzmax " << M->nzmax << ")");
        for (c_int z = M->p[k]; z < M->p[k + 1]; z++)
        {
            if (M->i[z] < 0 || M->i[z] >= rows) return MSG(name << ": row index " << M->i[z] << " in column " << k);
            if (z > M->p[k] && M->i[z] <= M->i[z - 1]) return MSG(name << ": row indices of column " << k << " are not increasing");
            if (upper && M->i[z] > k) return MSG(name << " is not upper triangular");
            if (!std::isfinite(M->x[z])) return MSG(name << ": value " << M->x[z]);
            dense((int)M->i[z], k) = M->x[z];
            pattern((int)M->i[z], k) = 1;
        }
    }
    nnz = M->p[cols];
    if (nnz != M->nzmax) return MSG(name << ": " << nnz << " entries, " << M->nzmax << " allocated");
    return "";
}
const char *statusText(int s)
{
    switch (s)
    {
    case OSQP_SOLVED: return "solved";
    case OSQP_SOLVED_INACCURATE: return "solved inaccurate";
    case OSQP_PRIMAL_INFEASIBLE: return "primal infeasible";
    case OSQP_PRIMAL_INFEASIBLE_INACCURATE: return "primal infeasible inaccurate";
    case OSQP_DUAL_INFEASIBLE: return "dual infeasible";
    case OSQP_DUAL_INFEASIBLE_INACCURATE: return "dual infeasible inaccurate";
    case OSQP_UNSOLVED: return "unsolved";
    case OSQP_MAX_ITER_REACHED: return "maximum iterations reached";
    case OSQP_TIME_LIMIT_REACHED: return "run time limit reached";
    case OSQP_SIGINT: return "interrupted";
    case OSQP_NON_CVX: return "problem non convex";
    }
    return "";
}
}

extern "C" {
void osqp_set_default_settings(OSQPSettings *s)
{
    *s = OSQPSettings{};
    s->rho = 0.1; s->sigma = 1e-6; s->scaling = 10; s->adaptive_rho = 1; s->adaptive_rho_interval = 0; s->adaptive_rho_tolerance = 5; s->adaptive_rho_fraction = 0.4;
    s->max_iter = 4000; s->eps_abs = 1e-3; s->eps_rel = 1e-3; s->eps_prim_inf = 1e-4; s->eps_dual_inf = 1e-4; s->alpha = 1.6; s->linsys_solver = QDLDL_SOLVER;
    s->delta = 1e-6; s->polish = 0; s->polish_refine_iter = 3; s->verbose = 1; s->scaled_termination = 0; s->check_termination = 25; s->warm_start = 1; s->time_limit = 0;
}
c_int osqp_setup(OSQPWorkspace **workp, const OSQPData *d, const OSQPSettings *s)
{
    qp.setups++;
    qp.log.emplace_back();
    QpCall &k = qp.log.back();
    if (s) k.set = *s;
    if (!d || !d->q || !d->l || !d->u || d->n <= 0 || d->m < 0) { k.malformed = "data incomplete"; return k.setupCode = OSQP_DATA_VALIDATION_ERROR; }
    k.n = (int)d->n; k.m = (int)d->m;
    k.malformed = checkCsc(d->P, k.n, k.n, true, k.P, k.nnzP, "P", k.patP);
    if (k.malformed.empty()) k.malformed = checkCsc(d->A, k.m, k.n, false, k.A, k.nnzA, "A", k.patA);
    k.q = Eigen::Map<const VectorXd>(d->q, k.n);
    k.l = Eigen::Map<const VectorXd>(d->l, k.m);
    k.u = Eigen::Map<const VectorXd>(d->u, k.m);
    if (!k.malformed.empty()) return k.setupCode = OSQP_DATA_VALIDATION_ERROR;
    for (int z = 0; z < k.m; z++) if (k.l(z) > k.u(z)) return k.setupCode = OSQP_DATA_VALIDATION_ERROR;
    if (!s || s->scaling < 0 || (s->adaptive_rho != 0 && s->adaptive_rho != 1) || s->adaptive_rho_interval < 0 || !(s->adaptive_rho_fraction > 0) || s->adaptive_rho_tolerance < 1.0 ||
        s->polish_refine_iter < 0 || !(s->rho > 0) || !(s->sigma > 0) || !(s->delta > 0) || s->max_iter <= 0 || s->eps_abs < 0 || s->eps_rel < 0 || (s->eps_abs == 0 && s->eps_rel == 0) ||
        !(s->eps_prim_inf > 0) || !(s->eps_dual_inf > 0) || !(s->alpha > 0) || !(s->alpha < 2) || (s->polish != 0 && s->polish != 1) || (s->verbose != 0 && s->verbose != 1) ||
        (s->warm_start != 0 && s->warm_start != 1) || s->time_limit < 0)
        return k.setupCode = OSQP_SETTINGS_VALIDATION_ERROR;
    int forced = qp.onSetup ? qp.onSetup(k) : 0;
    if (forced == OSQP_DATA_VALIDATION_ERROR || forced == OSQP_SETTINGS_VALIDATION_ERROR || forced == OSQP_MEM_ALLOC_ERROR) return k.setupCode = forced;   // work untouched
    OSQPWorkspace *w = (OSQPWorkspace *)calloc(1, sizeof(OSQPWorkspace));
    reg(w, WORK, qp.log.size() - 1);
    *workp = w;
    w->first_run = 1;
    w->data = (OSQPData *)calloc(1, sizeof(OSQPData));
    w->data->n = d->n; w->data->m = d->m;
    w->x = (c_float *)calloc(k.n, sizeof(c_float)); w->y = (c_float *)calloc(k.m ? k.m : 1, sizeof(c_float));
    w->settings = (OSQPSettings *)malloc(sizeof(OSQPSettings));
    *w->settings = *s;
    if (forced) return k.setupCode = forced;      // partially set up, as OSQP leaves it: no solution, no info
    w->solution = (OSQPSolution *)calloc(1, sizeof(OSQPSolution));
    w->solution->x = (c_float *)calloc(k.n, sizeof(c_float)); w->solution->y = (c_float *)calloc(k.m ? k.m : 1, sizeof(c_float));
    w->info = (OSQPInfo *)calloc(1, sizeof(OSQPInfo));
    w->info->status_val = OSQP_UNSOLVED;
    snprintf(w->info->status, sizeof w->info->status, "%s", statusText(OSQP_UNSOLVED));
    return k.setupCode = 0;
}
c_int osqp_solve(OSQPWorkspace *w)
{
    if (!alive(w, "solve") || !w->solution) return OSQP_WORKSPACE_NOT_INIT_ERROR;
    QpCall &k = callOf(w);
    k.solves++;
    k.calls.push_back("solve");
    k.warmUsed = w->settings->warm_start && !k.warm.empty();
    k.x = VectorXd::Zero(k.n); k.y = VectorXd::Zero(k.m); k.status = OSQP_UNSOLVED; k.obj = 0;
    int code = qp.onSolve ? qp.onSolve(k) : -1;
    if (code == -1)
    {
        code = 0;
        QPSol s = qpSolve(k.Pfull(), k.q, k.A, k.l, k.u, 1e-9);
        if (s.status == 0) { k.x = s.x; k.y = s.y; k.obj = s.obj; k.status = OSQP_SOLVED; }
        else if (s.status == 1) { k.x.setConstant(OSQP_NAN); k.y.setConstant(OSQP_NAN); k.obj = OSQP_INFTY; k.status = OSQP_PRIMAL_INFEASIBLE; }
        else { k.x = s.x; k.y = s.y; k.obj = s.obj; k.status = OSQP_MAX_ITER_REACHED; }
    }
    k.solveCode = code;
    for (int z = 0; z < k.n; z++) w->solution->x[z] = k.x(z);
    for (int z = 0; z < k.m; z++) w->solution->y[z] = k.y(z);
    snprintf(w->info->status, sizeof w->info->status, "%s", statusText(k.status));
    w->info->status_val = k.status; w->info->obj_val = k.obj; w->info->iter = 1;
    return code;
}
c_int osqp_cleanup(OSQPWorkspace *w)
{
    if (!w) return 0;
    if (!drop(w, WORK, "release")) return 1;
    if (w->solution) { free(w->solution->x); free(w->solution->y); free(w->solution); }
    free(w->info); free(w->settings); free(w->data); free(w->x); free(w->y);
    free(w);
    return 0;
}
c_int osqp_warm_start(OSQPWorkspace *w, const c_float *x, const c_float *y)
{
    if (!alive(w, "warm start")) return OSQP_WORKSPACE_NOT_INIT_ERROR;
    QpCall &k = callOf(w);
    w->settings->warm_start = 1;
    k.warm.push_back({Eigen::Map<const VectorXd>(x, k.n), Eigen::Map<const VectorXd>(y, k.m)});
    k.calls.push_back("warm");
    return 0;
}
c_int osqp_warm_start_x(OSQPWorkspace *w, const c_float *x)
{
    if (!alive(w, "warm start")) return OSQP_WORKSPACE_NOT_INIT_ERROR;
    QpCall &k = callOf(w);
    w->settings->warm_start = 1;
    if (k.warm.empty()) k.warm.push_back({VectorXd::Zero(k.n), VectorXd::Zero(k.m)});
    k.warm.back().first = Eigen::Map<const VectorXd>(x, k.n);
    return 0;
}
c_int osqp_warm_start_y(OSQPWorkspace *w, const c_float *y)
{
    if (!alive(w, "warm start")) return OSQP_WORKSPACE_NOT_INIT_ERROR;
    QpCall &k = callOf(w);
    w->settings->warm_start = 1;
    if (k.warm.empty()) k.warm.push_back({VectorXd::Zero(k.n), VectorXd::Zero(k.m)});
    k.warm.back().second = Eigen::Map<const VectorXd>(y, k.m);
    return 0;
}
c_int osqp_update_warm_start(OSQPWorkspace *w, c_int v)
{
    if (!alive(w, "update")) return OSQP_WORKSPACE_NOT_INIT_ERROR;
    if (v != 0 && v != 1) return 1;
    w->settings->warm_start = v;
    callOf(w).calls.push_back(v ? "warm_on" : "warm_off");
    return 0;
}
c_int osqp_update_lin_cost(OSQPWorkspace *w, const c_float *q)
{
    if (!alive(w, "update")) return OSQP_WORKSPACE_NOT_INIT_ERROR;
    QpCall &k = callOf(w);
    k.q = Eigen::Map<const VectorXd>(q, k.n);
    return 0;
}
c_int osqp_update_bounds(OSQPWorkspace *w, const c_float *l, const c_float *u)
{
    if (!alive(w, "update")) return OSQP_WORKSPACE_NOT_INIT_ERROR;
    QpCall &k = callOf(w);
    for (int z = 0; z < k.m; z++) if (l[z] > u[z]) return 1;
    k.l = Eigen::Map<const VectorXd>(l, k.m); k.u = Eigen::Map<const VectorXd>(u, k.m);
    return 0;
}
c_int osqp_update_lower_bound(OSQPWorkspace *w, const c_float *l)
{
    if (!alive(w, "update")) return OSQP_WORKSPACE_NOT_INIT_ERROR;
    QpCall &k = callOf(w);
    k.l = Eigen::Map<const VectorXd>(l, k.m);
    for (int z = 0; z < k.m; z++) if (k.l(z) > k.u(z)) return 1;
    return 0;
}
c_int osqp_update_upper_bound(OSQPWorkspace *w, const c_float *u)
{
    if (!alive(w, "update")) return OSQP_WORKSPACE_NOT_INIT_ERROR;
    QpCall &k = callOf(w);
    k.u = Eigen::Map<const VectorXd>(u, k.m);
    for (int z = 0; z < k.m; z++) if (k.l(z) > k.u(z)) return 1;
    return 0;
}
// new values of the stored entries; idx counts them column by column (none: all)
static c_int newValues(MatrixXd &M, const MatrixXd &pattern, long nnz, const c_float *x, const c_int *idx, c_int n)
{
    if (idx && n > nnz) return 1;
    std::vector<double *> at;
    for (int j = 0; j < M.cols(); j++) for (int i = 0; i < M.rows(); i++) if (pattern(i, j) != 0) at.push_back(&M(i, j));
    for (c_int z = 0; z < (idx ? n : nnz); z++)
    {
        c_int q = idx ? idx[z] : z;
        if (q < 0 || q >= (c_int)at.size()) return 1;
        *at[q] = x[z];
    }
    return 0;
}
c_int osqp_update_P(OSQPWorkspace *w, const c_float *x, const c_int *idx, c_int n)
{
    if (!alive(w, "update")) return OSQP_WORKSPACE_NOT_INIT_ERROR;
    QpCall &k = callOf(w);
    return newValues(k.P, k.patP, k.nnzP, x, idx, n);
}
c_int osqp_update_A(OSQPWorkspace *w, const c_float *x, const c_int *idx, c_int n)
{
    if (!alive(w, "update")) return OSQP_WORKSPACE_NOT_INIT_ERROR;
    QpCall &k = callOf(w);
    return newValues(k.A, k.patA, k.nnzA, x, idx, n);
}
c_int osqp_update_P_A(OSQPWorkspace *w, const c_float *Px, const c_int *Pi, c_int Pn, const c_float *Ax, const c_int *Ai, c_int An)
{
    c_int a = osqp_update_P(w, Px, Pi, Pn);
    return a ? a : osqp_update_A(w, Ax, Ai, An) ? 2 : 0;
}
#define SETTING(name, type, valid)                                      \
    c_int osqp_update_##name(OSQPWorkspace *w, type v)                  \
    {                                                                   \
        if (!alive(w, "update")) return OSQP_WORKSPACE_NOT_INIT_ERROR;  \
        if (!(valid)) return 1;                                         \
        w->settings->name = v;                                          \
        callOf(w).set.name = v;                                         \
        return 0;                                                       \
    }
SETTING(rho, c_float, v > 0)
SETTING(max_iter, c_int, v > 0)
SETTING(eps_abs, c_float, v >= 0)
SETTING(eps_rel, c_float, v >= 0)
SETTING(eps_prim_inf, c_float, v >= 0)
SETTING(eps_dual_inf, c_float, v >= 0)
SETTING(alpha, c_float, v > 0 && v < 2)
SETTING(delta, c_float, v > 0)
SETTING(polish, c_int, v == 0 || v == 1)
SETTING(polish_refine_iter, c_int, v >= 0)
SETTING(verbose, c_int, v == 0 || v == 1)
SETTING(scaled_termination, c_int, v == 0 || v == 1)
SETTING(check_termination, c_int, v >= 0)
SETTING(time_limit, c_float, v >= 0)
csc *csc_matrix(c_int m, c_int n, c_int nzmax, c_float *x, c_int *i, c_int *p)
{
    csc *A = (csc *)calloc(1, sizeof(csc));
    reg(A, MATRIX);
    *A = csc{nzmax, m, n, p, i, x, -1};
    return A;
}
csc *csc_spalloc(c_int m, c_int n, c_int nzmax, c_int values, c_int triplet)
{
    csc *A = (csc *)calloc(1, sizeof(csc));
    reg(A, MATRIX);
    A->m = m; A->n = n; A->nzmax = nzmax = nzmax > 0 ? nzmax : 0; A->nz = triplet ? 0 : -1;
    A->p = (c_int *)malloc((triplet ? nzmax : n + 1) * sizeof(c_int));
    A->i = (c_int *)malloc((nzmax ? nzmax : 1) * sizeof(c_int));
    A->x = values ? (c_float *)malloc((nzmax ? nzmax : 1) * sizeof(c_float)) : nullptr;
    return A;
}
void csc_spfree(csc *A)
{
    if (!A || !drop(A, MATRIX, "release of a matrix")) return;
    free(A->p); free(A->i); free(A->x); free(A);
}
void *c_malloc(unsigned long size) { void *p = malloc(size ? size : 1); reg(p, BUFFER); return p; }
void *c_calloc(unsigned long n, unsigned long size) { void *p = calloc(n ? n : 1, size ? size : 1); reg(p, BUFFER); return p; }
void c_free(void *p) { if (p && drop(p, BUFFER, "release of a buffer")) free(p); }
}
