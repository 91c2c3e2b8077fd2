#include "nlopt_spy.hpp"

std::function<nlopt_result(Program &, double *, double *)> spyHook;
long spyLive = 0, spyCalls = 0;
bool spyInSolver = false;
static std::map<nlopt_opt, SpyOpt> &recs() { static std::map<nlopt_opt, SpyOpt> r; return r; }

extern "C" {
nlopt_opt __real_nlopt_create(nlopt_algorithm a, unsigned n);
nlopt_opt __real_nlopt_copy(const nlopt_opt o);
void __real_nlopt_destroy(nlopt_opt o);
nlopt_result __real_nlopt_optimize(nlopt_opt o, double *x, double *f);
nlopt_result __real_nlopt_set_min_objective(nlopt_opt o, nlopt_func f, void *d);
nlopt_result __real_nlopt_set_max_objective(nlopt_opt o, nlopt_func f, void *d);
nlopt_result __real_nlopt_remove_inequality_constraints(nlopt_opt o);
nlopt_result __real_nlopt_remove_equality_constraints(nlopt_opt o);
nlopt_result __real_nlopt_add_inequality_constraint(nlopt_opt o, nlopt_func f, void *d, double tol);
nlopt_result __real_nlopt_add_equality_constraint(nlopt_opt o, nlopt_func f, void *d, double tol);
nlopt_result __real_nlopt_add_inequality_mconstraint(nlopt_opt o, unsigned m, nlopt_mfunc f, void *d, const double *tol);
nlopt_result __real_nlopt_add_equality_mconstraint(nlopt_opt o, unsigned m, nlopt_mfunc f, void *d, const double *tol);

nlopt_opt __wrap_nlopt_create(nlopt_algorithm a, unsigned n)
{
    nlopt_opt o = __real_nlopt_create(a, n);
    if (o) { recs()[o] = SpyOpt(); spyLive++; }
    return o;
}
nlopt_opt __wrap_nlopt_copy(const nlopt_opt s)
{
    nlopt_opt o = __real_nlopt_copy(s);
    if (o) { recs()[o] = SpyOpt(); spyLive++; }   // data of the copy are unknown: programs of copies are not evaluated
    return o;
}
void __wrap_nlopt_destroy(nlopt_opt o)
{
    if (o && recs().erase(o)) spyLive--;
    __real_nlopt_destroy(o);
}
nlopt_result __wrap_nlopt_set_min_objective(nlopt_opt o, nlopt_func f, void *d)
{
    nlopt_result r = __real_nlopt_set_min_objective(o, f, d);
    if (r > 0) { auto &q = recs()[o]; q.obj = f; q.objData = d; q.maximize = false; }
    return r;
}
nlopt_result __wrap_nlopt_set_max_objective(nlopt_opt o, nlopt_func f, void *d)
{
    nlopt_result r = __real_nlopt_set_max_objective(o, f, d);
    if (r > 0) { auto &q = recs()[o]; q.obj = f; q.objData = d; q.maximize = true; }
    return r;
}
static void dropCons(nlopt_opt o, bool eq)
{
    auto &v = recs()[o].cons;
    std::vector<SpyCon> keep;
    for (auto &k : v) if (k.eq != eq) keep.push_back(k);
    v.swap(keep);
}
nlopt_result __wrap_nlopt_remove_inequality_constraints(nlopt_opt o) { dropCons(o, false); return __real_nlopt_remove_inequality_constraints(o); }
nlopt_result __wrap_nlopt_remove_equality_constraints(nlopt_opt o) { dropCons(o, true); return __real_nlopt_remove_equality_constraints(o); }
nlopt_result __wrap_nlopt_add_inequality_constraint(nlopt_opt o, nlopt_func f, void *d, double tol)
{
    nlopt_result r = __real_nlopt_add_inequality_constraint(o, f, d, tol);
    if (r > 0) recs()[o].cons.push_back({false, 1, f, nullptr, d, {tol}});
    return r;
}
nlopt_result __wrap_nlopt_add_equality_constraint(nlopt_opt o, nlopt_func f, void *d, double tol)
{
    nlopt_result r = __real_nlopt_add_equality_constraint(o, f, d, tol);
    if (r > 0) recs()[o].cons.push_back({true, 1, f, nullptr, d, {tol}});
    return r;
}
nlopt_result __wrap_nlopt_add_inequality_mconstraint(nlopt_opt o, unsigned m, nlopt_mfunc f, void *d, const double *tol)
{
    nlopt_result r = __real_nlopt_add_inequality_mconstraint(o, m, f, d, tol);
    if (r > 0 && m) recs()[o].cons.push_back({false, m, nullptr, f, d, tol ? std::vector<double>(tol, tol + m) : std::vector<double>(m, 0.0)});
    return r;
}
nlopt_result __wrap_nlopt_add_equality_mconstraint(nlopt_opt o, unsigned m, nlopt_mfunc f, void *d, const double *tol)
{
    nlopt_result r = __real_nlopt_add_equality_mconstraint(o, m, f, d, tol);
    if (r > 0 && m) recs()[o].cons.push_back({true, m, nullptr, f, d, tol ? std::vector<double>(tol, tol + m) : std::vector<double>(m, 0.0)});
    return r;
}
nlopt_result __wrap_nlopt_optimize(nlopt_opt o, double *x, double *f)
{
    spyCalls++;
    spyInSolver = true;
    struct Reset { ~Reset() { spyInSolver = false; } } reset;
    if (!spyHook) return __real_nlopt_optimize(o, x, f);
    Program p;
    p.opt = o;
    p.rec = &recs()[o];
    p.n = (int)nlopt_get_dimension(o);
    p.lb.resize(p.n); p.ub.resize(p.n); p.xtol_abs.resize(p.n); p.xweights.resize(p.n);
    nlopt_get_lower_bounds(o, p.lb.data());
    nlopt_get_upper_bounds(o, p.ub.data());
    nlopt_get_xtol_abs(o, p.xtol_abs.data());
    nlopt_get_x_weights(o, p.xweights.data());
    p.guess = Eigen::Map<VectorXd>(x, p.n);
    p.ftol_rel = nlopt_get_ftol_rel(o); p.ftol_abs = nlopt_get_ftol_abs(o); p.xtol_rel = nlopt_get_xtol_rel(o);
    p.maxtime = nlopt_get_maxtime(o); p.stopval = nlopt_get_stopval(o); p.maxeval = nlopt_get_maxeval(o);
    return spyHook(p, x, f);
}
}

double Program::objective(const VectorXd &v, VectorXd *grad)
{
    if (grad) grad->setZero(n);
    return rec->obj((unsigned)n, v.data(), grad ? grad->data() : nullptr, rec->objData) * (rec->maximize ? -1 : 1);
}
VectorXd Program::constraints(bool eq, const VectorXd &v, MatrixXd *jac)
{
    int m = 0;
    for (auto &k : rec->cons) if (k.eq == eq) m += k.m;
    VectorXd r = VectorXd::Zero(m);
    Eigen::Matrix<double, Eigen::Dynamic, Eigen::Dynamic, Eigen::RowMajor> J;
    if (jac) J.setZero(m, n);
    int at = 0;
    for (auto &k : rec->cons)
    {
        if (k.eq != eq) continue;
        double *g = jac ? J.data() + (size_t)at * n : nullptr;
        if (k.mf) k.mf(k.m, r.data() + at, (unsigned)n, v.data(), g, k.data);
        else r(at) = k.f((unsigned)n, v.data(), g, k.data);
        at += k.m;
    }
    if (jac) *jac = J;
    return r;
}
VectorXd Program::tolerances(bool eq)
{
    std::vector<double> t;
    for (auto &k : rec->cons) if (k.eq == eq) t.insert(t.end(), k.tol.begin(), k.tol.end());
    return Eigen::Map<VectorXd>(t.data(), t.size());
}
int Program::blocks(bool eq)
{
    int b = 0;
    for (auto &k : rec->cons) b += k.eq == eq;
    return b;
}
nlopt_result Program::real(double *x, double *f) { return __real_nlopt_optimize(opt, x, f); }
