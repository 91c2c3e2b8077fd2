// Observation and control of the solver boundary: the nlopt C entry points are interposed (ld --wrap),
// so that monitors see the complete nonlinear program every optimize call hands over, can evaluate it
// anywhere, and can inject any answer of the solver.
#pragma once
#include "common.hpp"
#include <nlopt.h>

struct SpyCon { bool eq; unsigned m; nlopt_func f; nlopt_mfunc mf; void *data; std::vector<double> tol; };
struct SpyOpt { nlopt_func obj = nullptr; void *objData = nullptr; bool maximize = false; std::vector<SpyCon> cons; };

struct Program
{
    nlopt_opt opt;
    SpyOpt *rec;
    int n;
    VectorXd lb, ub, guess;
    double ftol_rel, ftol_abs, xtol_rel, maxtime, stopval;
    VectorXd xtol_abs, xweights;
    int maxeval;

    double objective(const VectorXd &v, VectorXd *grad = nullptr);
    // values of all equality (or inequality) constraints, in the order handed over
    VectorXd constraints(bool eq, const VectorXd &v, MatrixXd *jac = nullptr);
    VectorXd tolerances(bool eq);
    int blocks(bool eq);
    nlopt_result real(double *x, double *f);
};

// while set, called instead of the real nlopt_optimize; may call p.real
extern std::function<nlopt_result(Program &, double *x, double *f)> spyHook;
extern long spyLive;          // live nlopt objects
extern bool spyInSolver;      // a (real or replaced) solve is running
extern long spyCalls;         // number of nlopt_optimize calls seen

struct HookGuard
{
    HookGuard(std::function<nlopt_result(Program &, double *, double *)> h) { spyHook = std::move(h); }
    ~HookGuard() { spyHook = nullptr; }
};
