// Reference side of the Python monitors: the same dynamic controllers driven by C++ callbacks through the C++ API,
// the user functions shared by both sides, and what the solver boundary (shared by both sides) saw.
#include "nl_scn.hpp"
#include "lm_ctl.hpp"
#include "fake_clock.hpp"
#include <mpc/LMPC.hpp>
#include <pybind11/eigen.h>
#include <pybind11/functional.h>
#include <pybind11/pybind11.h>
#include <pybind11/stl.h>
#include <iostream>
namespace py = pybind11;

namespace
{
struct Dig
{
    uint64_t h = 1469598103934665603ull;
    void add(uint64_t x) { h = (h ^ x) * 1099511628211ull; h ^= h >> 29; }
    void add(int x) { add((uint64_t)(int64_t)x); }
    void add(double x) { if (std::isnan(x)) x = std::numeric_limits<double>::quiet_NaN(); if (x == 0) x = 0; uint64_t b; std::memcpy(&b, &x, 8); add(b); }
    void add(const MatrixXd &m) { add((int)m.rows()); add((int)m.cols()); for (Eigen::Index k = 0; k < m.size(); k++) add(m.data()[k]); }
};

// user functions whose invocations are recorded
struct Fun
{
    std::shared_ptr<Scn> s;
    Dig log;
    long calls = 0, per[5] = {0, 0, 0, 0, 0}, throwAt = -1;
    Fun(uint64_t seed, bool py) { Rng g(seed); ScnOpt o; o.maxph = 4; o.maxnx = 3; o.maxnu = 2; o.allowStatic = false; s = randScn(g, o); }
    Fun(uint64_t seed, const Fun &like) { Rng g(seed); ScnOpt o; o.allowStatic = false; s = randScn(g, o, &like.s->d); }
    void touch(int kind)
    {
        calls++; per[kind]++;
        log.add(kind);
        if (calls == throwAt) { throwAt = -1; throw std::runtime_error(MSG("boom " << calls)); }
    }
    VectorXd f(const VectorXd &x, const VectorXd &u, unsigned k) { log.add(x); log.add(u); log.add((int)k); touch(0); return s->f(x, u, k); }
    VectorXd h(const VectorXd &x, const VectorXd &u, unsigned k) { log.add(x); log.add(u); log.add((int)k); touch(1); return s->h(x, u, k); }
    double cost(const MatrixXd &X, const MatrixXd &Y, const MatrixXd &U, double e) { log.add(X); log.add(Y); log.add(U); log.add(e); touch(2); return s->cost(X, Y, U, e); }
    VectorXd ineqs(const MatrixXd &X, const MatrixXd &Y, const MatrixXd &U, double e) { log.add(X); log.add(Y); log.add(U); log.add(e); touch(3); return s->ineqs(X, Y, U, e); }
    VectorXd eqs(const MatrixXd &X, const MatrixXd &U) { log.add(X); log.add(U); touch(4); return s->eqs(X, U); }
};

// what the solver boundary sees; both sides run through it
struct Boundary
{
    Dig d;
    long nl = 0, lin = 0, forced = 1000;
    Rng clock{1};
    void arm()
    {
        spyHook = [this](Program &p, double *x, double *f) -> nlopt_result {
            nl++;
            d.add(p.n); d.add(p.lb); d.add(p.ub); d.add(p.guess); d.add(p.ftol_rel); d.add(p.ftol_abs); d.add(p.xtol_rel); d.add(p.xtol_abs); d.add(p.maxtime); d.add(p.stopval); d.add(p.maxeval);
            d.add(p.blocks(true)); d.add(p.blocks(false)); d.add(p.tolerances(true)); d.add(p.tolerances(false));
            fakeNs += clock.i(1000, 2000000000);
            nlopt_result r = p.real(x, f);
            d.add((int)r); d.add(MatrixXd(Eigen::Map<VectorXd>(x, p.n))); d.add(*f);
            return forced == 1000 ? r : (nlopt_result)forced;
        };
        qp.onSetup = [this](QpCall &k) {
            lin++;
            d.add(k.P); d.add(k.A); d.add(MatrixXd(k.q)); d.add(MatrixXd(k.l)); d.add(MatrixXd(k.u));
            const OSQPSettings &s = k.set;
            for (double v : {(double)s.rho, (double)s.sigma, (double)s.scaling, (double)s.adaptive_rho, (double)s.max_iter, (double)s.eps_abs, (double)s.eps_rel, (double)s.eps_prim_inf, (double)s.eps_dual_inf,
                             (double)s.alpha, (double)s.polish, (double)s.verbose, (double)s.warm_start, (double)s.time_limit, (double)s.check_termination, (double)s.scaled_termination}) d.add(v);
            return 0;
        };
        qp.onSolve = [this](QpCall &k) {
            for (auto &c : k.calls) for (char ch : c) d.add((int)ch);
            for (auto &w : k.warm) { d.add(MatrixXd(w.first)); d.add(MatrixXd(w.second)); }
            fakeNs += clock.i(1000, 2000000000);
            if (forced == 1000) return -1;
            k.status = (int)forced;
            Rng g(k.n * 1000 + k.m);
            k.x = g.vec(k.n); k.y = g.vec(k.m); k.obj = g.uni(-1, 1);
            return 0;
        };
    }
    py::tuple drain() { auto t = py::make_tuple(d.h, nl, lin, (long)qp.errors.size()); d = Dig(); nl = lin = 0; qp.clear(); return t; }
    void begin(uint64_t clockSeed, long code) { clock = Rng(clockSeed); forced = code; }
};
Boundary boundary;

py::tuple seqTuple(const MatrixXd &a, const MatrixXd &b, const MatrixXd &c) { return py::make_tuple(a, b, c); }
const char *statusName(int s)
{
    static const char *names[] = {"SUCCESS", "MAX_ITERATION", "INFEASIBLE", "ERROR", "UNKNOWN"};
    return s >= 0 && s < 5 ? names[s] : "?";
}
// LS_* numbering of lm_ctl.hpp
const char *linStatus(int s) { static const char *n[] = {"SUCCESS", "MAX_ITERATION", "INFEASIBLE", "ERROR", "UNKNOWN"}; return n[s]; }
py::dict perStatus(const std::map<int, int> &m) { py::dict d; for (auto &k : m) d[statusName(k.first)] = k.second; return d; }

struct NL
{
    std::unique_ptr<ICtl> m;
    std::vector<std::shared_ptr<Fun>> keep;
    NL(int nx, int nu, int ny, int ph, int ch, int ineq, int eq) : m(makeDynamic({nx, nu, ny, ph, ch, ineq, eq})) {}
    void params(const py::dict &p)
    {
        NLPar q;
        for (auto k : p)
        {
            std::string n = py::str(k.first);
            if (n == "maximum_iteration") q.maxeval = k.second.cast<int>();
            else if (n == "time_limit") q.time_limit = k.second.cast<double>();
            else if (n == "enable_warm_start") q.warm = k.second.cast<bool>();
            else if (n == "relative_ftol") q.rel_f = k.second.cast<double>();
            else if (n == "relative_xtol") q.rel_x = k.second.cast<double>();
            else if (n == "absolute_ftol") q.abs_f = k.second.cast<double>();
            else if (n == "absolute_xtol") q.abs_x = k.second.cast<double>();
            else if (n == "hard_constraints") q.hard = k.second.cast<bool>();
            else throw std::runtime_error("harness: field " + n);
        }
        m->setParams(q);
    }
    py::tuple res(const Res &r) { return py::make_tuple(r.solver_status, r.feasible, r.msg, r.cost, statusName(r.status), r.cmd); }
};
struct LinC
{
    std::unique_ptr<ILin> m;
    LinC(int nx, int nu, int ndu, int ny, int ph, int ch) : m(makeLinDynamic({nx, nu, ndu, ny, ph, ch})) {}
    void params(const py::dict &p)
    {
        LPar q;
        for (auto k : p)
        {
            std::string n = py::str(k.first);
            if (n == "maximum_iteration") q.maxit = k.second.cast<int>();
            else if (n == "time_limit") q.time_limit = k.second.cast<double>();
            else if (n == "enable_warm_start") q.warm = k.second.cast<bool>();
            else if (n == "alpha") q.alpha = k.second.cast<double>();
            else if (n == "rho") q.rho = k.second.cast<double>();
            else if (n == "eps_rel") q.eps_rel = k.second.cast<double>();
            else if (n == "eps_abs") q.eps_abs = k.second.cast<double>();
            else if (n == "eps_prim_inf") q.eps_prim = k.second.cast<double>();
            else if (n == "eps_dual_inf") q.eps_dual = k.second.cast<double>();
            else if (n == "verbose") q.verbose = k.second.cast<bool>();
            else if (n == "adaptive_rho") q.adaptive = k.second.cast<bool>();
            else if (n == "polish") q.polish = k.second.cast<bool>();
            else throw std::runtime_error("harness: field " + n);
        }
        m->params(q);
    }
    py::tuple res(const LRes &r) { return py::make_tuple(r.solver_status, r.feasible, r.msg, r.cost, linStatus(r.status), r.cmd); }
};
std::ostringstream *capture = nullptr;
std::streambuf *saved = nullptr;
}

PYBIND11_MODULE(verif_ref, m)
{
    boundary.arm();
    m.def("begin", [](uint64_t s, long code) { boundary.begin(s, code); });
    m.def("drain", [] { return boundary.drain(); });
    m.def("now", [] { return fakeNs; });
    m.def("set_now", [](long long t) { fakeNs = t; });
    m.def("live", [] { return py::make_tuple(spyLive, qp.live); });
    m.def("capture_begin", [] { delete capture; capture = new std::ostringstream; saved = std::cout.rdbuf(capture->rdbuf()); });
    m.def("capture_end", [] { std::cout.flush(); std::cout.rdbuf(saved); return py::bytes(capture->str()); });
    m.def("enums", [] {
        py::dict d;
        d["LoggerLevel"] = py::dict(py::arg("DEEP") = (int)mpc::Logger::DEEP, py::arg("NORMAL") = (int)mpc::Logger::NORMAL, py::arg("ALERT") = (int)mpc::Logger::ALERT, py::arg("NONE") = (int)mpc::Logger::NONE);
        d["ResultStatus"] = py::dict(py::arg("UNKNOWN") = (int)mpc::ResultStatus::UNKNOWN, py::arg("SUCCESS") = (int)mpc::ResultStatus::SUCCESS, py::arg("MAX_ITERATION") = (int)mpc::ResultStatus::MAX_ITERATION,
                                     py::arg("INFEASIBLE") = (int)mpc::ResultStatus::INFEASIBLE, py::arg("ERROR") = (int)mpc::ResultStatus::ERROR);
        return d;
    });
    m.def("defaults", [] {
        mpc::NLParameters n; mpc::LParameters l;
        py::dict a, b;
        a["maximum_iteration"] = n.maximum_iteration; a["time_limit"] = n.time_limit; a["enable_warm_start"] = n.enable_warm_start; a["relative_ftol"] = n.relative_ftol; a["relative_xtol"] = n.relative_xtol;
        a["absolute_ftol"] = n.absolute_ftol; a["absolute_xtol"] = n.absolute_xtol; a["hard_constraints"] = n.hard_constraints;
        b["maximum_iteration"] = l.maximum_iteration; b["time_limit"] = l.time_limit; b["enable_warm_start"] = l.enable_warm_start; b["alpha"] = l.alpha; b["rho"] = l.rho; b["eps_rel"] = l.eps_rel;
        b["eps_abs"] = l.eps_abs; b["eps_prim_inf"] = l.eps_prim_inf; b["eps_dual_inf"] = l.eps_dual_inf; b["verbose"] = l.verbose; b["adaptive_rho"] = l.adaptive_rho; b["polish"] = l.polish;
        return py::make_tuple(a, b);
    });

    py::class_<Fun, std::shared_ptr<Fun>>(m, "Fun")
        .def(py::init<uint64_t, bool>()).def(py::init<uint64_t, const Fun &>())
        .def("f", &Fun::f).def("h", &Fun::h).def("cost", &Fun::cost).def("ineqs", &Fun::ineqs).def("eqs", &Fun::eqs)
        .def("digest", [](Fun &f) { return py::make_tuple(f.log.h, f.calls, f.per[0], f.per[1], f.per[2], f.per[3], f.per[4]); })
        .def("throw_at", [](Fun &f, long k) { f.throwAt = k < 0 ? -1 : f.calls + k; })
        .def("pending", [](Fun &f) { return f.throwAt >= 0; })
        .def("dims", [](Fun &f) { auto &d = f.s->d; return py::make_tuple(d.nx, d.nu, d.ny, d.ph, d.ch, d.ineq, d.eq); })
        .def("flags", [](Fun &f) { auto &s = *f.s; return py::make_tuple(s.cont, s.hasOut, s.hasIneq, s.hasEq); })
        .def("tols", [](Fun &f) { auto &s = *f.s; return py::make_tuple(s.tolState(), s.tolIneq(), s.tolEq()); })
        .def("scales", [](Fun &f) { auto &s = *f.s; return py::make_tuple(s.useScaleX, s.sx, s.useScaleU, s.su); })
        .def("ts", [](Fun &f) { return f.s->Ts; });

    py::class_<NL>(m, "NL")
        .def(py::init<int, int, int, int, int, int, int>())
        .def("setDiscretizationSamplingTime", [](NL &n, double t) { return n.m->setTs(t); })
        .def("setInputScale", [](NL &n, const VectorXd &s) { n.m->setInputScale(s); })
        .def("setStateScale", [](NL &n, const VectorXd &s) { n.m->setStateScale(s); })
        .def("setOptimizerParameters", &NL::params)
        .def("setLoggerLevel", [](NL &n, int l) { return n.m->loggerLevel(l); })
        .def("setLoggerPrefix", [](NL &n, const std::string &p) { return n.m->loggerPrefix(p); })
        .def("optimize", [](NL &n, const VectorXd &x, const VectorXd &u) { return n.res(n.m->optimize(x, u)); })
        .def("getLastResult", [](NL &n) { return n.res(n.m->last()); })
        .def("getOptimalSequence", [](NL &n) { auto s = n.m->seq(); return seqTuple(s.state, s.output, s.input); })
        .def("getExecutionStats", [](NL &n) { auto s = n.m->stats(); return py::make_tuple(s.n, perStatus(s.perStatus), s.total, s.mn, s.mx, s.avg, s.sd); })
        .def("resetStats", [](NL &n) { n.m->resetStats(); })
        .def("setStateBounds", [](NL &n, const MatrixXd &a, const MatrixXd &b) { return n.m->stateBoundsMat(a, b); })
        .def("setInputBounds", [](NL &n, const MatrixXd &a, const MatrixXd &b) { return n.m->inputBoundsMat(a, b); })
        .def("setOutputBounds", [](NL &n, const MatrixXd &a, const MatrixXd &b) { return n.m->outputBoundsMat(a, b); })
        .def("setStateBounds", [](NL &n, const VectorXd &a, const VectorXd &b, std::pair<int, int> s) { return n.m->stateBounds(a, b, s.first, s.second); })
        .def("setInputBounds", [](NL &n, const VectorXd &a, const VectorXd &b, std::pair<int, int> s) { return n.m->inputBounds(a, b, s.first, s.second); })
        .def("setOutputBounds", [](NL &n, const VectorXd &a, const VectorXd &b, std::pair<int, int> s) { return n.m->outputBounds(a, b, s.first, s.second); })
        .def("setStateSpaceFunction", [](NL &n, std::shared_ptr<Fun> f, double tol) { n.keep.push_back(f); return n.m->setState([f](VectorXd &z, const VectorXd &x, const VectorXd &u, unsigned k) { z = f->f(x, u, k); }, (float)tol); })
        .def("setOutputFunction", [](NL &n, std::shared_ptr<Fun> f) { n.keep.push_back(f); return n.m->setOutput([f](VectorXd &z, const VectorXd &x, const VectorXd &u, unsigned k) { z = f->h(x, u, k); }); })
        .def("setObjectiveFunction", [](NL &n, std::shared_ptr<Fun> f) { n.keep.push_back(f); return n.m->setObjective([f](const MatrixXd &X, const MatrixXd &Y, const MatrixXd &U, double e) { return f->cost(X, Y, U, e); }); })
        .def("setIneqConFunction", [](NL &n, std::shared_ptr<Fun> f, double tol) { n.keep.push_back(f); return n.m->setIneq([f](VectorXd &z, const MatrixXd &X, const MatrixXd &Y, const MatrixXd &U, double e) { z = f->ineqs(X, Y, U, e); }, (float)tol); })
        .def("setEqConFunction", [](NL &n, std::shared_ptr<Fun> f, double tol) { n.keep.push_back(f); return n.m->setEq([f](VectorXd &z, const MatrixXd &X, const MatrixXd &U) { z = f->eqs(X, U); }, (float)tol); });

    using V = VectorXd; using M = MatrixXd; using SL = std::pair<int, int>;
    py::class_<LinC>(m, "Lin")
        .def(py::init<int, int, int, int, int, int>())
        .def("setOptimizerParameters", &LinC::params)
        .def("setLoggerLevel", [](LinC &n, int l) { return n.m->loggerLevel(l); })
        .def("setLoggerPrefix", [](LinC &n, const std::string &p) { return n.m->loggerPrefix(p); })
        .def("optimize", [](LinC &n, const V &x, const V &u) { return n.res(n.m->optimize(x, u)); })
        .def("getLastResult", [](LinC &n) { return n.res(n.m->last()); })
        .def("getOptimalSequence", [](LinC &n) { auto s = n.m->seq(); return seqTuple(s.state, s.output, s.input); })
        .def("getExecutionStats", [](LinC &n) { auto s = n.m->stats(); return py::make_tuple(s.n, perStatus(s.perStatus), s.total, s.mn, s.mx, s.avg, s.sd); })
        .def("resetStats", [](LinC &n) { n.m->resetStats(); })
        .def("setStateBounds", [](LinC &n, const M &a, const M &b) { return n.m->stateBoundsMat(a, b); })
        .def("setInputBounds", [](LinC &n, const M &a, const M &b) { return n.m->inputBoundsMat(a, b); })
        .def("setOutputBounds", [](LinC &n, const M &a, const M &b) { return n.m->outputBoundsMat(a, b); })
        .def("setStateBounds", [](LinC &n, const V &a, const V &b, SL s) { return n.m->stateBounds(a, b, s.first, s.second); })
        .def("setInputBounds", [](LinC &n, const V &a, const V &b, SL s) { return n.m->inputBounds(a, b, s.first, s.second); })
        .def("setOutputBounds", [](LinC &n, const V &a, const V &b, SL s) { return n.m->outputBounds(a, b, s.first, s.second); })
        .def("setStateSpaceModel", [](LinC &n, const M &a, const M &b, const M &c) { return n.m->model(a, b, c); })
        .def("setDisturbances", [](LinC &n, const M &a, const M &b) { return n.m->disturbances(a, b); })
        .def("getSolverWarmStartPrimal", [](LinC &n) { return n.m->warmX(); })
        .def("getSolverWarmStartDual", [](LinC &n) { return n.m->warmY(); })
        .def("setSolverWarmStart", [](LinC &n, const std::vector<double> &a, const std::vector<double> &b) { n.m->setWarm(a, b); })
        .def("setObjectiveWeights", [](LinC &n, const M &a, const M &b, const M &c) { return n.m->weightsMat(a, b, c); })
        .def("setObjectiveWeights", [](LinC &n, const V &a, const V &b, const V &c, SL s) { return n.m->weights(a, b, c, s.first, s.second); })
        .def("setScalarConstraintAt", [](LinC &n, unsigned k, double lo, double hi, const V &a, const V &b) { return n.m->scalarAt(k, lo, hi, a, b); })
        .def("setScalarConstraint", [](LinC &n, double lo, double hi, const V &a, const V &b, SL s) { return n.m->scalar(lo, hi, a, b, s.first, s.second); })
        .def("setExogenousInputs", [](LinC &n, const M &a) { return n.m->exoMat(a); })
        .def("setExogenousInputs", [](LinC &n, const V &a, SL s) { return n.m->exo(a, s.first, s.second); })
        .def("setReferences", [](LinC &n, const M &a, const M &b, const M &c) { return n.m->refsMat(a, b, c); })
        .def("setReferences", [](LinC &n, const V &a, const V &b, const V &c, SL s) { return n.m->refs(a, b, c, s.first, s.second); });
}
