#pragma once
#include <cstring>
#include <map>
#include "lm_ctl.hpp"
#include "enum_names.hpp"
#include <mpc/LMPC.hpp>

template <int nx, int nu, int ndu, int ny, int ph, int ch>
struct Lin : ILin
{
    using M = mpc::LMPC<nx, nu, ndu, ny, ph, ch>;
    using S = mpc::HorizonSlice;
    static constexpr bool dyn = nx == Eigen::Dynamic;
    M m;
    std::unique_ptr<ILin> clone() override
    {
        if constexpr (std::is_copy_constructible_v<M>) return std::make_unique<Lin>(*this);
        else return nullptr;
    }
    Lin() requires(!dyn) { isStatic = true; d = {nx, nu, ndu, ny, ph, ch}; }
    Lin(const LDims &q) requires(dyn) : m(q.nx, q.nu, q.ndu, q.ny, q.ph, q.ch) { d = q; }
    using X = mpc::cvec<nx>; using U = mpc::cvec<nu>; using Y = mpc::cvec<ny>; using D = mpc::cvec<ndu>;
    using Xm = mpc::mat<nx, ph>; using Um = mpc::mat<nu, ph>; using Ym = mpc::mat<ny, ph>; using Dm = mpc::mat<ndu, ph>; using Uc = mpc::mat<nu, ch>;

    bool model(const MatrixXd &A, const MatrixXd &B, const MatrixXd &C) override { return m.setStateSpaceModel(mpc::mat<nx, nx>(A), mpc::mat<nx, nu>(B), mpc::mat<ny, nx>(C)); }
    bool disturbances(const MatrixXd &Bd, const MatrixXd &Dd) override { return m.setDisturbances(mpc::mat<nx, ndu>(Bd), mpc::mat<ny, ndu>(Dd)); }
    bool weightsMat(const MatrixXd &a, const MatrixXd &b, const MatrixXd &c) override { return m.setObjectiveWeights(Ym(a), Um(b), Um(c)); }
    bool weights(const VectorXd &a, const VectorXd &b, const VectorXd &c, int s, int e) override { return m.setObjectiveWeights(Y(a), U(b), U(c), S(s, e)); }
    bool stateBoundsMat(const MatrixXd &a, const MatrixXd &b) override { return m.setStateBounds(Xm(a), Xm(b)); }
    bool inputBoundsMat(const MatrixXd &a, const MatrixXd &b) override { return m.setInputBounds(Uc(a), Uc(b)); }
    bool outputBoundsMat(const MatrixXd &a, const MatrixXd &b) override { return m.setOutputBounds(Ym(a), Ym(b)); }
    bool stateBounds(const VectorXd &a, const VectorXd &b, int s, int e) override { return m.setStateBounds(X(a), X(b), S(s, e)); }
    bool inputBounds(const VectorXd &a, const VectorXd &b, int s, int e) override { return m.setInputBounds(U(a), U(b), S(s, e)); }
    bool outputBounds(const VectorXd &a, const VectorXd &b, int s, int e) override { return m.setOutputBounds(Y(a), Y(b), S(s, e)); }
    template <class Q> static int at(Q &q, unsigned k, const VectorXd &xl, const VectorXd &ul, const VectorXd &yl, const VectorXd &xu, const VectorXd &uu, const VectorXd &yu)
    {
#ifdef LM_NO_SETCONSTRAINTS
        return -1;
#else
        return q.setConstraints(k, X(xl), U(ul), Y(yl), X(xu), U(uu), Y(yu));
#endif
    }
    int constraintsAt(unsigned k, const VectorXd &xl, const VectorXd &ul, const VectorXd &yl, const VectorXd &xu, const VectorXd &uu, const VectorXd &yu) override { return at(m, k, xl, ul, yl, xu, uu, yu); }
    bool scalar(double lo, double hi, const VectorXd &a, const VectorXd &b, int s, int e) override { return m.setScalarConstraint(lo, hi, X(a), U(b), S(s, e)); }
    bool scalarAt(unsigned k, double lo, double hi, const VectorXd &a, const VectorXd &b) override { return m.setScalarConstraint(k, lo, hi, X(a), U(b)); }
    bool refsMat(const MatrixXd &a, const MatrixXd &b, const MatrixXd &c) override { return m.setReferences(Ym(a), Um(b), Um(c)); }
    bool refs(const VectorXd &a, const VectorXd &b, const VectorXd &c, int s, int e) override { return m.setReferences(Y(a), U(b), U(c), S(s, e)); }
    bool exoMat(const MatrixXd &a) override { return m.setExogenousInputs(Dm(a)); }
    bool exo(const VectorXd &a, int s, int e) override { return m.setExogenousInputs(D(a), S(s, e)); }
    void params(const LPar &p) override
    {
        mpc::LParameters q;
        // what has its default value is left alone
        const LPar def;
        auto put = [](auto &field, auto value, auto standard) { if (value != standard) field = value; };
        put(q.alpha, p.alpha, def.alpha); put(q.rho, p.rho, def.rho); put(q.eps_rel, p.eps_rel, def.eps_rel); put(q.eps_abs, p.eps_abs, def.eps_abs);
        put(q.eps_prim_inf, p.eps_prim, def.eps_prim); put(q.eps_dual_inf, p.eps_dual, def.eps_dual);
        put(q.verbose, p.verbose, def.verbose); put(q.adaptive_rho, p.adaptive, def.adaptive); put(q.polish, p.polish, def.polish);
        put(q.enable_warm_start, p.warm, def.warm); put(q.maximum_iteration, p.maxit, def.maxit); put(q.time_limit, p.time_limit, def.time_limit);
        m.setOptimizerParameters(q);
    }
    bool refusesTs() override { try { m.setDiscretizationSamplingTime(0.1); } catch (const std::runtime_error &) { return true; } return false; }
    bool refusesInputScale() override { try { m.setInputScale(U(VectorXd::Ones(d.nu))); } catch (const std::runtime_error &) { return true; } return false; }
    bool refusesStateScale() override { try { m.setStateScale(X(VectorXd::Ones(d.nx))); } catch (const std::runtime_error &) { return true; } return false; }
    static LRes conv(const mpc::Result<nu> &r)
    {
        int st = statusIndex(r.status);
        return {r.solver_status, r.is_feasible, r.solver_status_msg, r.cost, st, r.cmd};
    }
    LRes optimize(const VectorXd &x0, const VectorXd &u0) override { return conv(m.optimize(X(x0), U(u0))); }
    LRes last() override { return conv(m.getLastResult()); }
    LSeq seq() override { auto q = m.getOptimalSequence(); return {q.state, q.output, q.input}; }
    int solves() override { return m.getExecutionStats().numberOfSolutions; }
    std::map<int, int> statuses() override { std::map<int, int> r; for (auto &k : m.getExecutionStats().solutionsStates) r[statusIndex(k.first)] += k.second; return r; }
    void resetStats() override { m.resetStats(); }
    std::vector<double> warmX() override { return m.getSolverWarmStartPrimal(); }
    std::vector<double> warmY() override { return m.getSolverWarmStartDual(); }
    void setWarm(const std::vector<double> &a, const std::vector<double> &b) override { m.setSolverWarmStart(a, b); }
    bool loggerPrefix(const std::string &p) override { return m.setLoggerPrefix(p); }
    LStats stats() override
    {
        const mpc::SolutionStats &s = m.getExecutionStats();
        LStats r{s.numberOfSolutions, {}, s.totalSolutionTime.count(), s.minSolutionTime.count(), s.maxSolutionTime.count(), s.averageSolutionTime.count(), s.standardDeviation};
        for (auto &k : s.solutionsStates) r.perStatus[statusIndex(k.first)] += k.second;
        return r;
    }
    bool loggerLevel(int l) override { return m.setLoggerLevel(logLevel(l)); }
};

template <int nx, int nu, int ndu, int ny, int ph, int ch>
struct Bld : IBuilder
{
    static constexpr bool dyn = nx == Eigen::Dynamic;
    using B_ = mpc::ProblemBuilder<mpc::MPCSize(nx, nu, ndu, ny, ph, ch, 0, 0)>;
    using X = mpc::cvec<nx>; using U = mpc::cvec<nu>; using Y = mpc::cvec<ny>; using D = mpc::cvec<ndu>;
    using Xm = mpc::mat<nx, ph>; using Um = mpc::mat<nu, ph>; using Ym = mpc::mat<ny, ph>; using Dm = mpc::mat<ndu, ph>; using Uc = mpc::mat<nu, ch>;
    B_ b;
    Bld(const LDims &q) { d = q; b.initialize(q.nx, q.nu, q.ndu, q.ny, q.ph, q.ch); }
    bool model(const MatrixXd &A, const MatrixXd &B, const MatrixXd &C) override { return b.setStateModel(mpc::mat<nx, nx>(A), mpc::mat<nx, nu>(B), mpc::mat<ny, nx>(C)); }
    bool disturbances(const MatrixXd &Bd, const MatrixXd &Dd) override { return b.setExogenousInput(mpc::mat<nx, ndu>(Bd), mpc::mat<ny, ndu>(Dd)); }
    bool weightsMat(const MatrixXd &p, const MatrixXd &q, const MatrixXd &r) override { return b.setObjective(Ym(p), Um(q), Um(r)); }
    bool weightsAt(unsigned k, const VectorXd &p, const VectorXd &q, const VectorXd &r) override { return b.setObjective(k, Y(p), U(q), U(r)); }
    bool stateBoundsMat(const MatrixXd &p, const MatrixXd &q) override { return b.setStateBounds(Xm(p), Xm(q)); }
    bool inputBoundsMat(const MatrixXd &p, const MatrixXd &q) override { return b.setInputBounds(Uc(p), Uc(q)); }
    bool outputBoundsMat(const MatrixXd &p, const MatrixXd &q) override { return b.setOutputBounds(Ym(p), Ym(q)); }
    bool stateBoundsAt(unsigned k, const VectorXd &p, const VectorXd &q) override { return b.setStateBounds(k, X(p), X(q)); }
    bool inputBoundsAt(unsigned k, const VectorXd &p, const VectorXd &q) override { return b.setInputBounds(k, U(p), U(q)); }
    bool outputBoundsAt(unsigned k, const VectorXd &p, const VectorXd &q) override { return b.setOutputBounds(k, Y(p), Y(q)); }
    bool scalarVec(const VectorXd &lo, const VectorXd &hi, const VectorXd &p, const VectorXd &q) override { return b.setScalarConstraint(mpc::cvec<ph>(lo), mpc::cvec<ph>(hi), X(p), U(q)); }
    bool scalarAt(unsigned k, double lo, double hi, const VectorXd &p, const VectorXd &q) override { return b.setScalarConstraint(k, lo, hi, X(p), U(q)); }
    VectorXd map(const VectorXd &x, const VectorXd &dist) override { return b.mapToOutput(X(x), D(dist)); }
    QpCall get(const VectorXd &x0, const VectorXd &u0, const MatrixXd &yR, const MatrixXd &uR, const MatrixXd &duR, const MatrixXd &dist) override
    {
        auto &p = b.get(X(x0), U(u0), Ym(yR), Um(uR), Um(duR), Dm(dist));
        QpCall k;
        k.P = p.P; k.A = p.A; k.q = p.q; k.l = p.l; k.u = p.u;
        k.n = (int)k.P.rows(); k.m = (int)k.A.rows();
        return k;
    }
};
template <int nx, int nu, int ndu, int ny, int ph, int ch>
LEntry linEntry()
{
    LDims d{nx, nu, ndu, ny, ph, ch};
    return {d, [] { return std::make_unique<Lin<nx, nu, ndu, ny, ph, ch>>(); }, [d] { return std::make_unique<Bld<nx, nu, ndu, ny, ph, ch>>(d); }};
}
