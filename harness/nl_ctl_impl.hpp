#pragma once
#include <cstring>
#include <map>
#include "nl_ctl.hpp"
#include "enum_names.hpp"
#include <mpc/NLMPC.hpp>

template <int nx, int nu, int ny, int ph, int ch, int ineq, int eq>
struct Ctl : ICtl
{
    using M = mpc::NLMPC<nx, nu, ny, ph, ch, ineq, eq>;
    static constexpr bool dyn = nx == Eigen::Dynamic;
    static constexpr int rows = dyn ? Eigen::Dynamic : ph + 1;
    M m;
    Ctl() requires(!dyn) { isStatic = true; d = {nx, nu, ny, ph, ch, ineq, eq}; }
    Ctl(const Dims &q) requires(dyn) : m(q.nx, q.nu, q.ny, q.ph, q.ch, q.ineq, q.eq) { d = q; }

    std::unique_ptr<ICtl> clone() override
    {
        if constexpr (std::is_copy_constructible_v<M>) return std::make_unique<Ctl>(*this);
        else return nullptr;
    }
    bool setTs(double t) override { return m.setDiscretizationSamplingTime(t); }
    void setParams(const NLPar &p) override
    {
        mpc::NLParameters q;
        // what has its documented default value is left alone
        const NLPar def;
        auto put = [](auto &field, auto value, auto standard) { if (value != standard) field = value; };
        put(q.maximum_iteration, p.maxeval, def.maxeval); put(q.time_limit, p.time_limit, def.time_limit); put(q.enable_warm_start, p.warm, def.warm);
        put(q.relative_ftol, p.rel_f, def.rel_f); put(q.relative_xtol, p.rel_x, def.rel_x); put(q.absolute_ftol, p.abs_f, def.abs_f); put(q.absolute_xtol, p.abs_x, def.abs_x);
        put(q.hard_constraints, p.hard, def.hard);
        m.setOptimizerParameters(q);
    }
    void setInputScale(const VectorXd &s) override { m.setInputScale(s); }
    void setStateScale(const VectorXd &s) override { m.setStateScale(s); }
    bool setObjective(ObjF f) override
    {
        return m.setObjectiveFunction([f](const mpc::mat<rows, nx> &X, const mpc::mat<rows, ny> &Y, const mpc::mat<rows, nu> &U, const double &e)
                                      { return f(X, Y, U, e); });
    }
    bool setState(StateF f, float tol) override
    {
        auto g = [f](mpc::cvec<nx> &dx, const mpc::cvec<nx> &x, const mpc::cvec<nu> &u, const unsigned int &k)
        {
            VectorXd t = VectorXd::Constant(dx.size(), std::numeric_limits<double>::quiet_NaN());
            f(t, x, u, k);
            for (int q = 0; q < t.size(); q++) dx(q) = t(q);
        };
        return tol < 0 ? m.setStateSpaceFunction(g) : m.setStateSpaceFunction(g, tol);
    }
    bool setOutput(OutF f) override
    {
        return m.setOutputFunction([f](mpc::cvec<ny> &y, const mpc::cvec<nx> &x, const mpc::cvec<nu> &u, const unsigned int &k)
        {
            VectorXd t = VectorXd::Constant(y.size(), std::numeric_limits<double>::quiet_NaN());
            f(t, x, u, k);
            for (int q = 0; q < t.size(); q++) y(q) = t(q);
        });
    }
    bool setIneq(IneqF f, float tol) override
    {
        if constexpr (ineq == 0) return true;
        else
        {
            auto g = [f](mpc::cvec<ineq> &o, const mpc::mat<rows, nx> &X, const mpc::mat<rows, ny> &Y, const mpc::mat<rows, nu> &U, const double &e)
            {
                VectorXd t = VectorXd::Constant(o.size(), std::numeric_limits<double>::quiet_NaN());
                f(t, X, Y, U, e);
                for (int q = 0; q < t.size(); q++) o(q) = t(q);
            };
            return tol < 0 ? m.setIneqConFunction(g) : m.setIneqConFunction(g, tol);
        }
    }
    bool setEq(EqF f, float tol) override
    {
        if constexpr (eq == 0) return true;
        else
        {
            auto g = [f](mpc::cvec<eq> &o, const mpc::mat<rows, nx> &X, const mpc::mat<rows, nu> &U)
            {
                VectorXd t = VectorXd::Constant(o.size(), std::numeric_limits<double>::quiet_NaN());
                f(t, X, U);
                for (int q = 0; q < t.size(); q++) o(q) = t(q);
            };
            return tol < 0 ? m.setEqConFunction(g) : m.setEqConFunction(g, tol);
        }
    }
    bool stateBoundsMat(const MatrixXd &a, const MatrixXd &b) override { return m.setStateBounds(mpc::mat<nx, ph>(a), mpc::mat<nx, ph>(b)); }
    bool inputBoundsMat(const MatrixXd &a, const MatrixXd &b) override { return m.setInputBounds(mpc::mat<nu, ch>(a), mpc::mat<nu, ch>(b)); }
    bool outputBoundsMat(const MatrixXd &a, const MatrixXd &b) override { return m.setOutputBounds(mpc::mat<ny, ph>(a), mpc::mat<ny, ph>(b)); }
    bool stateBounds(const VectorXd &a, const VectorXd &b, int s, int e) override { return m.setStateBounds(mpc::cvec<nx>(a), mpc::cvec<nx>(b), mpc::HorizonSlice(s, e)); }
    bool inputBounds(const VectorXd &a, const VectorXd &b, int s, int e) override { return m.setInputBounds(mpc::cvec<nu>(a), mpc::cvec<nu>(b), mpc::HorizonSlice(s, e)); }
    bool outputBounds(const VectorXd &a, const VectorXd &b, int s, int e) override { return m.setOutputBounds(mpc::cvec<ny>(a), mpc::cvec<ny>(b), mpc::HorizonSlice(s, e)); }
    static Res conv(const mpc::Result<nu> &r) { return {r.solver_status, r.is_feasible, r.solver_status_msg, r.cost, statusIndex(r.status), r.cmd}; }
    Res optimize(const VectorXd &x0, const VectorXd &u) override { return conv(m.optimize(mpc::cvec<nx>(x0), mpc::cvec<nu>(u))); }
    Res last() override { return conv(m.getLastResult()); }
    Seq seq() override { auto s = m.getOptimalSequence(); return {s.state, s.output, s.input}; }
    Stats stats() override
    {
        const mpc::SolutionStats &s = m.getExecutionStats();
        Stats r{s.numberOfSolutions, {}, s.totalSolutionTime.count(), s.minSolutionTime.count(), s.maxSolutionTime.count(), s.averageSolutionTime.count(), s.standardDeviation};
        for (auto &k : s.solutionsStates) r.perStatus[statusIndex(k.first)] += k.second;
        return r;
    }
    void resetStats() override { m.resetStats(); }
    bool loggerPrefix(const std::string &p) override { return m.setLoggerPrefix(p); }
    bool loggerLevel(int l) override { return m.setLoggerLevel(logLevel(l)); }
};
