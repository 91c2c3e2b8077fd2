// Type-erased linear controller.
#pragma once
#include "common.hpp"
#include "osqp_spy.hpp"
#include <memory>

struct LDims
{
    int nx, nu, ndu, ny, ph, ch;
    std::string s() const { return MSG("nx=" << nx << " nu=" << nu << " ndu=" << ndu << " ny=" << ny << " ph=" << ph << " ch=" << ch); }
    int nz() const { return (ph + 1) * (nx + nu) + ph * nu; }
};
struct LPar
{
    double alpha = 1.6, rho = 1e-6, eps_rel = 1e-4, eps_abs = 1e-4, eps_prim = 1e-3, eps_dual = 1e-3;
    bool verbose = false, adaptive = true, polish = true, warm = false; int maxit = 100; double time_limit = 0;
};
struct LRes { int solver_status; bool feasible; std::string msg; double cost; int status; VectorXd cmd; };
struct LStats { int n; std::map<int, int> perStatus; double total, mn, mx, avg, sd; };
struct LSeq { MatrixXd state, output, input; };
enum { LS_SUCCESS, LS_MAX_ITERATION, LS_INFEASIBLE, LS_ERROR, LS_UNKNOWN };

struct ILin
{
    LDims d; bool isStatic = false;
    virtual ~ILin() {}
    virtual std::unique_ptr<ILin> clone() = 0;      // null where controllers cannot be copied
    virtual bool model(const MatrixXd &A, const MatrixXd &B, const MatrixXd &C) = 0;
    virtual bool disturbances(const MatrixXd &Bd, const MatrixXd &Dd) = 0;
    virtual bool weightsMat(const MatrixXd &, const MatrixXd &, const MatrixXd &) = 0;
    virtual bool weights(const VectorXd &, const VectorXd &, const VectorXd &, int s, int e) = 0;
    virtual bool stateBoundsMat(const MatrixXd &, const MatrixXd &) = 0;
    virtual bool inputBoundsMat(const MatrixXd &, const MatrixXd &) = 0;
    virtual bool outputBoundsMat(const MatrixXd &, const MatrixXd &) = 0;
    virtual bool stateBounds(const VectorXd &, const VectorXd &, int s, int e) = 0;
    virtual bool inputBounds(const VectorXd &, const VectorXd &, int s, int e) = 0;
    virtual bool outputBounds(const VectorXd &, const VectorXd &, int s, int e) = 0;
    virtual int constraintsAt(unsigned k, const VectorXd &xl, const VectorXd &ul, const VectorXd &yl, const VectorXd &xu, const VectorXd &uu, const VectorXd &yu) = 0;   // -1: not usable
    virtual bool scalar(double lo, double hi, const VectorXd &X, const VectorXd &U, int s, int e) = 0;
    virtual bool scalarAt(unsigned k, double lo, double hi, const VectorXd &X, const VectorXd &U) = 0;
    virtual bool refsMat(const MatrixXd &, const MatrixXd &, const MatrixXd &) = 0;
    virtual bool refs(const VectorXd &, const VectorXd &, const VectorXd &, int s, int e) = 0;
    virtual bool exoMat(const MatrixXd &) = 0;
    virtual bool exo(const VectorXd &, int s, int e) = 0;
    virtual void params(const LPar &) = 0;
    virtual bool refusesTs() = 0;
    virtual bool refusesInputScale() = 0;
    virtual bool refusesStateScale() = 0;
    virtual LRes optimize(const VectorXd &x0, const VectorXd &u0) = 0;
    virtual LRes last() = 0;
    virtual LSeq seq() = 0;
    virtual int solves() = 0;
    virtual std::map<int, int> statuses() = 0;
    virtual void resetStats() = 0;
    virtual std::vector<double> warmX() = 0;
    virtual std::vector<double> warmY() = 0;
    virtual void setWarm(const std::vector<double> &, const std::vector<double> &) = 0;
    virtual bool loggerLevel(int) = 0;
    virtual bool loggerPrefix(const std::string &) = 0;
    virtual LStats stats() = 0;
};
// the same settings applied directly to a problem builder
struct IBuilder
{
    LDims d;
    virtual ~IBuilder() {}
    virtual bool model(const MatrixXd &A, const MatrixXd &B, const MatrixXd &C) = 0;
    virtual bool disturbances(const MatrixXd &Bd, const MatrixXd &Dd) = 0;
    virtual bool weightsMat(const MatrixXd &, const MatrixXd &, const MatrixXd &) = 0;
    virtual bool weightsAt(unsigned k, const VectorXd &, const VectorXd &, const VectorXd &) = 0;
    virtual bool stateBoundsMat(const MatrixXd &, const MatrixXd &) = 0;
    virtual bool inputBoundsMat(const MatrixXd &, const MatrixXd &) = 0;
    virtual bool outputBoundsMat(const MatrixXd &, const MatrixXd &) = 0;
    virtual bool stateBoundsAt(unsigned k, const VectorXd &, const VectorXd &) = 0;
    virtual bool inputBoundsAt(unsigned k, const VectorXd &, const VectorXd &) = 0;
    virtual bool outputBoundsAt(unsigned k, const VectorXd &, const VectorXd &) = 0;
    virtual bool scalarVec(const VectorXd &lo, const VectorXd &hi, const VectorXd &X, const VectorXd &U) = 0;
    virtual bool scalarAt(unsigned k, double lo, double hi, const VectorXd &X, const VectorXd &U) = 0;
    virtual VectorXd map(const VectorXd &x, const VectorXd &dist) = 0;
    virtual QpCall get(const VectorXd &x0, const VectorXd &u0, const MatrixXd &yR, const MatrixXd &uR, const MatrixXd &duR, const MatrixXd &dist) = 0;   // full P
};
struct LEntry { LDims d; std::function<std::unique_ptr<ILin>()> make; std::function<std::unique_ptr<IBuilder>()> builder; };
std::vector<LEntry> &linRegistry();
std::unique_ptr<ILin> makeLinDynamic(const LDims &);
std::unique_ptr<IBuilder> makeBuilderDynamic(const LDims &);
std::unique_ptr<ILin> makeLin(const LDims &, bool preferStatic);
std::unique_ptr<IBuilder> makeBuilder(const LDims &, bool preferStatic);
