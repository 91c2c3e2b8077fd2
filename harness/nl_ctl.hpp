// Type-erased non-linear controller, so that every monitor drives run-time and compile-time sized
// controllers through the same code.
#pragma once
#include "common.hpp"
#include <memory>

struct Dims
{
    int nx, nu, ny, ph, ch, ineq, eq;
    int nv() const { return ph * nx + ch * nu + 1; }
    std::string s() const { return MSG("nx=" << nx << " nu=" << nu << " ny=" << ny << " ph=" << ph << " ch=" << ch << " ineq=" << ineq << " eq=" << eq); }
};
using ObjF = std::function<double(const MatrixXd &X, const MatrixXd &Y, const MatrixXd &U, double e)>;
using IneqF = std::function<void(VectorXd &g, const MatrixXd &X, const MatrixXd &Y, const MatrixXd &U, double e)>;
using EqF = std::function<void(VectorXd &g, const MatrixXd &X, const MatrixXd &U)>;
using StateF = std::function<void(VectorXd &dx, const VectorXd &x, const VectorXd &u, unsigned k)>;
using OutF = std::function<void(VectorXd &y, const VectorXd &x, const VectorXd &u, unsigned k)>;

struct Res { int solver_status; bool feasible; std::string msg; double cost; int status; VectorXd cmd; };
struct Seq { MatrixXd state, output, input; };
struct Stats { int n; std::map<int, int> perStatus; double total, mn, mx, avg, sd; };
struct NLPar
{
    int maxeval = 100; double time_limit = 0; bool warm = false;
    double rel_f = -1, rel_x = -1, abs_f = -1, abs_x = -1; bool hard = true;
};

struct ICtl
{
    Dims d;
    bool isStatic = false;
    virtual ~ICtl() {}
    virtual std::unique_ptr<ICtl> clone() = 0;         // null where controllers cannot be copied
    virtual bool setTs(double) = 0;
    virtual void setParams(const NLPar &) = 0;
    virtual void setInputScale(const VectorXd &) = 0;
    virtual void setStateScale(const VectorXd &) = 0;
    virtual bool setObjective(ObjF) = 0;
    virtual bool setState(StateF, float tol) = 0;      // tol < 0: default
    virtual bool setOutput(OutF) = 0;
    virtual bool setIneq(IneqF, float tol) = 0;
    virtual bool setEq(EqF, float tol) = 0;
    virtual bool stateBoundsMat(const MatrixXd &, const MatrixXd &) = 0;
    virtual bool inputBoundsMat(const MatrixXd &, const MatrixXd &) = 0;
    virtual bool outputBoundsMat(const MatrixXd &, const MatrixXd &) = 0;
    virtual bool stateBounds(const VectorXd &, const VectorXd &, int s, int e) = 0;
    virtual bool inputBounds(const VectorXd &, const VectorXd &, int s, int e) = 0;
    virtual bool outputBounds(const VectorXd &, const VectorXd &, int s, int e) = 0;
    virtual Res optimize(const VectorXd &x0, const VectorXd &u) = 0;
    virtual Res last() = 0;
    virtual Seq seq() = 0;
    virtual Stats stats() = 0;
    virtual void resetStats() = 0;
    virtual bool loggerLevel(int) = 0;
    virtual bool loggerPrefix(const std::string &) = 0;
};

std::unique_ptr<ICtl> makeDynamic(const Dims &);
// compile-time sized controllers linked into this binary
struct StaticEntry { Dims d; std::function<std::unique_ptr<ICtl>()> make; };
std::vector<StaticEntry> &staticRegistry();
// run-time or (when available and asked for) compile-time sized
std::unique_ptr<ICtl> makeCtl(const Dims &, bool preferStatic);
