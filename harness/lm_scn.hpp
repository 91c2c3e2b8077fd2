// Reference semantics of the linear controller, independent of the code under test: the configuration as a user
// sees it, trajectories, documented cost and limits, and comparison of a quadratic program with them.
#pragma once
#include "lm_ctl.hpp"
#include <algorithm>

struct LCfg
{
    LDims d;
    double mag = 1;                    // magnitude of everything but the model
    MatrixXd A, B, C, Bd, Dd;
    MatrixXd OW, UW, DW;               // one column per step
    MatrixXd xl, xu, ul, uu, yl, yu;   // one column per step 0..ph-1
    VectorXd sl, su, sX, sU;
    MatrixXd yR, uR, duR, dist;
    explicit LCfg(const LDims &q = {1, 1, 0, 1, 1, 1}) { reset(q); }
    void reset(const LDims &q)
    {
        d = q;
        A = MatrixXd::Zero(d.nx, d.nx); B = MatrixXd::Zero(d.nx, d.nu); C = MatrixXd::Zero(d.ny, d.nx); Bd = MatrixXd::Zero(d.nx, d.ndu); Dd = MatrixXd::Zero(d.ny, d.ndu);
        OW = MatrixXd::Zero(d.ny, d.ph); UW = MatrixXd::Zero(d.nu, d.ph); DW = UW;
        xl = MatrixXd::Constant(d.nx, d.ph, -INF); xu = -xl; ul = MatrixXd::Constant(d.nu, d.ph, -INF); uu = -ul; yl = MatrixXd::Constant(d.ny, d.ph, -INF); yu = -yl;
        sl = VectorXd::Constant(d.ph, -INF); su = -sl; sX = VectorXd::Zero(d.nx); sU = VectorXd::Zero(d.nu);
        yR = MatrixXd::Zero(d.ny, d.ph); uR = MatrixXd::Zero(d.nu, d.ph); duR = uR; dist = MatrixXd::Zero(d.ndu, d.ph);
    }
    // the input bounds of the last control step continue to the end of the prediction horizon
    void holdInputBounds() { for (int k = d.ch; k < d.ph; k++) { ul.col(k) = ul.col(d.ch - 1); uu.col(k) = uu.col(d.ch - 1); } }
};

struct LTraj
{
    MatrixXd x, y, u, du;     // x: nx x ph+1, y: ny x ph+1 (first column: present output), u,du: nu x ph
    VectorXd z;               // variables of the quadratic program
};
LTraj rollout(const LCfg &g, const VectorXd &x0, const VectorXd &u0, const MatrixXd &du);
double documentedCost(const LCfg &g, const LTraj &t);
struct Limit { std::string name; double slack; };
// slack of every finite limit (in a fixed order); initial: limits on the present state, input and output
std::vector<Limit> limits(const LCfg &g, const LTraj &t, bool withInitial = false);

struct LRand { int maxnx = 4, maxnu = 3, maxndu = 2, maxny = 3, maxph = 6; bool allowStatic = true; double pBound = 0; bool equalBounds = false; bool convex = false; double pLarge = 0, pMag = 0; };
LDims randLDims(Rng &r, const LRand &o);
LCfg randCfg(Rng &r, const LDims &d, const LRand &o);
// nearly the same configuration: some settings differ a little, some not at all
LCfg nearCfg(Rng &r, const LCfg &g);
MatrixXd randDu(Rng &r, const LCfg &g, double mag = 1);
// limits around a nominal trajectory; equal: some coincide
void randLimits(Rng &r, LCfg &g, const VectorXd &x0, const VectorXd &u0, double p, bool equal);
void applyCfg(ILin &m, const LCfg &g, Rng *order = nullptr, bool onlyFinite = false);

// monitors of a quadratic program against the configuration
void checkModel(Ctx &c, const QpCall &q, const LCfg &g, const VectorXd &x0, const VectorXd &u0, const std::string &at);
void checkHold(Ctx &c, const QpCall &q, const LCfg &g, const VectorXd &x0, const VectorXd &u0, const std::string &at);
void checkCost(Ctx &c, const QpCall &q, const LCfg &g, const VectorXd &x0, const VectorXd &u0, const std::string &at);
void checkLimits(Ctx &c, const QpCall &q, const LCfg &g, const VectorXd &x0, const VectorXd &u0, const std::string &at, bool initialInside);

// controller call with a fixed answer: the solver returns the given point (default: zero) as solved
struct Capture
{
    QpHook hook;
    Capture() : hook(nullptr, [](QpCall &k) { k.status = OSQP_SOLVED; return 0; }) {}
};
inline std::string show(const LRes &r) { return MSG("solver_status=" << r.solver_status << " status=" << r.status << " feasible=" << r.feasible << " cost=" << r.cost << " cmd=" << str(r.cmd.transpose())); }
