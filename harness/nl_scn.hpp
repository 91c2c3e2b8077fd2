// Random non-linear MPC scenarios: user functions with known closed form, and the reference meaning of
// everything the controller is asked for.
#pragma once
#include "nl_ctl.hpp"
#include "nlopt_spy.hpp"

struct Mon   // observers of the user callbacks (all optional)
{
    std::function<void(const MatrixXd &, const MatrixXd &, const MatrixXd &, double)> obj;
    std::function<void(int, const MatrixXd &, const MatrixXd &, const MatrixXd &, double)> ineq;
    std::function<void(int, const MatrixXd &, const MatrixXd &)> eq;
    std::function<void(int, const VectorXd &, const VectorXd &, unsigned)> state, out;
    void clear() { *this = Mon(); }
};

struct ScnOpt
{
    int maxph = 6, maxnx = 3, maxnu = 2, maxny = 2, maxineq = 3, maxeq = 2;
    bool lq = false;             // linear dynamics/outputs/constraints, strictly convex quadratic cost
    bool noUserEq = false, noUserIneq = false, forceOut = false;
    double pScale = 0.4, pCont = 0.5, pStatic = 0.25;
    bool allowStatic = true;
    double pLarge = 0;           // chance of a long horizon or of many states and inputs
    double mag = 1;              // spread of magnitudes of states and inputs (1: none)
};

struct Bounds   // per step bounds in physical units: columns = steps
{
    MatrixXd xl, xu, ul, uu;
    void reset(const Dims &d)
    {
        xl = MatrixXd::Constant(d.nx, d.ph, -INF); xu = MatrixXd::Constant(d.nx, d.ph, INF);
        ul = MatrixXd::Constant(d.nu, d.ch, -INF); uu = MatrixXd::Constant(d.nu, d.ch, INF);
    }
};

struct Scn
{
    Dims d;
    bool wantStatic = false, cont = false, hasOut = false, hasIneq = false, hasEq = false, lq = false, useScaleX = false, useScaleU = false;
    double Ts = 0.1;
    VectorXd sx, su;             // scaling in force (ones when none)
    float tolS = -1, tolI = -1, tolE = -1;
    double amp = 0.3;
    VectorXd mx, mu;             // magnitudes
    // model
    MatrixXd A, B, W, V; VectorXd ph0, drift;
    MatrixXd C, Dm, Wo; VectorXd oph;
    // cost
    MatrixXd q, r, cx, su_, tu, cu, wy; double we = 1, le = 0.3; double cross = 0.4;
    // constraints
    std::vector<MatrixXd> ix, iu, iy, ex, eu; VectorXd ie, i0, e0, is, es;
    Mon mon;

    double mag() const { return std::max(mx.maxCoeff(), mu.maxCoeff()); }
    double tolState() const { return tolS < 0 ? (double)1e-10f : (double)tolS; }
    double tolIneq() const { return tolI < 0 ? (double)1e-10f : (double)tolI; }
    double tolEq() const { return tolE < 0 ? (double)1e-10f : (double)tolE; }

    // reference functions (not observed)
    VectorXd f(const VectorXd &x, const VectorXd &u, unsigned k) const
    {
        VectorXd xn = x.cwiseQuotient(mx), un = u.cwiseQuotient(mu);
        VectorXd z = A * xn + B * un + drift * (0.2 + 0.1 * k);
        if (amp != 0) z += amp * ((W * xn + V * un + ph0).array() + 0.3 * k).sin().matrix();
        return z.cwiseProduct(mx);
    }
    VectorXd h(const VectorXd &x, const VectorXd &u, unsigned k) const
    {
        VectorXd xn = x.cwiseQuotient(mx), un = u.cwiseQuotient(mu);
        VectorXd y = C * xn + Dm * un + oph * (1.0 + 0.25 * k);
        if (amp != 0) y += amp * ((Wo * xn + oph).array() + 0.2 * k).cos().matrix();
        return y;
    }
    MatrixXd outputs(const MatrixXd &X, const MatrixXd &U) const
    {
        MatrixXd Y = MatrixXd::Zero(d.ph + 1, d.ny);
        if (hasOut) for (int k = 0; k <= d.ph; k++) Y.row(k) = h(X.row(k), U.row(k), k).transpose();
        return Y;
    }
    double cost(const MatrixXd &X, const MatrixXd &Y, const MatrixXd &U, double e) const
    {
        double s = 0, p = 0;
        for (int k = 0; k <= d.ph; k++)
        {
            for (int j = 0; j < d.nx; j++) { double z = X(k, j) / mx(j); s += q(k, j) * (z - r(k, j)) * (z - r(k, j)); p += cx(k, j) * z; }
            for (int j = 0; j < d.nu; j++) { double z = U(k, j) / mu(j); s += su_(k, j) * (z - tu(k, j)) * (z - tu(k, j)); p += cu(k, j) * z; }
            for (int j = 0; j < d.ny; j++) s += wy(k, j) * Y(k, j) * Y(k, j);
        }
        s += we * e * e + le * e;
        if (!lq) s += cross * std::sin(p + 0.5 * e);
        return s;
    }
    VectorXd ineqs(const MatrixXd &X, const MatrixXd &Y, const MatrixXd &U, double e) const
    {
        VectorXd g(d.ineq);
        for (int i = 0; i < d.ineq; i++)
        {
            double s = i0(i) - ie(i) * e, p = 0;
            for (int k = 0; k <= d.ph; k++)
            {
                for (int j = 0; j < d.nx; j++) { s += ix[i](k, j) * X(k, j) / mx(j); p += ix[i](k, j) * X(k, j) / mx(j); }
                for (int j = 0; j < d.nu; j++) { s += iu[i](k, j) * U(k, j) / mu(j); p -= iu[i](k, j) * U(k, j) / mu(j); }
                for (int j = 0; j < d.ny; j++) s += iy[i](k, j) * Y(k, j);
            }
            if (amp != 0) s += is(i) * std::sin(p + 0.3 * e);
            g(i) = s;
        }
        return g;
    }
    VectorXd eqs(const MatrixXd &X, const MatrixXd &U) const
    {
        VectorXd g(d.eq);
        for (int i = 0; i < d.eq; i++)
        {
            double s = e0(i), p = 0;
            for (int k = 0; k <= d.ph; k++)
            {
                for (int j = 0; j < d.nx; j++) { s += ex[i](k, j) * X(k, j) / mx(j); p += ex[i](k, j) * X(k, j) / mx(j); }
                for (int j = 0; j < d.nu; j++) { s += eu[i](k, j) * U(k, j) / mu(j); p -= eu[i](k, j) * U(k, j) / mu(j); }
            }
            if (amp != 0) s += es(i) * std::sin(p);
            g(i) = s;
        }
        return g;
    }
    // physical dynamics defects of a trajectory (one row per step)
    MatrixXd defects(const MatrixXd &X, const MatrixXd &U) const
    {
        MatrixXd D(d.ph, d.nx);
        for (int k = 0; k < d.ph; k++)
        {
            VectorXd x = X.row(k), u = U.row(k), y = X.row(k + 1);
            if (cont) D.row(k) = (x + Ts / 2 * (f(x, u, k) + f(y, u, k)) - y).transpose();
            else D.row(k) = (y - f(x, u, k)).transpose();
        }
        return D;
    }
    // callbacks given to the controller
    ObjF objF() { return [this](const MatrixXd &X, const MatrixXd &Y, const MatrixXd &U, double e) { if (mon.obj) mon.obj(X, Y, U, e); return cost(X, Y, U, e); }; }
    IneqF ineqF() { return [this](VectorXd &g, const MatrixXd &X, const MatrixXd &Y, const MatrixXd &U, double e) { if (mon.ineq) mon.ineq((int)g.size(), X, Y, U, e); g = ineqs(X, Y, U, e); }; }
    EqF eqF() { return [this](VectorXd &g, const MatrixXd &X, const MatrixXd &U) { if (mon.eq) mon.eq((int)g.size(), X, U); g = eqs(X, U); }; }
    StateF stateF() { return [this](VectorXd &z, const VectorXd &x, const VectorXd &u, unsigned k) { if (mon.state) mon.state((int)z.size(), x, u, k); z = f(x, u, k); }; }
    OutF outF() { return [this](VectorXd &y, const VectorXd &x, const VectorXd &u, unsigned k) { if (mon.out) mon.out((int)y.size(), x, u, k); y = h(x, u, k); }; }

    void configure(ICtl &c)
    {
        if (cont) c.setTs(Ts);
        c.setState(stateF(), tolS);
        if (hasOut) c.setOutput(outF());
        c.setObjective(objF());
        if (hasIneq) c.setIneq(ineqF(), tolI);
        if (hasEq) c.setEq(eqF(), tolE);
        if (useScaleX) c.setStateScale(sx);
        if (useScaleU) c.setInputScale(su);
    }
    std::unique_ptr<ICtl> make() { auto c = makeCtl(d, wantStatic); configure(*c); return c; }
    // now and then (nearly) the previous one, or zero
    VectorXd randX0(Rng &g) { return again(g, lastX0, mx); }
    VectorXd randU0(Rng &g) { return again(g, lastU0, mu); }
    VectorXd lastX0, lastU0;
    static VectorXd again(Rng &g, VectorXd &last, const VectorXd &m)
    {
        VectorXd v = g.vec(m.size()).cwiseProduct(m);
        if (g.chance(0.02)) v.setZero();
        if (last.size() && g.chance(0.12)) v = last + (g.chance(0.2) ? 0 : g.logu(1e-8, 1e-2)) * v;
        return last = v;
    }
    std::string s() const
    {
        return MSG(d.s() << (wantStatic ? " static" : " dynamic") << (cont ? MSG(" Ts=" << Ts) : std::string(" discrete")) << (hasOut ? " out" : "") << (hasIneq ? " ineq" : "") << (hasEq ? " eq" : "")
                         << (useScaleX ? " sx=" + str(sx.transpose()) : std::string()) << (useScaleU ? " su=" + str(su.transpose()) : std::string()));
    }
};

Dims randDims(Rng &g, const ScnOpt &o);
std::shared_ptr<Scn> randScn(Rng &g, const ScnOpt &o, const Dims *fixed = nullptr);

struct Point { MatrixXd X, U; double e; };   // physical trajectory, (ph+1) rows
Point randPoint(Rng &g, const Scn &s, const VectorXd &x0, double slack = 1);

// Layout independent reading of the decision space: which physical quantity each decision variable is.
struct Decode
{
    struct Var { int kind; int k, j; double scale; };   // kind 0: state row k col j, 1: input block k col j, 2: slack
    std::vector<Var> vars;
    bool ok = true;
    std::string why;
    Program &p;
    Scn &s;
    Point base;
    Decode(Program &p, Scn &s, const VectorXd &x0);
    static Point record(Program &p, Scn &s, const VectorXd &v);
    Point at(const VectorXd &v) { return record(p, s, v); }
    VectorXd toV(const Point &q) const;
};
