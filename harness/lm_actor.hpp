// Linear controllers with a life of their own, for the monitors of C10 and C26
#pragma once
#include "lm_scn.hpp"

static VectorXd vec(const std::vector<double> &v) { return Eigen::Map<const VectorXd>(v.data(), (int)v.size()); }
static LPar randPar(Rng &r)
{
    LPar p;
    p.alpha = r.uni(0.1, 1.9); p.rho = r.logu(1e-8, 10); p.eps_rel = r.logu(1e-10, 1e-1); p.eps_abs = r.logu(1e-10, 1e-1); p.eps_prim = r.logu(1e-8, 1e-1); p.eps_dual = r.logu(1e-8, 1e-1);
    p.verbose = r.chance(0.3); p.adaptive = r.chance(0.5); p.polish = r.chance(0.5); p.warm = r.chance(0.6); p.maxit = r.i(1, 5000); p.time_limit = r.chance(0.5) ? 0 : r.logu(1e-4, 100);
    return p;
}
// the answer of the solver in one call
struct Plan
{
    int setup = 0, code = 0, status = OSQP_SOLVED, poison = -1; bool natural = false; uint64_t seed = 0;
    explicit Plan(Rng &r, double pNatural, double pFail) : seed(r.next())
    {
        natural = r.chance(pNatural);
        if (!r.chance(pFail)) { if (!natural) status = r.pick(std::vector<int>{OSQP_SOLVED, OSQP_SOLVED_INACCURATE, OSQP_MAX_ITER_REACHED, OSQP_TIME_LIMIT_REACHED}); return; }
        natural = false;
        switch (r.i(0, 3))
        {
        case 0: setup = r.i(1, 6); break;
        case 1: code = r.i(1, 7); break;
        case 2: status = r.pick(std::vector<int>{OSQP_PRIMAL_INFEASIBLE, OSQP_DUAL_INFEASIBLE, OSQP_NON_CVX, OSQP_SIGINT, OSQP_UNSOLVED}); poison = 1; break;
        default: poison = 0; break;
        }
    }
    int solve(QpCall &k) const
    {
        if (natural) return -1;
        Rng r(seed);
        k.x = r.vec(k.n, -3, 3); k.y = r.vec(k.m, -3, 3); k.obj = r.uni(-50, 50); k.status = status;
        if (poison == 1) { k.x.setConstant(OSQP_NAN); k.y.setConstant(OSQP_NAN); k.obj = OSQP_INFTY; }
        if (poison == 0) k.x(r.i(0, k.n - 1)) = OSQP_NAN;
        return code;
    }
};
struct PlanHook
{
    QpHook h;
    explicit PlanHook(const Plan &p) : h([&p](QpCall &) { return p.setup; }, [&p](QpCall &k) { return p.solve(k); }) {}
};

// one random setting; everything drawn from r, so that equal generators give equal settings
static int randSetting(Rng &r, ILin &m, std::string &log)
{
    const LDims &d = m.d;
    LRand o; o.convex = true;
    LCfg f = randCfg(r, d, o);
    auto slice = [&](int H, int &b, int &e) { if (r.chance(0.25)) b = e = -1; else { b = r.i(-2, H + 1); e = r.i(-2, H + 2); } };
    auto lohi = [&](int n, int k, MatrixXd &lo, MatrixXd &hi) { lo = r.mat(n, k, -6, -2); hi = r.mat(n, k, 2, 6); for (int z = 0; z < n * k; z++) { if (r.chance(0.2)) lo.data()[z] = -INF; if (r.chance(0.2)) hi.data()[z] = INF; } };
    int b, e, what = r.i(0, 15), ret = 0;
    MatrixXd L, U;
    switch (what)
    {
    case 0: ret = m.model(f.A, f.B, f.C); break;
    case 1: if (d.ndu) ret = m.disturbances(f.Bd, f.Dd); break;
    case 2: ret = m.weightsMat(f.OW, f.UW, f.DW); break;
    case 3: slice(d.ph, b, e); ret = m.weights(f.OW.col(0), f.UW.col(0), f.DW.col(0), b, e); break;
    case 4: lohi(d.nx, d.ph, L, U); ret = m.stateBoundsMat(L, U); break;
    case 5: slice(d.ph, b, e); lohi(d.nx, 1, L, U); ret = m.stateBounds(L, U, b, e); break;
    case 6: lohi(d.nu, d.ch, L, U); ret = m.inputBoundsMat(L, U); break;
    case 7: slice(d.ch, b, e); lohi(d.nu, 1, L, U); ret = m.inputBounds(L, U, b, e); break;
    case 8: lohi(d.ny, d.ph, L, U); ret = m.outputBoundsMat(L, U); break;
    case 9: slice(d.ph, b, e); lohi(d.ny, 1, L, U); ret = m.outputBounds(L, U, b, e); break;
    case 10: slice(d.ph, b, e); { double lo = r.uni(-9, -3), hi = r.uni(3, 9); VectorXd X = r.vec(d.nx), W = r.vec(d.nu); ret = m.scalar(lo, hi, X, W, b, e); } break;
    case 11: { int k = r.i(0, d.ph + 1); double lo = r.uni(-9, -3), hi = r.uni(3, 9); VectorXd X = r.vec(d.nx), W = r.vec(d.nu); ret = m.scalarAt(k, lo, hi, X, W); } break;
    case 12: ret = m.refsMat(f.yR, f.uR, f.duR); break;
    case 13: slice(d.ph, b, e); ret = m.refs(f.yR.col(0), f.uR.col(0), f.duR.col(0), b, e); break;
    case 14: slice(d.ph, b, e); if (d.ndu) ret = r.chance(0.5) ? m.exoMat(f.dist) : m.exo(f.dist.col(0), b, e); break;
    default:
    {
        int k = r.i(0, d.ph + 1);
        MatrixXd xl, xu, ul, uu, yl, yu; lohi(d.nx, 1, xl, xu); lohi(d.nu, 1, ul, uu); lohi(d.ny, 1, yl, yu);
        ret = m.constraintsAt(k, xl, ul, yl, xu, uu, yu);
        if (ret < 0) ret = 0;
    }
    }
    log += MSG("s" << what << " ");
    return what * 10 + ret;
}
static void configure(Rng &r, ILin &m)
{
    LRand o; o.convex = true;
    LCfg g = randCfg(r, m.d, o);
    VectorXd x0 = r.vec(m.d.nx), u0 = r.vec(m.d.nu);
    if (r.chance(0.5)) randLimits(r, g, x0, u0, 0.3, false);
    applyCfg(m, g, nullptr, true);
}

struct LActor
{
    Rng g; LDims d; bool st; std::unique_ptr<ILin> ctl; int ops, at = 0;
    std::vector<MatrixXd> rec; std::vector<long> codes;
    std::function<void()> nested;
    std::string log;
    LActor(uint64_t seed, const LDims *q) : g(seed), d{1, 1, 0, 1, 1, 1}
    {
        LRand o; o.maxph = 4; o.maxnx = 3; o.maxnu = 2; o.maxny = 2;
        d = q ? *q : randLDims(g, o);
        st = g.chance(0.6);
        ops = g.hist(4, 10);
    }
    bool done() const { return at >= ops; }
    void put(const MatrixXd &m) { rec.push_back(m); }
    void step()
    {
        at++;
        if (!ctl)
        {
            ctl = makeLin(d, st);
            if (g.chance(0.2)) { put(ctl->last().cmd); LSeq q = ctl->seq(); put(q.state); put(q.input); }
            if (g.chance(0.8)) configure(g, *ctl);
            return;
        }
        switch (g.i(0, 9))
        {
        case 0: ctl->params(randPar(g)); break;
        case 1: case 2: case 3: codes.push_back(randSetting(g, *ctl, log)); break;
        case 4: if (g.chance(0.4)) { ctl.reset(); codes.push_back(7777); break; } [[fallthrough]];
        default:
        {
            VectorXd x0 = g.vec(d.nx), u0 = g.vec(d.nu);
            Plan p(g, 0.4, 0.25);
            auto su = qp.onSetup; auto so = qp.onSolve;
            qp.onSetup = [&p](QpCall &) { return p.setup; };
            qp.onSolve = [&](QpCall &k)
            {   // another controller may run while this one is inside the solver
                put(k.P); put(k.A); put(k.q); put(k.l); put(k.u); put(VectorXd::Constant(1, k.set.rho)); codes.push_back(k.warmUsed);
                for (auto &w : k.warm) { put(w.first); put(w.second); }
                if (nested) nested();
                return p.solve(k);
            };
            LRes r = ctl->optimize(x0, u0);
            qp.onSetup = su; qp.onSolve = so;
            LSeq q = ctl->seq();
            put(r.cmd); put(VectorXd::Constant(1, r.cost)); put(q.state); put(q.input); put(q.output);
            put(vec(ctl->warmX())); put(vec(ctl->warmY()));
            codes.push_back(r.solver_status); codes.push_back(r.status); codes.push_back(r.feasible); codes.push_back(ctl->solves());
        }
        }
    }
    std::string transcript() const { Bytes b; for (long k : codes) b.put(k); b.put((long)-1); for (auto &m : rec) b.put(m); return b.s; }
    void finish() { if (ctl) { put(ctl->last().cmd); put(ctl->seq().input); put(vec(ctl->warmX())); codes.push_back(ctl->solves()); ctl.reset(); } }
};
