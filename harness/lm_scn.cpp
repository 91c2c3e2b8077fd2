#include "lm_scn.hpp"

LTraj rollout(const LCfg &g, const VectorXd &x0, const VectorXd &u0, const MatrixXd &du)
{
    const LDims &d = g.d;
    LTraj t;
    t.x = MatrixXd::Zero(d.nx, d.ph + 1); t.y = MatrixXd::Zero(d.ny, d.ph + 1); t.u = MatrixXd::Zero(d.nu, d.ph); t.du = du;
    t.x.col(0) = x0;
    t.y.col(0) = g.C * x0 + g.Dd * g.dist.col(0);
    VectorXd u = u0;
    for (int k = 0; k < d.ph; k++)
    {
        u += du.col(k);
        t.u.col(k) = u;
        t.x.col(k + 1) = g.A * t.x.col(k) + g.B * u + g.Bd * g.dist.col(k);
        t.y.col(k + 1) = g.C * t.x.col(k + 1) + g.Dd * g.dist.col(k);
    }
    t.z.resize(d.nz());
    for (int i = 0; i <= d.ph; i++)
    {
        t.z.segment(i * (d.nx + d.nu), d.nx) = t.x.col(i);
        t.z.segment(i * (d.nx + d.nu) + d.nx, d.nu) = i ? VectorXd(t.u.col(i - 1)) : u0;
    }
    for (int k = 0; k < d.ph; k++) t.z.segment((d.ph + 1) * (d.nx + d.nu) + k * d.nu, d.nu) = du.col(k);
    return t;
}
double documentedCost(const LCfg &g, const LTraj &t)
{
    double J = 0;
    for (int k = 0; k < g.d.ph; k++)
    {
        VectorXd ey = t.y.col(k + 1) - g.yR.col(k), eu = t.u.col(k) - g.uR.col(k), ed = t.du.col(k) - g.duR.col(k);
        J += 0.5 * (ey.cwiseAbs2().dot(g.OW.col(k)) + eu.cwiseAbs2().dot(g.UW.col(k)) + ed.cwiseAbs2().dot(g.DW.col(k)));
    }
    return J;
}
static void lim(std::vector<Limit> &o, const char *what, int k, int j, double v, double lo, double hi)
{
    if (std::isfinite(lo)) o.push_back({MSG(what << "[" << k << "](" << j << ") >= " << lo), v - lo});
    if (std::isfinite(hi)) o.push_back({MSG(what << "[" << k << "](" << j << ") <= " << hi), hi - v});
}
std::vector<Limit> limits(const LCfg &g, const LTraj &t, bool withInitial)
{
    std::vector<Limit> o;
    const LDims &d = g.d;
    if (withInitial)
    {
        for (int j = 0; j < d.nx; j++) lim(o, "x", 0, j, t.x(j, 0), g.xl(j, 0), g.xu(j, 0));
        for (int j = 0; j < d.ny; j++) lim(o, "y", 0, j, t.y(j, 0), g.yl(j, 0), g.yu(j, 0));
        for (int j = 0; j < d.nu; j++) { double u0 = t.u(j, 0) - t.du(j, 0); lim(o, "u_last", 0, j, u0, g.ul(j, 0), g.uu(j, 0)); }
        return o;
    }
    for (int k = 0; k < d.ph; k++)
    {
        for (int j = 0; j < d.nx; j++) lim(o, "x", k + 1, j, t.x(j, k + 1), g.xl(j, k), g.xu(j, k));
        for (int j = 0; j < d.ny; j++) lim(o, "y", k + 1, j, t.y(j, k + 1), g.yl(j, k), g.yu(j, k));
        for (int j = 0; j < d.nu; j++) lim(o, "u", k, j, t.u(j, k), g.ul(j, k), g.uu(j, k));
    }
    for (int i = 0; i <= d.ph; i++)
    {
        int k = std::max(0, i - 1);
        lim(o, "scalar", i, 0, g.sX.dot(t.x.col(i)) + g.sU.dot(t.u.col(std::min(i, d.ph - 1))), g.sl(k), g.su(k));
    }
    return o;
}
LDims randLDims(Rng &r, const LRand &o)
{
    if (o.allowStatic && !linRegistry().empty() && r.chance(0.4)) return r.pick(linRegistry()).d;
    LDims d;
    d.nx = r.i(1, o.maxnx); d.nu = r.i(1, o.maxnu); d.ndu = r.chance(0.3) ? 0 : r.i(0, o.maxndu); d.ny = r.i(1, o.maxny);
    d.ph = r.chance(0.12) ? 1 : r.i(1, o.maxph);
    if (r.chance(o.pLarge))
    {
        if (r.chance(0.6)) { d.ph = r.i(8, 40); d.nx = r.i(1, 2); d.nu = 1; d.ny = r.i(1, 2); }
        else { d.nx = r.i(5, 9); d.nu = r.i(3, 6); d.ny = r.i(2, 7); d.ndu = r.i(0, 5); d.ph = r.i(1, 4); }
    }
    d.ch = r.chance(0.35) ? d.ph : r.i(1, d.ph);
    return d;
}
LCfg randCfg(Rng &r, const LDims &d, const LRand &o)
{
    LCfg g(d);
    double rad = r.uni(0.3, 1.3);
    g.A = r.mat(d.nx, d.nx) * rad; g.B = r.mat(d.nx, d.nu); g.C = r.mat(d.ny, d.nx);
    g.Bd = r.mat(d.nx, d.ndu); g.Dd = r.mat(d.ny, d.ndu);
    if (r.chance(0.1)) g.C = MatrixXd::Identity(d.ny, d.nx);
    for (int k = 0; k < d.ph; k++)
    {
        for (int j = 0; j < d.ny; j++) g.OW(j, k) = !o.convex && r.chance(0.15) ? 0 : r.logu(0.05, 20);
        for (int j = 0; j < d.nu; j++) { g.UW(j, k) = r.chance(0.15) ? 0 : r.logu(0.05, 20); g.DW(j, k) = !o.convex && r.chance(0.15) ? 0 : r.logu(0.05, 20); }
    }
    g.yR = r.mat(d.ny, d.ph, -2, 2); g.uR = r.mat(d.nu, d.ph); g.duR = r.mat(d.nu, d.ph); g.dist = r.mat(d.ndu, d.ph, -2, 2);
    if (r.chance(o.pMag))
    {   // other units
        g.mag = r.logu(10, 1e5);
        for (MatrixXd *m : {&g.yR, &g.uR, &g.duR, &g.dist}) *m *= g.mag;
        double w = r.logu(1e-4, 1e4);
        for (MatrixXd *m : {&g.OW, &g.UW, &g.DW}) *m *= w;
    }
    return g;
}
LCfg nearCfg(Rng &r, const LCfg &g)
{
    LCfg f = g;
    double w = r.logu(1e-8, 1e-1);
    bool one = r.chance(0.3);
    auto move = [&](double &v, bool scale) { if (std::isfinite(v)) v = scale ? v * (1 + r.uni(-w, w)) : v + g.mag * r.uni(-w, w); };
    auto some = [&](MatrixXd &m, bool scale)
    {
        if (!m.size() || r.chance(0.5)) return;
        if (one) move(m.data()[r.i(0, m.size() - 1)], scale); else for (int k = 0; k < m.size(); k++) move(m.data()[k], scale);
    };
    for (MatrixXd *m : {&f.A, &f.B, &f.C, &f.Bd, &f.Dd, &f.OW, &f.UW, &f.DW}) some(*m, true);
    for (MatrixXd *m : {&f.yR, &f.uR, &f.duR, &f.dist}) some(*m, false);
    auto pair = [&](MatrixXd &lo, MatrixXd &hi)
    {
        if (!lo.size() || r.chance(0.4)) return;
        int only = one ? r.i(0, lo.size() - 1) : -1, which = r.i(1, 3);
        for (int k = 0; k < lo.size(); k++) if (only < 0 || k == only)
        {
            double &l = lo.data()[k], &h = hi.data()[k];
            if (which & 1) move(l, false);
            if (which & 2) move(h, false);
            if (l > h) std::swap(l, h);
        }
    };
    pair(f.xl, f.xu); pair(f.ul, f.uu); pair(f.yl, f.yu);
    MatrixXd sl = f.sl, su = f.su; pair(sl, su); f.sl = sl; f.su = su;
    if (r.chance(0.3)) for (int k = 0; k < f.sX.size(); k++) move(f.sX(k), true);
    if (r.chance(0.3)) for (int k = 0; k < f.sU.size(); k++) move(f.sU(k), true);
    f.holdInputBounds();
    return f;
}
MatrixXd randDu(Rng &r, const LCfg &g, double mag)
{
    MatrixXd du = g.mag * r.mat(g.d.nu, g.d.ph, -mag, mag);
    for (int k = g.d.ch; k < g.d.ph; k++) du.col(k).setZero();
    return du;
}
void randLimits(Rng &r, LCfg &g, const VectorXd &x0, const VectorXd &u0, double p, bool equal)
{
    const LDims &d = g.d;
    LTraj t = rollout(g, x0, u0, randDu(r, g, 0.5));
    auto put = [&](MatrixXd &lo, MatrixXd &hi, int j, int k, double v)
    {
        lo(j, k) = r.chance(p) ? v - g.mag * r.logu(0.01, 2) : -INF;
        hi(j, k) = r.chance(p) ? v + g.mag * r.logu(0.01, 2) : INF;
    };
    for (int k = 0; k < d.ph; k++)
    {
        // step 0 also limits the present values: keep them inside
        for (int j = 0; j < d.nx; j++) put(g.xl, g.xu, j, k, t.x(j, k + 1));
        for (int j = 0; j < d.ny; j++) put(g.yl, g.yu, j, k, t.y(j, k + 1));
        if (k < d.ch) for (int j = 0; j < d.nu; j++) put(g.ul, g.uu, j, k, t.u(j, k));
    }
    for (int j = 0; j < d.nx; j++) { g.xl(j, 0) = std::min(g.xl(j, 0), x0(j) - g.mag * r.logu(1e-3, 0.2)); g.xu(j, 0) = std::max(g.xu(j, 0), x0(j) + g.mag * r.logu(1e-3, 0.2)); }
    for (int j = 0; j < d.ny; j++) { double y0 = t.y(j, 0); g.yl(j, 0) = std::min(g.yl(j, 0), y0 - g.mag * r.logu(1e-3, 0.2)); g.yu(j, 0) = std::max(g.yu(j, 0), y0 + g.mag * r.logu(1e-3, 0.2)); }
    for (int j = 0; j < d.nu; j++) { g.ul(j, 0) = std::min(g.ul(j, 0), u0(j) - g.mag * r.logu(1e-3, 0.2)); g.uu(j, 0) = std::max(g.uu(j, 0), u0(j) + g.mag * r.logu(1e-3, 0.2)); }
    if (r.chance(0.7))
    {
        g.sX = r.mat(d.nx, 1); g.sU = r.mat(d.nu, 1);
        if (r.chance(0.15)) g.sX.setZero();
        if (r.chance(0.15)) g.sU.setZero();
        for (int k = 0; k < d.ph; k++)
        {
            double v = g.sX.dot(t.x.col(k + 1)) + g.sU.dot(t.u.col(std::min(k + 1, d.ph - 1)));
            g.sl(k) = r.chance(p) ? v - g.mag * r.logu(0.01, 2) : -INF;
            g.su(k) = r.chance(p) ? v + g.mag * r.logu(0.01, 2) : INF;
        }
        double v = g.sX.dot(t.x.col(0)) + g.sU.dot(t.u.col(0));      // index 0 also limits the present state with the first input
        g.sl(0) = std::min(g.sl(0), v - g.mag * r.logu(1e-3, 0.5)); g.su(0) = std::max(g.su(0), v + g.mag * r.logu(1e-3, 0.5));
    }
    if (equal)
    {
        for (int n = r.i(1, 3); n > 0; n--)
        {
            int k = r.i(0, d.ph - 1), j;
            if (k > 0) switch (r.i(0, 1))
            {
            case 0: j = r.i(0, d.nx - 1); g.xl(j, k) = g.xu(j, k) = t.x(j, k + 1); break;
            default: j = r.i(0, d.ny - 1); g.yl(j, k) = g.yu(j, k) = t.y(j, k + 1); break;
            }
        }
    }
    g.holdInputBounds();
}
void applyCfg(ILin &m, const LCfg &g, Rng *order, bool onlyFinite)
{
    std::vector<int> o;
    for (int k = 0; k < 9; k++) o.push_back(k);
    if (order) order->shuffle(o);
    const LDims &d = g.d;
    for (int k : o) switch (k)
    {
    case 0: m.model(g.A, g.B, g.C); break;
    case 1: if (d.ndu > 0) m.disturbances(g.Bd, g.Dd); break;
    case 2: m.weightsMat(g.OW, g.UW, g.DW); break;
    case 3: if (!onlyFinite || g.xl.array().isFinite().any() || g.xu.array().isFinite().any()) m.stateBoundsMat(g.xl, g.xu); break;
    case 4: if (!onlyFinite || g.ul.array().isFinite().any() || g.uu.array().isFinite().any()) m.inputBoundsMat(g.ul.leftCols(d.ch), g.uu.leftCols(d.ch)); break;
    case 5: if (!onlyFinite || g.yl.array().isFinite().any() || g.yu.array().isFinite().any()) m.outputBoundsMat(g.yl, g.yu); break;
    case 6: for (int z = 0; z < d.ph; z++) if (!onlyFinite || std::isfinite(g.sl(z)) || std::isfinite(g.su(z))) m.scalarAt(z, g.sl(z), g.su(z), g.sX, g.sU); break;
    case 7: m.refsMat(g.yR, g.uR, g.duR); break;
    case 8: if (d.ndu > 0) m.exoMat(g.dist); break;
    }
}

static double scaleOf(const LTraj &t) { return 1 + t.z.cwiseAbs().maxCoeff() + (t.y.size() ? t.y.cwiseAbs().maxCoeff() : 0); }

// rows of the program that hold with equality on trajectories of the model with held inputs
static std::vector<int> equalityRows(Ctx &c, const QpCall &q) { std::vector<int> r; for (int k = 0; k < q.m; k++) if (q.l(k) == q.u(k)) r.push_back(k); return r; }

static bool shape(Ctx &c, const QpCall &q, const LCfg &g, const std::string &at)
{
    if (q.n != g.d.nz()) { c.bad("layout", MSG("the program has " << q.n << " variables instead of " << g.d.nz() << at)); return false; }
    return true;
}
static MatrixXd nullSpace(const QpCall &q, const std::vector<int> &rows)
{
    MatrixXd E(rows.size(), q.n);
    for (size_t k = 0; k < rows.size(); k++) E.row(k) = q.A.row(rows[k]);
    Eigen::FullPivLU<MatrixXd> lu(E);
    lu.setThreshold(1e-10);
    MatrixXd K = lu.kernel();
    if (K.cols() == 1 && K.norm() == 0) return MatrixXd(q.n, 0);
    for (int k = 0; k < K.cols(); k++) K.col(k).normalize();
    return K;
}
void checkModel(Ctx &c, const QpCall &q, const LCfg &g, const VectorXd &x0, const VectorXd &u0, const std::string &at)
{
    if (!shape(c, q, g, at)) return;
    const LDims &d = g.d;
    auto rows = equalityRows(c, q);
    for (int z = 0; z < 3; z++)
    {
        LTraj t = rollout(g, x0, u0, randDu(c.rng, g));
        double sc = scaleOf(t);
        for (int k : rows)
        {
            double r = q.A.row(k).dot(t.z) - q.l(k);
            EXPECT(std::fabs(r) <= 1e-9 * sc, "trajectory-excluded", "a trajectory of the model misses equality row " << k << " by " << r << at);
        }
        c.count("trajectories_admitted");
        c.obs(t.z);
    }
    // and nothing else is admitted: every direction left free by the equality rows is a motion of the model
    MatrixXd K = nullSpace(q, rows);
    for (int k = 0; k < K.cols(); k++)
    {
        VectorXd v = K.col(k);
        double bad = v.segment(0, d.nx + d.nu).cwiseAbs().maxCoeff();
        std::string where = "start";
        for (int i = 0; i < d.ph; i++)
        {
            VectorXd x = v.segment(i * (d.nx + d.nu), d.nx), up = v.segment(i * (d.nx + d.nu) + d.nx, d.nu), xn = v.segment((i + 1) * (d.nx + d.nu), d.nx), un = v.segment((i + 1) * (d.nx + d.nu) + d.nx, d.nu);
            VectorXd du = v.segment((d.ph + 1) * (d.nx + d.nu) + i * d.nu, d.nu);
            double e = std::max((un - up - du).cwiseAbs().maxCoeff(), (xn - g.A * x - g.B * un).cwiseAbs().maxCoeff());
            if (e > bad) { bad = e; where = MSG("step " << i); }
        }
        EXPECT(bad <= 1e-8, "non-trajectory-admitted", "the equality rows admit a direction off the model by " << bad << " (" << where << ")" << at);
        c.count("directions_checked");
    }
}
void checkHold(Ctx &c, const QpCall &q, const LCfg &g, const VectorXd &, const VectorXd &, const std::string &at)
{
    if (!shape(c, q, g, at)) return;
    const LDims &d = g.d;
    auto rows = equalityRows(c, q);
    MatrixXd K = nullSpace(q, rows);
    EXPECT(K.cols() == d.ch * d.nu, "free-inputs", "the program leaves " << K.cols() << " input values free instead of " << d.ch * d.nu << " (control horizon " << d.ch << ")" << at);
    double worst = 0; int where = -1;
    for (int k = 0; k < K.cols(); k++)
        for (int i = d.ch; i < d.ph; i++)
        {
            VectorXd v = K.col(k);
            double e = std::max((v.segment((i + 1) * (d.nx + d.nu) + d.nx, d.nu) - v.segment(i * (d.nx + d.nu) + d.nx, d.nu)).cwiseAbs().maxCoeff(), v.segment((d.ph + 1) * (d.nx + d.nu) + i * d.nu, d.nu).cwiseAbs().maxCoeff());
            if (e > worst) { worst = e; where = i; }
        }
    EXPECT(worst <= 1e-8, "input-not-held", "input " << where << " may differ from input " << d.ch - 1 << at);
    c.count("horizons_checked");
}
void checkCost(Ctx &c, const QpCall &q, const LCfg &g, const VectorXd &x0, const VectorXd &u0, const std::string &at)
{
    if (!shape(c, q, g, at)) return;
    MatrixXd P = q.P.isLowerTriangular() || !q.P.isUpperTriangular() ? q.P : MatrixXd(q.P + q.P.transpose() - MatrixXd(q.P.diagonal().asDiagonal()));
    double ref = 0, doc = 0; bool first = true; double sc = 1;
    for (int z = 0; z < 5; z++)
    {
        LTraj t = rollout(g, x0, u0, randDu(c.rng, g, 2));
        double f = 0.5 * t.z.dot(P * t.z) + q.q.dot(t.z), J = documentedCost(g, t);
        sc = std::max({sc, std::fabs(f), J, 0.5 * std::fabs(t.z.dot(P * t.z))});
        if (first) { ref = f; doc = J; first = false; continue; }
        EXPECT(std::fabs((f - ref) - (J - doc)) <= 1e-9 * sc, "cost", "between two trajectories the program's cost changes by " << f - ref << ", the documented one by " << J - doc << at);
        c.count("costs_compared");
        c.obs(J);
    }
}
void checkLimits(Ctx &c, const QpCall &q, const LCfg &g, const VectorXd &x0, const VectorXd &u0, const std::string &at, bool initialInside)
{
    if (!shape(c, q, g, at)) return;
    const int T = 5;
    std::vector<LTraj> t;
    double sc = 1;
    for (int z = 0; z < T; z++) { t.push_back(rollout(g, x0, u0, randDu(c.rng, g))); sc = std::max(sc, scaleOf(t.back())); }
    struct V { std::string name; VectorXd s; bool used = false; };
    std::vector<V> want, have;
    for (int z = 0; z < T; z++)
    {
        auto L = limits(g, t[z]);
        if (z == 0) for (auto &e : L) want.push_back({e.name, VectorXd(T)});
        for (size_t k = 0; k < L.size(); k++) want[k].s(z) = L[k].slack;
    }
    MatrixXd AZ(q.m, T);
    for (int z = 0; z < T; z++) AZ.col(z) = q.A * t[z].z;
    const double tol = 1e-9 * sc;
    for (int k = 0; k < q.m; k++)
    {
        VectorXd v = AZ.row(k).transpose();
        if (std::isnan(q.l(k)) || std::isnan(q.u(k))) { c.bad("limit-nan", MSG("row " << k << " has limits " << q.l(k) << " " << q.u(k) << at)); continue; }
        bool eq = q.l(k) == q.u(k) && ((v.array() - q.l(k)).abs() <= tol).all();
        if (eq) continue;      // model or held input
        if (std::fabs(q.l(k)) < 1e25) have.push_back({MSG("row " << k << " >= " << q.l(k)), v.array() - q.l(k)});
        if (std::fabs(q.u(k)) < 1e25) have.push_back({MSG("row " << k << " <= " << q.u(k)), q.u(k) - v.array()});
        if (q.l(k) > 1e25 || q.u(k) < -1e25) c.bad("limit-infinite", MSG("row " << k << " can never hold: [" << q.l(k) << "," << q.u(k) << "]" << at));
    }
    auto same = [&](const VectorXd &a, const VectorXd &b)
    {
        if ((a - b).cwiseAbs().maxCoeff() <= 10 * tol) return true;
        double na = a.norm(), nb = b.norm();
        if (na < 1e-3 * sc || nb < 1e-3 * sc) return false;
        if (a.maxCoeff() - a.minCoeff() < 1e-3 * na) return false;
        return (a / na - b / nb).cwiseAbs().maxCoeff() <= 1e-8;
    };
    for (auto &w : want)
    {
        bool f = false;
        for (auto &h : have) if (same(w.s, h.s)) { h.used = true; f = true; }
        if (!f && w.s.maxCoeff() - w.s.minCoeff() <= 10 * tol && w.s.minCoeff() >= 0) f = true;          // independent of the inputs and satisfied
        EXPECT(f, "limit-missing", "limit " << w.name << " is not in the program" << at);
        c.count("limits_found");
        c.obs(w.s(0));
    }
    for (auto &h : have)
    {
        if (h.used) continue;
        bool fixed = h.s.maxCoeff() - h.s.minCoeff() <= 10 * tol;
        if (fixed) { if (initialInside) EXPECT(h.s.minCoeff() >= -10 * tol, "initial-excluded", "the present state or input satisfies the first step's limits but violates " << h.name << " by " << -h.s.minCoeff() << at); continue; }
        c.bad("limit-extra", MSG(h.name << " restricts trajectories but corresponds to no configured limit" << at));
    }
}
