#include "nl_scn.hpp"

Dims randDims(Rng &g, const ScnOpt &o)
{
    Dims d;
    d.nx = g.i(1, o.maxnx); d.nu = g.i(1, o.maxnu); d.ny = o.forceOut ? g.i(1, o.maxny) : g.i(0, o.maxny);
    d.ph = g.i(1, o.maxph);
    if (g.chance(o.pLarge))
    {
        if (g.chance(0.6)) { d.ph = g.i(10, 45); d.nx = g.i(1, 2); d.nu = 1; }
        else { d.nx = g.i(4, 9); d.nu = g.i(3, 6); d.ph = g.i(1, 4); if (d.ny) d.ny = g.i(1, 7); }
    }
    d.ch = g.chance(0.3) ? d.ph : g.i(1, d.ph);
    d.ineq = o.noUserIneq ? 0 : g.i(0, o.maxineq); d.eq = o.noUserEq ? 0 : g.i(0, std::min(o.maxeq, d.ch * d.nu));
    return d;
}
std::shared_ptr<Scn> randScn(Rng &g, const ScnOpt &o, const Dims *fixed)
{
    auto p = std::make_shared<Scn>();
    Scn &s = *p;
    if (fixed) s.d = *fixed; else s.d = randDims(g, o);
    if (!fixed && o.allowStatic && !staticRegistry().empty() && g.chance(o.pStatic))
    {
        std::vector<Dims> ok;
        for (auto &e : staticRegistry())
            if (!(o.noUserEq && e.d.eq) && !(o.noUserIneq && e.d.ineq) && !(o.forceOut && !e.d.ny)) ok.push_back(e.d);
        if (!ok.empty()) { s.d = g.pick(ok); s.wantStatic = true; }
    }
    const Dims &d = s.d;
    s.lq = o.lq;
    s.amp = o.lq ? 0 : g.chance(0.15) ? 0 : 0.3;
    s.cont = g.chance(o.pCont);
    s.Ts = g.logu(0.01, 0.3);
    s.hasOut = d.ny > 0 && (o.forceOut || g.chance(0.75));
    s.hasIneq = d.ineq > 0 && g.chance(0.85);
    s.hasEq = d.eq > 0 && g.chance(0.85);
    s.sx = VectorXd::Ones(d.nx); s.su = VectorXd::Ones(d.nu);
    if (g.chance(o.pScale)) { s.useScaleX = true; for (int j = 0; j < d.nx; j++) s.sx(j) = g.chance(0.04) ? g.logu(1e-4, 1e4) : g.logu(0.05, 20); }
    if (g.chance(o.pScale)) { s.useScaleU = true; for (int j = 0; j < d.nu; j++) s.su(j) = g.chance(0.04) ? g.logu(1e-4, 1e4) : g.logu(0.05, 20); }
    s.mx = VectorXd::Ones(d.nx); s.mu = VectorXd::Ones(d.nu);
    if (o.mag > 1)
    {
        for (int j = 0; j < d.nx; j++) s.mx(j) = g.logu(1 / std::sqrt(o.mag), o.mag);
        for (int j = 0; j < d.nu; j++) s.mu(j) = g.logu(1 / std::sqrt(o.mag), o.mag);
    }
    s.A = g.mat(d.nx, d.nx); if (!s.cont) s.A *= 0.9;
    s.B = g.mat(d.nx, d.nu); for (int j = 0; j < d.nu; j++) s.B(g.i(0, d.nx - 1), j) += g.sgn() * 0.7;
    s.W = g.mat(d.nx, d.nx); s.V = g.mat(d.nx, d.nu); s.ph0 = g.vec(d.nx); s.drift = g.vec(d.nx, -0.5, 0.5);
    s.C = g.mat(d.ny, d.nx); s.Dm = g.mat(d.ny, d.nu); s.Wo = g.mat(d.ny, d.nx); s.oph = g.vec(d.ny);
    s.q = g.mat(d.ph + 1, d.nx, 0.2, 2); s.r = g.mat(d.ph + 1, d.nx); s.cx = g.mat(d.ph + 1, d.nx, -0.5, 0.5);
    s.su_ = g.mat(d.ph + 1, d.nu, 0.2, 2); s.tu = g.mat(d.ph + 1, d.nu); s.cu = g.mat(d.ph + 1, d.nu, -0.5, 0.5);
    s.wy = g.mat(d.ph + 1, d.ny, 0.1, 1); s.we = g.uni(0.5, 3); s.le = g.uni(-0.5, 0.5); s.cross = g.uni(0.2, 0.8);
    for (int i = 0; i < d.ineq; i++) { s.ix.push_back(g.mat(d.ph + 1, d.nx)); s.iu.push_back(g.mat(d.ph + 1, d.nu)); s.iy.push_back(g.mat(d.ph + 1, d.ny)); }
    for (int i = 0; i < d.eq; i++) { s.ex.push_back(g.mat(d.ph + 1, d.nx)); s.eu.push_back(g.mat(d.ph + 1, d.nu)); }
    s.ie = g.vec(d.ineq, 0.3, 2); s.i0 = g.vec(d.ineq); s.is = g.vec(d.ineq, -0.4, 0.4);
    s.e0 = g.vec(d.eq); s.es = g.vec(d.eq, -0.4, 0.4);
    if (g.chance(0.7)) s.tolS = g.chance(0.04) ? 0.f : (float)g.logu(1e-9, 1e-3);
    if (g.chance(0.7)) s.tolI = g.chance(0.04) ? 0.f : (float)g.logu(1e-9, 1e-2);
    if (g.chance(0.7)) s.tolE = g.chance(0.04) ? 0.f : (float)g.logu(1e-9, 1e-2);
    return p;
}
Point randPoint(Rng &g, const Scn &s, const VectorXd &x0, double slack)
{
    const Dims &d = s.d;
    Point q;
    q.X = g.mat(d.ph + 1, d.nx, -1.5, 1.5) * s.mx.asDiagonal();
    q.X.row(0) = x0.transpose();
    q.U = g.mat(d.ph + 1, d.nu, -1.5, 1.5) * s.mu.asDiagonal();
    int special = g.i(0, 59);       // at rest: nothing moves, or everything is zero
    if (special == 0) { q.X.bottomRows(d.ph).setZero(); q.U.setZero(); slack = 0; }
    if (special == 1) q.X.rowwise() = VectorXd(x0).transpose();
    if (special == 2) q.U.rowwise() = q.U.row(0).eval();
    for (int k = d.ch; k <= d.ph; k++) q.U.row(k) = q.U.row(d.ch - 1);
    q.e = slack == 0 ? 0 : g.uni(-slack, slack);
    return q;
}
Point Decode::record(Program &p, Scn &s, const VectorXd &v)
{
    Point q;
    bool got = false;
    auto keep = s.mon.obj;
    s.mon.obj = [&](const MatrixXd &X, const MatrixXd &, const MatrixXd &U, double e) { if (!got) { q = {X, U, e}; got = true; } };
    p.objective(v);
    s.mon.obj = keep;
    if (!got) { q.X = MatrixXd::Zero(s.d.ph + 1, s.d.nx); q.U = MatrixXd::Zero(s.d.ph + 1, s.d.nu); q.e = 0; }
    return q;
}
Decode::Decode(Program &p, Scn &s, const VectorXd &x0) : p(p), s(s)
{
    const Dims &d = s.d;
    auto fail = [&](const std::string &m) { if (ok) { ok = false; why = m; } };
    base = record(p, s, VectorXd::Zero(p.n));
    if (base.X.rows() != d.ph + 1 || base.X.cols() != d.nx || base.U.rows() != d.ph + 1 || base.U.cols() != d.nu) { fail("objective receives matrices of the wrong size"); return; }
    if (!near(base.X.row(0), x0.transpose(), 1e-12)) fail("first state row " + str(base.X.row(0)) + " is not x0 " + str(x0.transpose()));
    MatrixXd seenX = MatrixXd::Zero(d.ph + 1, d.nx), seenU = MatrixXd::Zero(d.ph + 1, d.nu);
    int slack = 0;
    for (int i = 0; i < p.n && ok; i++)
    {
        VectorXd v = VectorXd::Zero(p.n);
        v(i) = 1;
        Point q = record(p, s, v);
        MatrixXd dx = q.X - base.X, du = q.U - base.U;
        double de = q.e - base.e;
        Var w{-1, 0, 0, 0};
        int hits = 0;
        for (int k = 0; k <= d.ph; k++) for (int j = 0; j < d.nx; j++) if (dx(k, j) != 0) { hits++; w = {0, k, j, dx(k, j)}; seenX(k, j)++; }
        if (hits == 0)
        {
            for (int j = 0; j < d.nu && hits == 0; j++)
            {
                int first = -1;
                for (int k = 0; k <= d.ph; k++) if (du(k, j) != 0) { if (first < 0) { first = k; w = {1, k, j, du(k, j)}; } if (!near(du(k, j), w.scale, 1e-12)) fail("a held input is scaled differently over the horizon"); seenU(k, j)++; }
                if (first >= 0) hits++;
            }
        }
        if (hits == 0 && de != 0) { w = {2, 0, 0, de}; hits++; slack++; }
        if (hits != 1) fail(MSG("decision variable " << i << " drives " << hits << " predicted quantities"));
        vars.push_back(w);
    }
    if (!ok) return;
    for (int k = 0; k <= d.ph; k++)
    {
        for (int j = 0; j < d.nx; j++) if (seenX(k, j) != (k > 0)) fail(MSG("predicted state " << j << " of row " << k << " is driven by " << seenX(k, j) << " decision variables"));
        for (int j = 0; j < d.nu; j++) if (seenU(k, j) != 1) fail(MSG("input " << j << " of row " << k << " is driven by " << seenU(k, j) << " decision variables"));
    }
    std::vector<int> blocks(d.ch * d.nu, 0);
    for (auto &w : vars)
        if (w.kind == 1) { if (w.k >= d.ch) fail(MSG("input row " << w.k << " is free although the control horizon is " << d.ch)); else blocks[w.k * d.nu + w.j]++; }
    for (int b : blocks) if (b != 1) fail("an input of the control horizon is not a free variable");
    if (slack != 1) fail("there is not exactly one slack variable");
}
VectorXd Decode::toV(const Point &q) const
{
    VectorXd v(vars.size());
    for (size_t i = 0; i < vars.size(); i++)
    {
        auto &w = vars[i];
        v(i) = w.kind == 0 ? q.X(w.k, w.j) / w.scale : w.kind == 1 ? q.U(w.k, w.j) / w.scale : q.e / w.scale;
    }
    return v;
}
