// Monitors of the linear controller: C20 C21 C22 C23 C24
#include "lm_scn.hpp"

static std::string where(const LCfg &g, bool st, const std::string &log = "") { return MSG(" (" << (st ? "static " : "dynamic ") << g.d.s() << (log.empty() ? "" : " after ") << log << ")"); }

// the configuration before: any, or nearly the one in force
static LCfg otherCfg(Ctx &c, const LCfg &g, const VectorXd &x0, const VectorXd &u0)
{
    if (c.rng.chance(0.3)) { c.count("nearly_equal_settings"); return nearCfg(c.rng, g); }
    LRand ro;
    LCfg f = randCfg(c.rng, g.d, ro);
    randLimits(c.rng, f, x0, u0, 0.5, false);
    return f;
}
// configures a controller (through the controller or directly a problem builder) and returns the quadratic program
static QpCall programOf(Ctx &c, const LCfg &g, const VectorXd &x0, const VectorXd &u0, bool st, bool direct, Rng *order, bool onlyFinite, ILin *use = nullptr)
{
    if (direct)
    {
        auto b = makeBuilder(g.d, st);
        const LDims &d = g.d;
        if (c.rng.chance(0.4))
        {   // other settings before the ones in force
            LCfg f = otherCfg(c, g, x0, u0);
            auto some = [&] { return c.rng.chance(0.6); };
            int z = c.rng.i(0, d.ph - 1), zc = c.rng.i(0, d.ch - 1);
            if (some()) b->model(f.A, f.B, f.C);
            if (d.ndu && some()) b->disturbances(f.Bd, f.Dd);
            if (some()) b->weightsMat(f.OW, f.UW, f.DW); else b->weightsAt(z, f.OW.col(z), f.UW.col(z), f.DW.col(z));
            if (some()) b->stateBoundsMat(f.xl, f.xu); else b->stateBoundsAt(z, f.xl.col(z), f.xu.col(z));
            if (some()) b->inputBoundsMat(f.ul.leftCols(d.ch), f.uu.leftCols(d.ch)); else b->inputBoundsAt(zc, f.ul.col(zc), f.uu.col(zc));
            if (some()) b->outputBoundsMat(f.yl, f.yu); else b->outputBoundsAt(z, f.yl.col(z), f.yu.col(z));
            if (some()) b->scalarVec(f.sl, f.su, f.sX, f.sU); else b->scalarAt(z, f.sl(z), f.su(z), f.sX, f.sU);
            if (some()) b->get(x0, u0, f.yR, f.uR, f.duR, f.dist);
            c.count("replaced_configurations");
        }
        std::vector<int> o{0, 1, 2, 3, 4, 5, 6};
        if (order) order->shuffle(o);
        for (int k : o) switch (k)
        {
        case 0: b->model(g.A, g.B, g.C); break;
        case 1: if (d.ndu) b->disturbances(g.Bd, g.Dd); break;
        case 2: if (c.rng.chance(0.5)) b->weightsMat(g.OW, g.UW, g.DW); else for (int z = 0; z < d.ph; z++) b->weightsAt(z, g.OW.col(z), g.UW.col(z), g.DW.col(z)); break;
        case 3: if (c.rng.chance(0.5)) b->stateBoundsMat(g.xl, g.xu); else for (int z = 0; z < d.ph; z++) b->stateBoundsAt(z, g.xl.col(z), g.xu.col(z)); break;
        case 4: if (c.rng.chance(0.5)) b->inputBoundsMat(g.ul.leftCols(d.ch), g.uu.leftCols(d.ch)); else for (int z = 0; z < d.ch; z++) b->inputBoundsAt(z, g.ul.col(z), g.uu.col(z)); break;
        case 5: if (c.rng.chance(0.5)) b->outputBoundsMat(g.yl, g.yu); else for (int z = 0; z < d.ph; z++) b->outputBoundsAt(z, g.yl.col(z), g.yu.col(z)); break;
        case 6: if (c.rng.chance(0.5)) b->scalarVec(g.sl, g.su, g.sX, g.sU); else for (int z = 0; z < d.ph; z++) b->scalarAt(z, g.sl(z), g.su(z), g.sX, g.sU); break;
        }
        c.count("direct_builders");
        return b->get(x0, u0, g.yR, g.uR, g.duR, g.dist);
    }
    std::unique_ptr<ILin> own;
    if (!use) { own = makeLin(g.d, st); use = own.get(); }
    if (!onlyFinite && c.rng.chance(0.4))
    {   // other settings before the ones in force, possibly used by a solve
        LCfg f = otherCfg(c, g, x0, u0);
        applyCfg(*use, f, order, c.rng.chance(0.5));
        if (c.rng.chance(0.4)) { Capture cap; use->optimize(c.rng.vec(g.d.nx), c.rng.vec(g.d.nu)); }
        c.count("replaced_configurations");
    }
    applyCfg(*use, g, order, onlyFinite);
    Capture cap;
    qp.clear();
    use->optimize(x0, u0);
    c.count("controllers");
    if (qp.log.size() != 1) { c.bad("no-solver-call", MSG("the solver is set up " << qp.log.size() << " times" << where(g, st))); return QpCall(); }
    QpCall k = qp.log[0];
    if (!k.malformed.empty()) c.bad("malformed", MSG(k.malformed << where(g, st)));
    return k;
}
struct Setup { LCfg g; VectorXd x0, u0; bool st, direct; };
static Setup randSetup(Ctx &c, const LRand &o, double p = 0, bool equal = false)
{
    Setup s;
    LDims d = randLDims(c.rng, o);
    s.g = randCfg(c.rng, d, o);
    s.st = c.rng.chance(0.7); s.direct = c.rng.chance(0.3);
    s.x0 = s.g.mag * c.rng.vec(d.nx, -2, 2); s.u0 = s.g.mag * c.rng.vec(d.nu);
    if (p > 0) randLimits(c.rng, s.g, s.x0, s.u0, p, equal);
    return s;
}

// ------------------------------------------------------------------ C20
CASE(C20)
{
    LRand o; o.pLarge = 0.02; o.pMag = 0.06;
    Setup s = randSetup(c, o, c.rng.chance(0.5) ? 0.3 : 0);
    LCfg &g = s.g;
    std::string log;
    std::unique_ptr<ILin> ctl;
    if (!s.direct)
    {
        ctl = makeLin(g.d, s.st);
        // earlier settings, replaced later
        int n = c.rng.i(0, 3);
        for (int k = 0; k < n; k++)
        {
            LCfg h = randCfg(c.rng, g.d, o);
            switch (c.rng.i(0, 3))
            {
            case 0: ctl->model(h.A, h.B, h.C); log += "model "; break;
            case 1: if (g.d.ndu) { ctl->disturbances(h.Bd, h.Dd); ctl->exoMat(h.dist); log += "disturbances "; } break;
            case 2: { applyCfg(*ctl, h, &c.rng); randLimits(c.rng, h, s.x0, s.u0, 0.3, false); log += "all "; } break;
            default: { applyCfg(*ctl, h, &c.rng); Capture cap; ctl->optimize(s.x0 * 0.5, s.u0); log += "all solve "; }
            }
        }
    }
    QpCall q = programOf(c, g, s.x0, s.u0, s.st, s.direct, &c.rng, false, ctl.get());
    if (!c.ok()) return;
    checkModel(c, q, g, s.x0, s.u0, where(g, s.st, log));
    if (ctl)
    {   // changing only the disturbances or only the model, or only the arguments
        int rounds = c.rng.i(1, 3);
        for (int k = 0; k < rounds && c.ok(); k++)
        {
            VectorXd x0 = c.rng.vec(g.d.nx, -2, 2), u0 = c.rng.vec(g.d.nu);
            if (c.rng.chance(0.2)) { double w = g.mag * c.rng.logu(1e-8, 1e-2); x0 = s.x0 + w * x0; u0 = s.u0 + (c.rng.chance(0.5) ? w : 0) * u0; }
            s.x0 = x0; s.u0 = u0;
            LCfg h = c.rng.chance(0.25) ? nearCfg(c.rng, g) : randCfg(c.rng, g.d, o);
            int op = c.rng.i(0, 3);
            if (op == 0) { g.A = h.A; g.B = h.B; g.C = h.C; ctl->model(g.A, g.B, g.C); log += "model "; }
            if (op == 1 && g.d.ndu) { g.Bd = h.Bd; g.Dd = h.Dd; ctl->disturbances(g.Bd, g.Dd); log += "disturbances "; }
            if (op == 2 && g.d.ndu)
            {
                int e = c.rng.i(1, g.d.ph), b = c.rng.i(0, e - 1);
                VectorXd v = h.dist.col(0);
                for (int z = b; z < e; z++) g.dist.col(z) = v;
                ctl->exo(v, b, e);
                log += MSG("exo{" << b << "," << e << "} ");
            }
            Capture cap;
            qp.clear();
            ctl->optimize(x0, u0);
            if (qp.log.size() != 1) { c.bad("no-solver-call", MSG("the solver is set up " << qp.log.size() << " times" << where(g, s.st, log))); return; }
            checkModel(c, qp.log[0], g, x0, u0, where(g, s.st, log));
            c.count("changes");
        }
    }
    c.nontrivial = true;
    c.note(MSG("C20 " << g.d.s() << (s.direct ? " builder" : s.st ? " static" : " dynamic") << " history: " << log));
}

// ------------------------------------------------------------------ C21
CASE(C21)
{
    LRand o; o.pLarge = 0.02; o.pMag = 0.06;
    Setup s = randSetup(c, o, c.rng.chance(0.3) ? 0.3 : 0);
    LCfg &g = s.g;
    const LDims &d = g.d;
    QpCall q;
    std::string log;
    if (s.direct) q = programOf(c, g, s.x0, s.u0, s.st, true, &c.rng, false);
    else
    {
        auto ctl = makeLin(d, s.st);
        LCfg h = randCfg(c.rng, d, o);
        if (c.rng.chance(0.4)) applyCfg(*ctl, h, &c.rng);
        applyCfg(*ctl, g, &c.rng);
        int n = c.rng.hist(0, 5);
        for (int k = 0; k < n; k++)
        {
            LCfg f = c.rng.chance(0.25) ? nearCfg(c.rng, g) : randCfg(c.rng, d, o);
            int e = c.rng.i(1, d.ph), b = c.rng.i(0, e - 1);
            bool all = c.rng.chance(0.2);
            if (all) { b = 0; e = d.ph; }
            switch (c.rng.i(0, 3))
            {
            case 0:
                for (int z = b; z < e; z++) { g.OW.col(z) = f.OW.col(0); g.UW.col(z) = f.UW.col(0); g.DW.col(z) = f.DW.col(0); }
                ctl->weights(f.OW.col(0), f.UW.col(0), f.DW.col(0), all ? -1 : b, all ? -1 : e); log += MSG("w{" << b << "," << e << "} "); break;
            case 1:
                for (int z = b; z < e; z++) { g.yR.col(z) = f.yR.col(0); g.uR.col(z) = f.uR.col(0); g.duR.col(z) = f.duR.col(0); }
                ctl->refs(f.yR.col(0), f.uR.col(0), f.duR.col(0), all ? -1 : b, all ? -1 : e); log += MSG("r{" << b << "," << e << "} "); break;
            case 2: g.OW = f.OW; g.UW = f.UW; g.DW = f.DW; ctl->weightsMat(g.OW, g.UW, g.DW); log += "W "; break;
            default: g.yR = f.yR; g.uR = f.uR; g.duR = f.duR; ctl->refsMat(g.yR, g.uR, g.duR); log += "R ";
            }
            if (c.rng.chance(0.2)) { Capture cap; ctl->optimize(s.x0, s.u0); log += "solve "; }
        }
        Capture cap;
        qp.clear();
        ctl->optimize(s.x0, s.u0);
        if (qp.log.size() != 1) { c.bad("no-solver-call", MSG("the solver is set up " << qp.log.size() << " times" << where(g, s.st, log))); return; }
        q = qp.log[0];
    }
    if (!c.ok()) return;
    checkCost(c, q, g, s.x0, s.u0, where(g, s.st, log));
    c.nontrivial = true;
    c.note(MSG("C21 " << d.s() << (s.direct ? " builder" : s.st ? " static" : " dynamic") << " history: " << log));
}

// ------------------------------------------------------------------ C22
CASE(C22)
{
    LRand o; o.pLarge = 0.02; o.pMag = 0.06;
    bool equal = c.rng.chance(0.2);
    Setup s = randSetup(c, o, c.rng.pick(std::vector<double>{0.15, 0.5, 1.0}), equal);
    QpCall q = programOf(c, s.g, s.x0, s.u0, s.st, s.direct, &c.rng, c.rng.chance(0.5));
    if (!c.ok()) return;
    checkLimits(c, q, s.g, s.x0, s.u0, where(s.g, s.st), true);
    // the same decided point by point: trajectories on both sides of the limits
    double worst = 0;
    for (int z = 0; z < 12; z++)
    {
        LTraj t = rollout(s.g, s.x0, s.u0, randDu(c.rng, s.g, c.rng.logu(0.02, 1.5)));
        double want = INF, have = INF; std::string name;
        for (auto &l : limits(s.g, t)) if (l.slack < want) { want = l.slack; name = l.name; }
        VectorXd v = q.A * t.z;
        double sc = 1 + t.z.cwiseAbs().maxCoeff();
        for (int k = 0; k < q.m; k++) have = std::min({have, v(k) - q.l(k), q.u(k) - v(k)});
        if (std::fabs(want) < 1e-6 * sc && !equal) { c.count("points_too_close"); continue; }
        bool inside = want > -1e-7 * sc, admitted = have > -1e-7 * sc;
        EXPECT(inside == admitted, "membership", "a trajectory with smallest slack " << want << (name.empty() ? "" : " at ") << name << " is " << (admitted ? "admitted" : "refused") << " by the program (smallest slack of a row " << have << ")" << where(s.g, s.st));
        c.count(inside ? "points_inside" : "points_outside");
        worst = std::max(worst, std::fabs(want));
    }
    auto L = limits(s.g, rollout(s.g, s.x0, s.u0, MatrixXd::Zero(s.g.d.nu, s.g.d.ph)));
    c.nontrivial = !L.empty();
    c.note(MSG("C22 " << s.g.d.s() << (s.direct ? " builder" : s.st ? " static" : " dynamic") << " limits=" << L.size() << (equal ? " some equal" : "")));
}

// ------------------------------------------------------------------ C23
CASE(C23)
{
    LRand o; o.pLarge = 0.02; o.maxph = c.rng.chance(0.2) ? 10 : 6; o.convex = true;
    Setup s = randSetup(c, o, c.rng.chance(0.4) ? 0.3 : 0);
    LCfg &g = s.g;
    if (c.rng.chance(0.5)) { auto save = g; g = randCfg(c.rng, save.d, o); }
    QpCall q = programOf(c, g, s.x0, s.u0, s.st, s.direct, &c.rng, true);
    if (!c.ok()) return;
    checkHold(c, q, g, s.x0, s.u0, where(g, s.st));
    // what the controller reports
    LCfg h = randCfg(c.rng, g.d, o);
    auto ctl = makeLin(g.d, s.st);
    applyCfg(*ctl, h, nullptr, true);
    qp.clear();
    LRes r = ctl->optimize(s.x0, s.u0);
    LSeq e = ctl->seq();
    if (r.status == LS_SUCCESS && e.input.rows() == g.d.ph + 1)
    {
        double sc = 1 + e.input.cwiseAbs().maxCoeff();
        for (int k = g.d.ch; k <= g.d.ph; k++)
            EXPECT((e.input.row(k) - e.input.row(g.d.ch - 1)).cwiseAbs().maxCoeff() <= 1e-6 * sc, "sequence-not-held", "row " << k << " of the optimal inputs differs from row " << g.d.ch - 1 << ": " << str(e.input) << where(g, s.st));
        for (int k = 1; k < g.d.ch; k++) if ((e.input.row(k) - e.input.row(k - 1)).cwiseAbs().maxCoeff() > 1e-7 * sc) c.count("moves_seen");
        c.count("sequences_checked");
    }
    c.obs(e.input);
    c.count(g.d.ch == g.d.ph ? "equal_horizons" : "shorter_control_horizons");
    c.nontrivial = true;
    c.note(MSG("C23 " << g.d.s() << (s.direct ? " builder" : s.st ? " static" : " dynamic")));
}

// ------------------------------------------------------------------ C24
CASE(C24)
{
    LRand o; o.pLarge = 0.02; o.pMag = 0.06;
    LDims d = randLDims(c.rng, o);
    bool st = c.rng.chance(0.7);
    auto ctl = makeLin(d, st);
    LCfg g = randCfg(c.rng, d, o);
    {   // bare controller with the model; everything else as never set
        LCfg e(d); e.A = g.A; e.B = g.B; e.C = g.C; e.Bd = g.Bd; e.Dd = g.Dd; g = e;
        ctl->model(g.A, g.B, g.C);
        if (d.ndu) ctl->disturbances(g.Bd, g.Dd);
    }
    std::string log;
    bool scalarSet = false;
    int ops = c.rng.hist(1, 14);
    for (int k = 0; k < ops && c.ok(); k++)
    {
        bool nearly = c.rng.chance(0.2);
        LCfg f = nearly ? nearCfg(c.rng, g) : randCfg(c.rng, d, o);
        auto lohi = [&](int n, int m, MatrixXd &lo, MatrixXd &hi) { lo = f.mag * c.rng.mat(n, m, -6, -2); hi = f.mag * c.rng.mat(n, m, 2, 6); for (int z = 0; z < n * m; z++) { if (c.rng.chance(0.2)) lo.data()[z] = -INF; if (c.rng.chance(0.2)) hi.data()[z] = INF; } };
        int what = c.rng.i(0, 9);
        bool isInput = what == 2;
        int H = isInput ? d.ch : d.ph, b, e;
        int kind = c.rng.i(0, 9);            // 0-5 valid slice, 6,7 whole, 8,9 invalid
        if (kind <= 5) { e = c.rng.i(1, H); b = c.rng.i(0, e - 1); }
        else if (kind <= 7) { b = e = -1; }
        else switch (c.rng.i(0, 8))
        {
        case 0: b = c.rng.i(0, H); e = b; break;
        case 1: b = c.rng.i(0, H - 1); e = H + c.rng.i(1, 3); break;
        case 2: b = -c.rng.i(1, 3); e = c.rng.i(1, H); break;
        case 3: b = H; e = H + 1; break;
        case 4: e = c.rng.i(0, H - 1); b = e + c.rng.i(1, 2); break;
        case 5: b = -1; e = c.rng.i(0, H); break;
        default: b = c.rng.i(0, H - 1); e = -1; break;
        case 7: b = c.rng.i(0, H - 1); e = c.rng.pick(std::vector<int>{INT_MAX, 256 + H, 65536 + H, 1 << 30, INT_MIN}); break;
        case 8: b = c.rng.pick(std::vector<int>{INT_MIN, INT_MAX, -65536, -256, 65536}); e = c.rng.i(1, H); break;
        }
        bool whole = b == -1 && e == -1;
        bool valid = whole || (b >= 0 && b < e && e <= H);
        int lo = whole ? 0 : b, hi = whole ? H : e;
        bool asMat = c.rng.chance(0.2);
        bool ret = true, expect = asMat ? true : valid;
        auto fill = [&](MatrixXd &m, const VectorXd &v) { if (valid) for (int z = lo; z < hi; z++) m.col(z) = v; };
        MatrixXd L, U;
        std::string nm;
        switch (what)
        {
        case 0:
            nm = "weights"; if (nearly && !asMat && valid) { f.OW.col(0) = f.OW.col(lo).eval(); f.UW.col(0) = f.UW.col(lo).eval(); f.DW.col(0) = f.DW.col(lo).eval(); }
            if (asMat) { g.OW = f.OW; g.UW = f.UW; g.DW = f.DW; ret = ctl->weightsMat(g.OW, g.UW, g.DW); }
            else { fill(g.OW, f.OW.col(0)); fill(g.UW, f.UW.col(0)); fill(g.DW, f.DW.col(0)); ret = ctl->weights(f.OW.col(0), f.UW.col(0), f.DW.col(0), b, e); }
            break;
        case 1:
            nm = "state bounds"; lohi(d.nx, d.ph, L, U); if (nearly) { L = f.xl; U = f.xu; if (!asMat && valid) { L = L.col(lo).eval(); U = U.col(lo).eval(); } }
            if (asMat) { g.xl = L; g.xu = U; ret = ctl->stateBoundsMat(L, U); }
            else { fill(g.xl, L.col(0)); fill(g.xu, U.col(0)); ret = ctl->stateBounds(L.col(0), U.col(0), b, e); }
            break;
        case 2:
            nm = "input bounds"; lohi(d.nu, d.ch, L, U); if (nearly) { L = f.ul.leftCols(d.ch); U = f.uu.leftCols(d.ch); if (!asMat && valid) { L = L.col(lo).eval(); U = U.col(lo).eval(); } }
            if (asMat) { g.ul.leftCols(d.ch) = L; g.uu.leftCols(d.ch) = U; g.holdInputBounds(); ret = ctl->inputBoundsMat(L, U); }
            else { fill(g.ul, L.col(0)); fill(g.uu, U.col(0)); g.holdInputBounds(); ret = ctl->inputBounds(L.col(0), U.col(0), b, e); }
            break;
        case 3:
            nm = "output bounds"; lohi(d.ny, d.ph, L, U); if (nearly) { L = f.yl; U = f.yu; if (!asMat && valid) { L = L.col(lo).eval(); U = U.col(lo).eval(); } }
            if (asMat) { g.yl = L; g.yu = U; ret = ctl->outputBoundsMat(L, U); }
            else { fill(g.yl, L.col(0)); fill(g.yu, U.col(0)); ret = ctl->outputBounds(L.col(0), U.col(0), b, e); }
            break;
        case 4: case 5:
        {
            nm = "scalar constraint";
            double l = c.rng.uni(-8, -2), u = c.rng.uni(2, 8);
            VectorXd X = c.rng.vec(d.nx), W = c.rng.vec(d.nu);
            if (nearly && !asMat && valid) { l = f.sl(lo); u = f.su(lo); X = f.sX; W = f.sU; }
            if (asMat)
            {
                int idx = c.rng.chance(0.05) ? c.rng.pick(std::vector<int>{-1, INT_MIN, INT_MAX, 256, 65536}) : c.rng.i(0, d.ph + 2); expect = idx >= 0 && idx < d.ph; b = idx; e = -7;
                ret = ctl->scalarAt(idx, l, u, X, W);
                if (expect) { g.sl(idx) = l; g.su(idx) = u; }
                if (expect) { g.sX = X; g.sU = W; scalarSet = true; }
                valid = expect;
            }
            else
            {
                ret = ctl->scalar(l, u, X, W, b, e);
                if (valid) { for (int z = lo; z < hi; z++) { g.sl(z) = l; g.su(z) = u; } g.sX = X; g.sU = W; scalarSet = true; }
            }
        } break;
        case 6:
            nm = "references"; if (nearly && !asMat && valid) { f.yR.col(0) = f.yR.col(lo).eval(); f.uR.col(0) = f.uR.col(lo).eval(); f.duR.col(0) = f.duR.col(lo).eval(); }
            if (asMat) { g.yR = f.yR; g.uR = f.uR; g.duR = f.duR; ret = ctl->refsMat(g.yR, g.uR, g.duR); }
            else { fill(g.yR, f.yR.col(0)); fill(g.uR, f.uR.col(0)); fill(g.duR, f.duR.col(0)); ret = ctl->refs(f.yR.col(0), f.uR.col(0), f.duR.col(0), b, e); }
            break;
        case 7:
            if (!d.ndu) continue;
            nm = "exogenous inputs";
            if (asMat) { g.dist = f.dist; ret = ctl->exoMat(g.dist); }
            else { fill(g.dist, f.dist.col(0)); ret = ctl->exo(f.dist.col(0), b, e); }
            break;
        case 8:
        {
            nm = "constraints"; asMat = false;
            int idx = c.rng.chance(0.05) ? c.rng.pick(std::vector<int>{-1, INT_MIN, INT_MAX, 256, 65536}) : c.rng.i(0, d.ph + 2);
            MatrixXd xL, xU, uL, uU, yL, yU; lohi(d.nx, 1, xL, xU); lohi(d.nu, 1, uL, uU); lohi(d.ny, 1, yL, yU);
            expect = valid = idx >= 0 && idx < d.ph; b = idx; e = -7;
            int r = ctl->constraintsAt(idx, xL, uL, yL, xU, uU, yU);
            if (r < 0) continue;
            ret = r;
            if (expect)
            {
                g.xl.col(idx) = xL; g.xu.col(idx) = xU; g.yl.col(idx) = yL; g.yu.col(idx) = yU;
                if (idx < d.ch) { g.ul.col(idx) = uL; g.uu.col(idx) = uU; g.holdInputBounds(); }
            }
            c.count("single_step_constraints");
        } break;
        default:
            nm = "refused"; asMat = true;
            EXPECT(ctl->refusesTs() && ctl->refusesInputScale() && ctl->refusesStateScale(), "not-refused", "sampling time or scaling accepted by a linear controller");
            c.count("refused_settings");
            log += "refused settings; ";
            continue;
        }
        log += MSG(nm << (e == -7 ? MSG("[" << b << "]") : asMat ? std::string("(matrix)") : MSG("{" << b << "," << e << "}")) << "; ");
        EXPECT(ret == expect, "return-value", "setting " << nm << " for " << (e == -7 ? MSG("step " << b) : asMat ? std::string("all steps as matrices") : MSG("{" << b << "," << e << "}")) << " returns " << ret << where(g, st));
        c.count(expect ? "valid_settings" : "invalid_settings");
        if (c.rng.chance(0.15)) { Capture cap; ctl->optimize(c.rng.vec(d.nx), c.rng.vec(d.nu)); log += "solve; "; }
    }
    (void)scalarSet;
    VectorXd x0 = c.rng.vec(d.nx), u0 = c.rng.vec(d.nu);
    Capture cap;
    qp.clear();
    ctl->optimize(x0, u0);
    if (qp.log.size() != 1 || !qp.log[0].malformed.empty()) { c.bad("no-solver-call", MSG("the solver is set up " << qp.log.size() << " times " << (qp.log.empty() ? "" : qp.log[0].malformed) << where(g, st, log))); return; }
    std::string at = where(g, st, log);
    checkCost(c, qp.log[0], g, x0, u0, at);
    checkLimits(c, qp.log[0], g, x0, u0, at, false);
    checkModel(c, qp.log[0], g, x0, u0, at);
    c.nontrivial = true;
    c.note(MSG("C24 " << d.s() << (st ? " static: " : " dynamic: ") << log));
}
