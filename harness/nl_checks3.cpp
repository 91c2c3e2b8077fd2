// Monitors of the non-linear controller: C13 C14 C15 C16
#include "nl_util.hpp"
#include "qp.hpp"

static bool sameRes(const Res &a, const Res &b) { return a.solver_status == b.solver_status && a.feasible == b.feasible && identical(a.cost, b.cost) && a.status == b.status && identical(a.cmd, b.cmd); }
static bool sameSeq(const Seq &a, const Seq &b) { return identical(a.state, b.state) && identical(a.input, b.input) && identical(a.output, b.output); }

// ------------------------------------------------------------------ C13
CASE(C13)
{
    ScnOpt o; o.pLarge = 0.02;
    o.mag = c.rng.chance(0.3) ? 50 : 1;
    o.pScale = 0.4;
    auto sp = randScn(c.rng, o);
    Scn &s = *sp;
    const Dims &d = s.d;
    auto ctl = s.make();
    NLPar par;
    VectorXd x0;
    std::string log;
    auto traj = [&](const char *who, const MatrixXd &X, const MatrixXd *Y, const MatrixXd &U) {
        EXPECT(X.rows() == d.ph + 1 && X.cols() == d.nx && U.rows() == d.ph + 1 && U.cols() == d.nu && (!Y || (Y->rows() == d.ph + 1 && Y->cols() == d.ny)), "matrix-size", who << " receives X " << X.rows() << "x" << X.cols() << " U " << U.rows() << "x" << U.cols() << (Y ? MSG(" Y " << Y->rows() << "x" << Y->cols()) : std::string()) << ", " << s.s());
        if (!c.ok()) return;
        EXPECT(near(X.row(0), x0.transpose(), 1e-12), "first-row", who << ": first state row " << str(X.row(0)) << " is not the initial state " << str(x0.transpose()) << " " << log << ", " << s.s());
        EXPECT(near(U.row(d.ph), U.row(d.ph - 1), 1e-12), "last-input-row", who << ": last input row " << str(U.row(d.ph)) << " does not repeat " << str(U.row(d.ph - 1)) << " " << log << ", " << s.s());
        if (Y) EXPECT(near(*Y, s.outputs(X, U), 1e-10), "outputs", who << ": outputs " << str(*Y) << " are not those of the states and inputs " << str(s.outputs(X, U)) << " " << log << ", " << s.s());
        c.count("trajectories_seen");
    };
    int calls = c.rng.hist(1, 4);
    for (int t = 0; t < calls; t++)
    {
        if (c.rng.chance(0.6)) { par.maxeval = c.rng.i(2, 25); par.hard = c.rng.chance(0.5); par.warm = c.rng.chance(0.5); ctl->setParams(par); log += "par "; }
        if (c.rng.chance(0.3)) { for (int j = 0; j < d.nx; j++) s.sx(j) = s.mx(j) * c.rng.logu(0.05, 20); ctl->setStateScale(s.sx); log += "sx "; }
        if (c.rng.chance(0.3)) { for (int j = 0; j < d.nu; j++) s.su(j) = s.mu(j) * c.rng.logu(0.05, 20); ctl->setInputScale(s.su); log += "su "; }
        if (c.rng.chance(0.3)) { VectorXd lo = -c.rng.vec(d.nu, 0.2, 2).cwiseProduct(s.mu); ctl->inputBounds(lo, -lo, -1, -1); log += "bu "; }
        if (c.rng.chance(0.3)) { VectorXd lo = -c.rng.vec(d.nx, 1, 4).cwiseProduct(s.mx); ctl->stateBounds(lo, -lo, -1, -1); log += "bx "; }
        x0 = s.randX0(c.rng);
        VectorXd u0 = s.randU0(c.rng);
        if (c.rng.chance(0.15)) x0(c.rng.i(0, d.nx - 1)) = 0;
        long no = 0;
        s.mon.obj = [&](const MatrixXd &X, const MatrixXd &Y, const MatrixXd &U, double e) { no++; traj("objective", X, &Y, U); (void)e; };
        s.mon.ineq = [&](int n, const MatrixXd &X, const MatrixXd &Y, const MatrixXd &U, double) { traj("inequality function", X, &Y, U); EXPECT(n == d.ineq, "result-size", "inequality vector has size " << n << " instead of " << d.ineq); };
        s.mon.eq = [&](int n, const MatrixXd &X, const MatrixXd &U) { traj("equality function", X, nullptr, U); EXPECT(n == d.eq, "result-size", "equality vector has size " << n << " instead of " << d.eq); };
        s.mon.state = [&](int n, const VectorXd &x, const VectorXd &u, unsigned k) { c.count("state_calls"); EXPECT(n == d.nx && x.size() == d.nx && u.size() == d.nu, "vector-size", "state function vectors have sizes " << n << " " << x.size() << " " << u.size()); EXPECT((int)k < d.ph, "state-step", "state function called with step " << k << " of " << d.ph << ", " << s.s()); };
        s.mon.out = [&](int n, const VectorXd &x, const VectorXd &u, unsigned k) { c.count("output_calls"); EXPECT(n == d.ny && x.size() == d.nx && u.size() == d.nu, "vector-size", "output function vectors have sizes " << n << " " << x.size() << " " << u.size()); EXPECT((int)k <= d.ph, "output-step", "output function called with step " << k << " of " << d.ph << ", " << s.s()); };
        VectorXd xs = x0;
        ctl->optimize(x0, u0);
        s.mon.clear();
        EXPECT(identical(xs, x0), "x0-modified", "x0 was modified");
        if (no > 0) c.nontrivial = true;
        c.obs((uint64_t)no); c.obs(x0);
        log += "solve ";
        if (!c.ok()) return;
    }
    c.note(MSG("C13 " << s.s() << " history: " << log));
}

// ------------------------------------------------------------------ C14
CASE(C14)
{
    ScnOpt o; o.pLarge = 0.02;
    o.pScale = 0.5;
    auto sp = randScn(c.rng, o), gp = std::make_shared<Scn>();
    Scn &s = *sp, &w = *gp;
    { const Dims &d = s.d; w = *randScn(c.rng, o, &d); w.hasOut = s.hasOut; w.hasIneq = s.hasIneq; w.hasEq = s.hasEq; }
    const Dims &d = s.d;
    auto A = makeCtl(d, s.wantStatic);
    // slots of the configuration; each gets garbage settings before its final one
    struct Op { int slot; bool final; };
    std::vector<int> slots{1, 3, 6};
    if (s.cont) slots.push_back(0);
    if (s.hasOut) slots.push_back(2);
    if (s.hasIneq) slots.push_back(4);
    if (s.hasEq) slots.push_back(5);
    if (s.useScaleX) slots.push_back(7);
    if (s.useScaleU) slots.push_back(8);
    NLPar par;
    par.maxeval = c.rng.i(1, 50); par.hard = c.rng.chance(0.5); par.warm = false; par.time_limit = c.rng.chance(0.5) ? c.rng.uni(5, 50) : 0;
    if (c.rng.chance(0.5)) { par.rel_f = c.rng.logu(1e-12, 1e-2); par.rel_x = c.rng.logu(1e-12, 1e-2); par.abs_f = c.rng.logu(1e-12, 1e-2); par.abs_x = c.rng.logu(1e-12, 1e-2); }
    std::vector<Op> ops;
    std::map<int, int> left;
    for (int sl : slots)
    {
        int n = c.rng.chance(0.5) ? 0 : c.rng.i(1, 2);
        left[sl] = n;
        for (int k = 0; k <= n; k++) ops.push_back({sl, false});
    }
    c.rng.shuffle(ops);
    for (auto &q : ops) q.final = left[q.slot]-- == 0;
    Bounds b; b.reset(d);
    std::string log;
    // functions that were replaced must not be called any more
    std::map<int, bool> replaced;
    auto guard = [&](int slot, bool fin, const char *what) { if (!fin && replaced[slot]) c.bad("replaced-called", MSG("the replaced " << what << " function is still called after " << log << ", " << s.s())); };
    s.mon.clear();
    w.mon.state = [&](int, const VectorXd &, const VectorXd &, unsigned) { guard(1, false, "state"); };
    w.mon.out = [&](int, const VectorXd &, const VectorXd &, unsigned) { guard(2, false, "output"); };
    w.mon.obj = [&](const MatrixXd &, const MatrixXd &, const MatrixXd &, double) { guard(3, false, "objective"); };
    w.mon.ineq = [&](int, const MatrixXd &, const MatrixXd &, const MatrixXd &, double) { guard(4, false, "inequality"); };
    w.mon.eq = [&](int, const MatrixXd &, const MatrixXd &) { guard(5, false, "equality"); };
    bool haveModel = false, haveObj = false;
    int garbage = 0, solves = 0;
    for (auto &q : ops)
    {
        Scn &z = q.final ? s : w;
        bool took = true;
        if (!q.final) garbage++;
        log += q.final ? "" : "~";
        switch (q.slot)
        {
        case 0: took = A->setTs(q.final ? s.Ts : c.rng.uni(0.01, 1)); log += "Ts "; break;
        case 1: took = A->setState(z.stateF(), z.tolS); haveModel = true; log += "f "; break;
        case 2: took = A->setOutput(z.outF()); log += "h "; break;
        case 3: took = A->setObjective(z.objF()); haveObj = true; log += "J "; break;
        case 4: took = A->setIneq(z.ineqF(), z.tolI); log += "g "; break;
        case 5: took = A->setEq(z.eqF(), z.tolE); log += "e "; break;
        case 6: { NLPar g = par; if (!q.final) { g.maxeval = c.rng.i(1, 9); g.hard = c.rng.chance(0.5); g.warm = c.rng.chance(0.5); g.time_limit = c.rng.chance(0.5) ? 3 : 0; g.rel_f = g.abs_x = c.rng.chance(0.5) ? 1e-3 : -1; g.abs_f = g.rel_x = c.rng.chance(0.5) ? 1e-3 : 0; } A->setParams(g); log += "p "; } break;
        case 7: { VectorXd v = s.sx; if (!q.final) for (int j = 0; j < d.nx; j++) v(j) = c.rng.logu(0.01, 100); A->setStateScale(v); log += "sx "; } break;
        case 8: { VectorXd v = s.su; if (!q.final) for (int j = 0; j < d.nu; j++) v(j) = c.rng.logu(0.01, 100); A->setInputScale(v); log += "su "; } break;
        }
        EXPECT(took, "refused", "a valid setting is reported as refused, after " << log << ", " << s.s());
        if (q.final) replaced[q.slot] = true;
        if (c.rng.chance(0.2)) { std::vector<std::pair<std::string, std::string>> keep = c.violations; randomBoundCall(c, s, *A, b, VectorXd(), log); c.violations = keep; }
        if (haveModel && haveObj && c.rng.chance(0.15))
        {
            HookGuard h([&](Program &p, double *x, double *f) { if (c.rng.chance(0.3)) { for (int k = 0; k < p.n; k++) x[k] = c.rng.uni(-3, 3); return NLOPT_FAILURE; } return p.real(x, f); });
            A->optimize(s.randX0(c.rng), s.randU0(c.rng));
            log += "solve ";
            solves++;
        }
        if (!c.ok()) return;
    }
    // canonical order, each setting once
    auto B = makeCtl(d, s.wantStatic);
    s.configure(*B);
    B->setParams(par);
    B->stateBoundsMat(b.xl, b.xu);
    B->inputBoundsMat(b.ul, b.uu);
    VectorXd x0 = s.randX0(c.rng), u0 = s.randU0(c.rng);
    std::vector<Point> pts;
    for (int z = 0; z < 2; z++) pts.push_back(randPoint(c.rng, s, x0));
    struct Seen { bool ok = false; Point guess; VectorXd J, tI, tE; std::vector<VectorXd> G, E, gJ; std::vector<MatrixXd> jG, jE; double pr[7]; VectorXd lb, ub, xtol; int bi, be; };
    auto look = [&](ICtl &k, Res &r) {
        Seen q;
        HookGuard h([&](Program &p, double *x, double *f) {
            Decode dec(p, s, x0);
            if (!dec.ok) { c.bad("layout", dec.why + " after " + log + " " + s.s()); return NLOPT_FAILURE; }
            q.ok = true;
            q.guess = dec.at(p.guess);
            q.J.resize(pts.size());
            // bounds by physical variable
            Point lo = pts[0], up = pts[0];
            for (int i = 0; i < p.n; i++) { auto &v = dec.vars[i]; double a = p.lb(i) * v.scale, e = p.ub(i) * v.scale; if (v.kind == 0) { lo.X(v.k, v.j) = a; up.X(v.k, v.j) = e; } else if (v.kind == 1) { lo.U(v.k, v.j) = a; up.U(v.k, v.j) = e; } else { lo.e = a; up.e = e; } }
            q.lb.resize(d.nx * d.ph + d.nu * d.ch + 1); q.ub = q.lb;
            int at = 0;
            for (int a = 1; a <= d.ph; a++) for (int j = 0; j < d.nx; j++) { q.lb(at) = lo.X(a, j); q.ub(at++) = up.X(a, j); }
            for (int a = 0; a < d.ch; a++) for (int j = 0; j < d.nu; j++) { q.lb(at) = lo.U(a, j); q.ub(at++) = up.U(a, j); }
            q.lb(at) = lo.e; q.ub(at) = up.e;
            q.tI = sorted(p.tolerances(false)); q.tE = sorted(p.tolerances(true));
            for (size_t z = 0; z < pts.size(); z++)
            {
                VectorXd v = dec.toV(pts[z]);
                q.J(z) = p.objective(v);
                q.G.push_back(sorted(p.constraints(false, v)));
                q.E.push_back(sorted(p.constraints(true, v).cwiseAbs()));
            }
            double pr[7] = {p.ftol_rel, p.ftol_abs, p.xtol_rel, p.maxtime, p.stopval, (double)p.maxeval, 0};
            std::memcpy(q.pr, pr, sizeof pr);
            q.xtol = p.xtol_abs;
            q.bi = p.blocks(false); q.be = p.blocks(true);
            return p.real(x, f);
        });
        r = k.optimize(x0, u0);
        return q;
    };
    Res ra, rb;
    Seen qa = look(*A, ra);
    if (!c.ok()) return;
    Seen qb = look(*B, rb);
    if (!c.ok()) return;
    if (!qa.ok || !qb.ok) { c.bad("no-solver-call", "optimize did not run the solver after " + log); return; }
    std::string at = " after " + log + ", " + s.s();
    EXPECT(near(qa.lb, qb.lb, 1e-12) && near(qa.ub, qb.ub, 1e-12), "bounds", "bounds " << str(qa.lb.transpose()) << " .. " << str(qa.ub.transpose()) << " instead of " << str(qb.lb.transpose()) << " .. " << str(qb.ub.transpose()) << at);
    EXPECT(near(qa.guess.X, qb.guess.X, 1e-12) && near(qa.guess.U, qb.guess.U, 1e-12) && near(qa.guess.e, qb.guess.e, 1e-12), "guess", "initial guess differs" << at);
    EXPECT(qa.tI.size() == qb.tI.size() && qa.tE.size() == qb.tE.size(), "constraint-count", qa.tI.size() << " inequalities and " << qa.tE.size() << " equalities instead of " << qb.tI.size() << " and " << qb.tE.size() << at);
    if (!c.ok()) return;
    EXPECT(identical(qa.tI, qb.tI) && identical(qa.tE, qb.tE), "tolerances", "tolerances " << str(qa.tI.transpose()) << " | " << str(qa.tE.transpose()) << " instead of " << str(qb.tI.transpose()) << " | " << str(qb.tE.transpose()) << at);
    EXPECT(near(qa.J, qb.J, 1e-12), "objective", "objective " << str(qa.J.transpose()) << " instead of " << str(qb.J.transpose()) << at);
    for (size_t z = 0; z < pts.size(); z++)
    {
        EXPECT(near(qa.G[z], qb.G[z], 1e-12), "inequalities", "inequalities " << str(qa.G[z].transpose()) << " instead of " << str(qb.G[z].transpose()) << at);
        EXPECT(near(qa.E[z], qb.E[z], 1e-11), "equalities", "equalities " << str(qa.E[z].transpose()) << " instead of " << str(qb.E[z].transpose()) << at);
        // against the reference too: both orders could lose the same setting
        EXPECT(near(qa.J(z), s.cost(pts[z].X, s.outputs(pts[z].X, pts[z].U), pts[z].U, pts[z].e), 1e-9), "objective-reference", "objective is not the last one given" << at);
    }
    for (int k = 0; k < 6; k++) EXPECT(identical(qa.pr[k], qb.pr[k]), "parameters", "solver parameter " << k << " is " << qa.pr[k] << " instead of " << qb.pr[k] << at);
    EXPECT(identical(qa.xtol, qb.xtol), "parameters", "absolute variable tolerances differ" << at);
    if (ra.status == ST_ERROR) ra.cmd = rb.cmd;
    EXPECT(sameRes(ra, rb) && sameSeq(A->seq(), B->seq()), "result", "result cost " << ra.cost << " cmd " << str(ra.cmd.transpose()) << " instead of cost " << rb.cost << " cmd " << str(rb.cmd.transpose()) << at);
    c.obs(qa.J); c.obs((int)ops.size());
    c.nontrivial = garbage > 0 || solves > 0;
    c.count("problems_compared"); c.count("replaced_settings", garbage); c.count("interleaved_solves", solves);
    c.note(MSG("C14 " << s.s() << " settings: " << log));
}

// ------------------------------------------------------------------ C15
// all trajectories as an affine function of the free inputs
struct Condensed
{
    MatrixXd H; VectorXd g; double c0;
    MatrixXd G; VectorXd lo, up;
    std::vector<MatrixXd> X, U;     // value at 0 and directions
    Point at(const VectorXd &z) const { Point q{X[0], U[0], 0}; for (int i = 0; i < z.size(); i++) { q.X += z(i) * (X[i + 1] - X[0]); q.U += z(i) * (U[i + 1] - U[0]); } return q; }
};
static Point rollout(const Scn &s, const VectorXd &x0, const VectorXd &z)
{
    const Dims &d = s.d;
    Point q; q.e = 0;
    q.X.resize(d.ph + 1, d.nx); q.U.resize(d.ph + 1, d.nu);
    for (int k = 0; k <= d.ph; k++) for (int j = 0; j < d.nu; j++) q.U(k, j) = z(std::min(k, d.ch - 1) * d.nu + j);
    q.X.row(0) = x0.transpose();
    // x -> f(x,u,k) = F x + ...: trapezoidal step solved exactly
    MatrixXd F = s.mx.asDiagonal() * s.A * s.mx.cwiseInverse().asDiagonal();
    for (int k = 0; k < d.ph; k++)
    {
        VectorXd x = q.X.row(k), u = q.U.row(k);
        if (!s.cont) q.X.row(k + 1) = s.f(x, u, k).transpose();
        else
        {
            VectorXd zero = VectorXd::Zero(d.nx), rest = s.f(zero, u, k);     // f(y,u,k) = F y + rest
            VectorXd rhs = x + s.Ts / 2 * (s.f(x, u, k) + rest);
            q.X.row(k + 1) = (MatrixXd::Identity(d.nx, d.nx) - s.Ts / 2 * F).partialPivLu().solve(rhs).transpose();
        }
    }
    return q;
}
static Condensed condense(const Scn &s, const VectorXd &x0, const Bounds &b)
{
    const Dims &d = s.d;
    int n = d.ch * d.nu;
    Condensed q;
    std::vector<VectorXd> zs{VectorXd::Zero(n)};
    for (int i = 0; i < n; i++) { VectorXd z = VectorXd::Zero(n); z(i) = 1; zs.push_back(z); }
    auto J = [&](const VectorXd &z) { Point p = rollout(s, x0, z); return s.cost(p.X, s.outputs(p.X, p.U), p.U, 0); };
    for (auto &z : zs) { Point p = rollout(s, x0, z); q.X.push_back(p.X); q.U.push_back(p.U); }
    // quadratic cost by exact polarisation at the scale of the inputs
    VectorXd L(n); for (int i = 0; i < n; i++) L(i) = s.mu(i % d.nu);
    q.c0 = J(zs[0]);
    q.g.resize(n); q.H.resize(n, n);
    VectorXd Jp(n), Jm(n);
    for (int i = 0; i < n; i++) { Jp(i) = J(L(i) * zs[i + 1]); Jm(i) = J(-L(i) * zs[i + 1]); q.g(i) = (Jp(i) - Jm(i)) / (2 * L(i)); q.H(i, i) = (Jp(i) + Jm(i) - 2 * q.c0) / (L(i) * L(i)); }
    for (int i = 0; i < n; i++) for (int j = 0; j < i; j++)
    {
        double v = (J(L(i) * zs[i + 1] + L(j) * zs[j + 1]) - Jp(i) - Jp(j) + q.c0) / (L(i) * L(j));
        q.H(i, j) = q.H(j, i) = v;
    }
    std::vector<VectorXd> rows; std::vector<double> lo, up;
    auto add = [&](const std::function<double(int)> &val, double l, double u) {   // val(i): value at z_i (0: origin)
        if (std::isinf(l) && std::isinf(u)) return;
        VectorXd r(n); double v0 = val(0);
        for (int i = 0; i < n; i++) r(i) = val(i + 1) - v0;
        rows.push_back(r); lo.push_back(l - v0); up.push_back(u - v0);
    };
    for (int k = 0; k < d.ph; k++) for (int j = 0; j < d.nx; j++) add([&](int i) { return q.X[i](k + 1, j); }, b.xl(j, k), b.xu(j, k));
    for (int k = 0; k < d.ch; k++) for (int j = 0; j < d.nu; j++) add([&](int i) { return q.U[i](k, j); }, b.ul(j, k), b.uu(j, k));
    if (s.hasIneq) for (int m = 0; m < d.ineq; m++) add([&](int i) { return s.ineqs(q.X[i], s.outputs(q.X[i], q.U[i]), q.U[i], 0)(m); }, -INF, 0);
    if (s.hasEq) for (int m = 0; m < d.eq; m++) add([&](int i) { return s.eqs(q.X[i], q.U[i])(m); }, 0, 0);
    q.G.resize(rows.size(), n); q.lo.resize(rows.size()); q.up.resize(rows.size());
    for (size_t r = 0; r < rows.size(); r++) { q.G.row(r) = rows[r].transpose(); q.lo(r) = lo[r]; q.up(r) = up[r]; }
    return q;
}
CASE(C15)
{
    ScnOpt o;
    o.lq = true;
    o.maxeq = 1;
    o.pScale = 0.3;
    auto sp = randScn(c.rng, o);
    Scn &s = *sp;
    const Dims &d = s.d;
    s.tolS = s.tolI = s.tolE = 1e-9f;
    if (s.d.eq > 1 || d.ch * d.nu < 2) s.hasEq = false;
    if (s.useScaleX) for (int j = 0; j < d.nx; j++) s.sx(j) = c.rng.logu(0.3, 3);
    if (s.useScaleU) for (int j = 0; j < d.nu; j++) s.su(j) = c.rng.logu(0.3, 3);
    auto ctl = s.make();
    NLPar par;
    par.maxeval = 3000; par.rel_f = 1e-14; par.rel_x = 1e-10; par.warm = c.rng.chance(0.5);
    ctl->setParams(par);
    Bounds b; b.reset(d);
    const double big = c.rng.chance(0.25) ? c.rng.logu(5, 200) : 1;      // far from the origin
    VectorXd x = big * s.randX0(c.rng), u = s.randU0(c.rng) * 0.5;
    // bounds around a reference rollout, so that the first problem has an interior
    Point ref = rollout(s, x, 0.5 * c.rng.vec(d.ch * d.nu));
    if (c.rng.chance(0.6))
    {
        for (int k = 0; k < d.ch; k++) for (int j = 0; j < d.nu; j++) if (c.rng.chance(0.8)) { b.ul(j, k) = ref.U(k, j) - c.rng.uni(0.05, 1); b.uu(j, k) = ref.U(k, j) + c.rng.uni(0.05, 1); }
        ctl->inputBoundsMat(b.ul, b.uu);
    }
    if (c.rng.chance(0.5))
    {
        for (int k = 0; k < d.ph; k++) for (int j = 0; j < d.nx; j++) if (c.rng.chance(0.5)) { b.xl(j, k) = ref.X(k + 1, j) - c.rng.uni(0.1, 2); b.xu(j, k) = ref.X(k + 1, j) + c.rng.uni(0.1, 2); }
        ctl->stateBoundsMat(b.xl, b.xu);
    }
    if (s.hasIneq) { VectorXd g = s.ineqs(ref.X, s.outputs(ref.X, ref.U), ref.U, 0); s.i0 -= g + c.rng.vec(d.ineq, 0.05, 1); }
    if (s.hasEq) s.e0 -= s.eqs(ref.X, ref.U);
    int steps = c.rng.hist(1, 6), solved = 0;
    for (int t = 0; t < steps; t++)
    {
        if (x.cwiseAbs().maxCoeff() > 1000 || u.cwiseAbs().maxCoeff() > 1000) { c.count("diverged_loops"); break; }
        Res r = ctl->optimize(x, u);
        Condensed q = condense(s, x, b);
        QPSol best = qpSolve(q.H, q.g, q.G, q.lo, q.up, 1e-10);
        if (best.status != 0) { c.count(best.status == 1 ? "infeasible_problems" : "no_oracle"); break; }
        double Jb = best.obj + q.c0;
        Point pb = q.at(best.x);
        if (r.status != ST_SUCCESS) { c.count("not_converged"); x = pb.X.row(1); u = pb.U.row(0); if (s.cont || true) continue; }
        Seq z = ctl->seq();
        // SLSQP may stop early on a search direction it cannot improve: only feasible answers are judged
        auto violation = [&](const Seq &z) {
            double v = s.defects(z.state, z.input).cwiseAbs().maxCoeff();
            if (s.hasIneq) v = std::max(v, s.ineqs(z.state, s.outputs(z.state, z.input), z.input, 0).maxCoeff());
            if (s.hasEq) v = std::max(v, s.eqs(z.state, z.input).cwiseAbs().maxCoeff());
            return v;
        };
        auto other = [&](int z, double size) {      // the same problem from another initial guess
            auto again = s.make();
            NLPar p2 = par; p2.warm = false;
            again->setParams(p2); again->inputBoundsMat(b.ul, b.uu); again->stateBoundsMat(b.xl, b.xu);
            Res w = again->optimize(x, z == 0 ? VectorXd(pb.U.row(0).transpose()) : VectorXd(u + c.rng.vec(d.nu, -0.1, 0.1) * size));
            return std::make_pair(w, again->seq());
        };
        double viol = violation(z), limit = 1e-2 * std::max(big, z.state.cwiseAbs().maxCoeff());
        if (!(viol < limit))
        {   // rarely SLSQP stops early; an error of the problem shows from every initial guess
            int persists = 0;
            for (int n = 0; n < 4; n++) { auto w = other(n, std::max(1.0, pb.U.row(0).cwiseAbs().maxCoeff())); if (w.first.status == ST_SUCCESS) persists += !(violation(w.second) < limit) ? 1 : -4; }
            if (persists < 2) { c.count("early_stops"); x = pb.X.row(1); u = pb.U.row(0); continue; }
        }
        std::string at = MSG(" (step " << t << ", " << s.s() << ")");
        EXPECT(viol < limit, "infeasible-success", "sequence reported as SUCCESS violates the constraints by " << viol << at);
        if (viol > 1e-7) { c.count("imprecise_stops"); x = pb.X.row(1); u = pb.U.row(0); continue; }
        double sc = std::max(1.0, std::fabs(Jb)), size = std::max(1.0, pb.U.row(0).cwiseAbs().maxCoeff());
        if (size > 1000) { c.count("diverged_loops"); break; }
        // the cost of a strictly convex problem limits the distance from its optimum
        double sharp = Eigen::SelfAdjointEigenSolver<MatrixXd>(q.H, Eigen::EigenvaluesOnly).eigenvalues()(0);
        double reach = std::max(2e-3 * size, 2 * std::sqrt(2 * 1e-9 * sc / std::max(1e-12, sharp)));
        if (reach < 1e-2 * size) c.count("commands_compared");
        auto wrong = [&](const Res &w) {
            if (std::fabs(w.cost - Jb) >= 1e-6 * sc) return 1;
            return (w.cmd.transpose() - pb.U.row(0)).cwiseAbs().maxCoeff() >= reach ? 2 : 0;
        };
        int bad = wrong(r);
        if (bad)
        {   // rarely SLSQP stops early on a direction it cannot improve; an error of the problem shows from every initial guess
            int persists = 0;
            for (int z = 0; z < 4; z++)
            {
                Res w = other(z, size).first;
                if (w.status == ST_SUCCESS) persists += wrong(w) ? 1 : -4;
            }
            if (persists < 2) { c.count("early_stops"); bad = 0; }
        }
        double gap = r.cost - Jb;
        EXPECT(bad != 1, "suboptimal", "cost " << r.cost << " but the optimum is " << Jb << " (command " << str(r.cmd.transpose()) << " instead of " << str(pb.U.row(0)) << ")" << at);
        EXPECT(bad != 2, "command", "command " << str(r.cmd.transpose()) << " instead of " << str(pb.U.row(0)) << at);
        if (gap < 1e-6 * sc && gap > -1e-6 * sc) c.count("optimal_to_1e-6");
        solved++;
        c.count("optima_compared");
        c.obs(r.cost);
        // the plant: the model itself
        Point nx = rollout(s, x, Eigen::Map<const VectorXd>(MatrixXd(z.input.topRows(d.ch).transpose()).data(), d.ch * d.nu));
        x = nx.X.row(1).transpose(); u = r.cmd;
        if (!c.ok()) return;
    }
    c.nontrivial = solved > 0;
    c.note(MSG("C15 " << s.s() << " closed loop steps compared: " << solved));
}

// ------------------------------------------------------------------ C16
CASE(C16)
{
    ScnOpt o; o.pLarge = 0.02;
    o.pScale = 0.3;
    auto sp = randScn(c.rng, o);
    Scn &s = *sp;
    const Dims &d = s.d;
    auto ctl = s.make();
    int rounds = c.rng.hist(1, 5);
    std::string log;
    NLPar par;   // defaults are in force before the first setting
    bool wild = false;
    for (int t = 0; t < rounds; t++)
    {
        if (t > 0 || c.rng.chance(0.8))
        {
            auto tol = [&] { int k = c.rng.i(0, 5); return k == 0 ? -1.0 : k == 1 ? 0.0 : c.rng.logu(1e-14, 1e-1); };
            par.rel_f = tol(); par.rel_x = tol(); par.abs_f = tol(); par.abs_x = tol();
            int k = c.rng.i(0, 4);
            par.time_limit = k == 0 ? 0 : k == 1 ? -c.rng.uni(0, 5) : c.rng.uni(20, 1000);
            par.maxeval = c.rng.i(1, 60);
            wild = c.rng.chance(0.25);      // the solver is not run then
            if (wild) { par.maxeval = c.rng.chance(0.1) ? c.rng.i(-2, 0) : (int)c.rng.logu(1, 2.1e9); if (k > 1) par.time_limit = c.rng.logu(1e-6, 1e7); }
            par.hard = c.rng.chance(0.5); par.warm = c.rng.chance(0.4);
            if (c.rng.chance(0.4))
            {   // some are left at their defaults
                const NLPar def;
                if (c.rng.chance(0.5)) par.rel_f = def.rel_f;
                if (c.rng.chance(0.5)) par.rel_x = def.rel_x;
                if (c.rng.chance(0.5)) par.abs_f = def.abs_f;
                if (c.rng.chance(0.5)) par.abs_x = def.abs_x;
                if (c.rng.chance(0.5)) par.time_limit = def.time_limit;
                if (c.rng.chance(0.5)) par.maxeval = def.maxeval;
                if (c.rng.chance(0.5)) par.hard = def.hard;
                if (c.rng.chance(0.5)) par.warm = def.warm;
                c.count("settings_with_defaults");
            }
            int reps = c.rng.chance(0.2) ? 2 : 1;
            while (reps--) ctl->setParams(par);
            log += MSG("{eval=" << par.maxeval << " time=" << par.time_limit << " ftol=" << par.rel_f << "/" << par.abs_f << " xtol=" << par.rel_x << "/" << par.abs_x << " hard=" << par.hard << "} ");
        }
        // settings that must not disturb the parameters
        if (c.rng.chance(0.3)) { for (int j = 0; j < d.nx; j++) s.sx(j) = c.rng.logu(0.05, 20); ctl->setStateScale(s.sx); log += "sx "; }
        if (c.rng.chance(0.3)) { VectorXd lo = -c.rng.vec(d.nu, 0.2, 2); ctl->inputBounds(lo, -lo, -1, -1); log += "bu "; }
        if (c.rng.chance(0.2)) { ctl->setState(s.stateF(), s.tolS); log += "f "; }
        if (c.rng.chance(0.2) && s.hasIneq) { ctl->setIneq(s.ineqF(), s.tolI); log += "g "; }
        if (c.rng.chance(0.2)) { ctl->setObjective(s.objF()); log += "J "; }
        VectorXd x0 = s.randX0(c.rng), u0 = s.randU0(c.rng);
        bool seen = false; long evals = 0, moved = 0, objs = 0; double eFinal = 0; int code = 0;
        std::string at = " after " + log + ", " + s.s();
        {
            HookGuard h([&](Program &p, double *x, double *f) {
                seen = true;
                Decode dec(p, s, x0);
                if (!dec.ok) { c.bad("layout", dec.why + " " + s.s()); return NLOPT_FAILURE; }
                EXPECT(p.ftol_rel == par.rel_f, "ftol_rel", "relative function tolerance " << p.ftol_rel << " instead of " << par.rel_f << at);
                EXPECT(p.ftol_abs == par.abs_f, "ftol_abs", "absolute function tolerance " << p.ftol_abs << " instead of " << par.abs_f << at);
                EXPECT(p.xtol_rel == par.rel_x, "xtol_rel", "relative variable tolerance " << p.xtol_rel << " instead of " << par.rel_x << at);
                for (int k = 0; k < p.n; k++) EXPECT(p.xtol_abs(k) == par.abs_x, "xtol_abs", "absolute variable tolerance " << p.xtol_abs(k) << " instead of " << par.abs_x << at);
                EXPECT(p.maxeval == par.maxeval || (p.maxeval <= 0 && par.maxeval <= 0), "maxeval", "maximum number of evaluations " << p.maxeval << " instead of " << par.maxeval << at);
                EXPECT(par.time_limit > 0 ? p.maxtime == par.time_limit : p.maxtime <= 0, "maxtime", "time limit " << p.maxtime << " instead of " << par.time_limit << at);
                EXPECT(!(p.stopval > -1e300), "stopval", "a stop value was set");
                int sl = -1;
                for (int k = 0; k < p.n; k++) if (dec.vars[k].kind == 2) sl = k;
                if (par.hard) EXPECT(p.lb(sl) == 0 && p.ub(sl) == 0, "slack-fixed", "with hard constraints the slack is bounded by [" << p.lb(sl) << "," << p.ub(sl) << "]" << at);
                else EXPECT(p.lb(sl) == -INF && p.ub(sl) == INF, "slack-free", "without hard constraints the slack is bounded by [" << p.lb(sl) << "," << p.ub(sl) << "]" << at);
                if (!c.ok()) return NLOPT_FAILURE;
                // the slack reaches the user's functions
                Point q = randPoint(c.rng, s, x0, 2);
                VectorXd v = dec.toV(q);
                EXPECT(near(p.objective(v), s.cost(q.X, s.outputs(q.X, q.U), q.U, q.e), 1e-9), "slack-objective", "the objective does not see the slack " << q.e << at);
                s.mon.obj = [&](const MatrixXd &, const MatrixXd &, const MatrixXd &, double e) { objs++; if (par.hard) EXPECT(!(std::fabs(e) >= 1e-3), "slack-nonzero", "objective evaluated with slack " << e << " although constraints are hard" << at); else if (std::fabs(e) > 1e-3) moved++; };
                s.mon.ineq = [&](int, const MatrixXd &, const MatrixXd &, const MatrixXd &, double e) { if (par.hard) EXPECT(!(std::fabs(e) >= 1e-3), "slack-nonzero", "inequalities evaluated with slack " << e << " although constraints are hard" << at); };
                if (wild) { *f = 1; return NLOPT_SUCCESS; }
                code = p.real(x, f);
                evals = nlopt_get_numevals(p.opt);
                eFinal = x[sl];
                return (nlopt_result)code;
            });
            ctl->optimize(x0, u0);
            s.mon.clear();
        }
        if (!seen) { c.bad("no-solver-call", "optimize did not run the solver"); return; }
        if (!c.ok()) return;
        EXPECT(par.maxeval <= 0 || evals <= par.maxeval, "too-many-evaluations", evals << " evaluations although the maximum is " << par.maxeval << at);
        if (par.hard) EXPECT(eFinal == 0 || eFinal != eFinal, "slack-result", "hard constraints but final slack " << eFinal << at);
        c.count(wild ? "scripted_solves" : "solves_checked");
        if (!wild) c.count(par.hard ? "hard_solves" : "soft_solves");
        if (!par.hard && moved) c.count("soft_solves_moving_slack");
        c.obs(par.rel_f); c.obs(par.abs_x); c.obs((uint64_t)objs);
        log += "solve ";
        if (t > 0) c.nontrivial = true;
    }
    c.note(MSG("C16 " << s.s() << " history: " << log));
}
