// Monitors of the non-linear controller: C01 C02 C03 C04 C05
#include "nl_util.hpp"

// ------------------------------------------------------------------ C01
CASE(C01)
{
    ScnOpt o; o.pLarge = 0.02;
    o.mag = c.rng.chance(0.3) ? 100 : 1;
    auto sp = randScn(c.rng, o);
    Scn &s = *sp;
    const Dims &d = s.d;
    auto ctl = s.make();
    NLPar par;
    par.maxeval = c.rng.i(3, 30);
    par.hard = c.rng.chance(0.5);
    par.warm = c.rng.chance(0.4);
    ctl->setParams(par);
    int calls = c.rng.hist(2, 4);
    Res prev; Seq prevSeq; bool have = false;
    for (int t = 0; t < calls; t++)
    {
        VectorXd x0 = s.randX0(c.rng), u0 = s.randU0(c.rng);
        bool inject = c.rng.chance(0.6);
        Point fin; double fval = 0; bool gotFinal = false, layoutOk = true; std::string why;
        Rng inner(c.rng.next());
        if (have)
        {   // nothing changes before the next optimize
            Res r = ctl->last(); Seq q = ctl->seq();
            EXPECT(identical(r.cmd, prev.cmd) && identical(r.cost, prev.cost) && r.status == prev.status && r.solver_status == prev.solver_status && r.feasible == prev.feasible, "last-result-changed", "getLastResult changed without an optimize call");
            EXPECT(identical(q.state, prevSeq.state) && identical(q.input, prevSeq.input) && identical(q.output, prevSeq.output), "sequence-changed", "getOptimalSequence changed without an optimize call");
        }
        HookGuard hook([&](Program &p, double *x, double *f) {
            nlopt_result code;
            if (inject)
            {
                Decode dec(p, s, x0);
                if (!dec.ok) { layoutOk = false; why = dec.why; return p.real(x, f); }
                VectorXd v = dec.toV(randPoint(inner, s, x0, par.hard ? 0 : 1));
                for (int i = 0; i < p.n; i++) x[i] = v(i);
                if (inner.chance(0.01)) ageing(p, v, inner);
                *f = fval = p.objective(v);
                code = (nlopt_result)inner.i(1, 6);
            }
            else
            {
                code = p.real(x, f);
                fval = *f;
            }
            fin = Decode::record(p, s, Eigen::Map<VectorXd>(x, p.n));
            gotFinal = true;
            return code;
        });
        Res r = ctl->optimize(x0, u0);
        Seq q = ctl->seq();
        c.count("optimize_calls");
        if (!layoutOk) { c.bad("layout", why + " " + s.s()); return; }
        if (!gotFinal) { c.bad("no-solver-call", "optimize did not run the solver"); return; }
        Res l = ctl->last();
        EXPECT(identical(r.cmd, l.cmd) && identical(r.cost, l.cost) && r.status == l.status && r.solver_status == l.solver_status && r.feasible == l.feasible && r.msg == l.msg, "last-result", "getLastResult differs from the result returned");
        prev = r; prevSeq = q; have = true;
        if (r.status == ST_ERROR) { c.count("failed_solves"); continue; }
        std::string at = " (call " + std::to_string(t) + (inject ? ", injected point" : ", real solve") + ", " + s.s() + ")";
        EXPECT(q.state.rows() == d.ph + 1 && q.state.cols() == d.nx && q.input.rows() == d.ph + 1 && q.input.cols() == d.nu && q.output.rows() == d.ph + 1 && q.output.cols() == d.ny, "sequence-size", "sequence sizes are wrong" << at);
        if (!c.ok()) return;
        EXPECT(near(q.state.row(0), x0.transpose(), 1e-12), "first-state", "first state row " << str(q.state.row(0)) << " is not x0 " << str(x0.transpose()) << at);
        for (int k = d.ch; k <= d.ph; k++) EXPECT(near(q.input.row(k), q.input.row(d.ch - 1), 1e-12), "held-inputs", "input row " << k << " differs from the last free one" << at);
        EXPECT(near(q.state, fin.X, TINY), "states-not-optimum", "sequence states " << str(q.state) << " are not the solver's " << str(fin.X) << at);
        EXPECT(near(q.input, fin.U, TINY), "inputs-not-optimum", "sequence inputs " << str(q.input) << " are not the solver's " << str(fin.U) << at);
        MatrixXd Y = s.outputs(q.state, q.input);
        EXPECT(near(q.output, Y, 1e-10), "outputs", "sequence outputs " << str(q.output) << " expected " << str(Y) << at);
        EXPECT(near(r.cmd, q.input.row(0).transpose(), 1e-12), "cmd", "command " << str(r.cmd.transpose()) << " is not the first input " << str(q.input.row(0)) << at);
        double J = s.cost(q.state, Y, q.input, fin.e);
        EXPECT(near(r.cost, J, 1e-8), "cost", "cost " << r.cost << " but the objective of the sequence is " << J << at);
        c.nontrivial = true;
        c.obs(q.state); c.obs(q.input); c.obs(r.cost);
        c.count("sequences_checked");
    }
    c.note(MSG("C01 " << s.s() << " calls=" << calls << " last cost=" << prev.cost));
}

// ------------------------------------------------------------------ C02
CASE(C02)
{
    ScnOpt o; o.pLarge = 0.02;
    o.noUserEq = true;
    o.mag = c.rng.chance(0.3) ? 100 : 1;
    o.lq = c.rng.chance(0.3);
    auto sp = randScn(c.rng, o);
    Scn &s = *sp;
    const Dims &d = s.d;
    s.hasEq = false;
    auto ctl = s.make();
    NLPar par;
    par.hard = c.rng.chance(0.5);
    par.maxeval = 300;
    if (s.lq) { par.rel_f = 1e-11; par.rel_x = 1e-9; }
    ctl->setParams(par);
    VectorXd x0 = s.randX0(c.rng), u0 = s.randU0(c.rng);
    Rng in(c.rng.next());
    bool seen = false; int code = 0;
    HookGuard hook([&](Program &p, double *x, double *f) {
        seen = true;
        Decode dec(p, s, x0);
        if (!dec.ok) { c.bad("layout", dec.why + " " + s.s()); return p.real(x, f); }
        VectorXd tol = p.tolerances(true);
        EXPECT((int)tol.size() == d.ph * d.nx, "equality-count", "there are " << tol.size() << " equality constraints for " << d.ph * d.nx << " dynamics defects, " << s.s());
        if (!c.ok()) return p.real(x, f);
        for (int k = 0; k < tol.size(); k++) EXPECT(near(tol(k), s.tolState(), 1e-6 * s.tolState()), "tolerance", "dynamics tolerance " << tol(k) << " instead of " << s.tolState());
        int n = 4;
        for (int t = 0; t < n; t++)
        {
            Point q = randPoint(in, s, x0);
            if (t == 1 && !s.cont)   // exact rollout: all defects vanish
                for (int k = 0; k < d.ph; k++) q.X.row(k + 1) = s.f(q.X.row(k), q.U.row(k), k).transpose();
            if (t == 1 && s.cont)    // solve the implicit trapezoidal step by Newton-free fixed point
                for (int k = 0; k < d.ph; k++)
                {
                    VectorXd xk = q.X.row(k), uk = q.U.row(k), y = xk;
                    for (int z = 0; z < 200; z++) y = xk + s.Ts / 2 * (s.f(xk, uk, k) + s.f(y, uk, k));
                    q.X.row(k + 1) = y.transpose();
                }
            VectorXd v = dec.toV(q);
            stir(p, dec, v, in);
            bool withGrad = in.chance(0.4);
            MatrixXd J;
            VectorXd got = p.constraints(true, v, withGrad ? &J : nullptr);
            MatrixXd D = s.defects(q.X, q.U);
            VectorXd want(d.ph * d.nx);
            int at = 0;
            double scale = 1;
            for (int k = 0; k < d.ph; k++) for (int j = 0; j < d.nx; j++) { want(at++) = std::fabs(D(k, j)) / s.sx(j); scale = std::max({scale, std::fabs(q.X(k, j)) / s.sx(j), std::fabs(q.X(k + 1, j)) / s.sx(j)}); }
            VectorXd a = sorted(got.cwiseAbs()), b = sorted(want);
            for (int k = 0; k < a.size(); k++) EXPECT(std::fabs(a(k) - b(k)) <= 1e-9 * scale || !(b(k) == b(k)), "defects", "dynamics constraints " << str(a.transpose()) << " expected magnitudes " << str(b.transpose()) << ", " << s.s() << (withGrad ? " with gradient" : ""));
            c.obs(got);
            c.count("trajectories_checked");
            c.count("defects_compared", a.size());
            c.nontrivial = true;
        }
        code = p.real(x, f);
        return (nlopt_result)code;
    });
    Res r;
    int calls = c.rng.chance(0.3) ? 2 : 1;
    for (int t = 0; t < calls && c.ok(); t++)
    {
        if (t) { x0 = s.randX0(c.rng); u0 = s.randU0(c.rng); seen = false; c.count("later_calls"); }
        r = ctl->optimize(x0, u0);
        if (!seen) { c.bad("no-solver-call", "optimize did not run the solver"); return; }
        // linear problems that surely admit a solution: no conflicting constraints
        if (s.lq && (!s.hasIneq || !par.hard) && (code == 3 || code == 4 || code == 1))
        {
            Seq q = ctl->seq();
            MatrixXd D = s.defects(q.state, q.input);
            for (int j = 0; j < d.nx; j++) D.col(j) /= std::max({1.0, s.sx(j), s.mx(j)});
            double worst = D.cwiseAbs().maxCoeff();
            c.count("converged_solves");
            EXPECT(worst <= std::max(1e-3, 2 * s.tolState()), "sequence-violates-dynamics", "converged sequence violates the dynamics by " << worst << ", " << s.s());
        }
    }
    c.note(MSG("C02 " << s.s() << " status=" << r.status));
}

// ------------------------------------------------------------------ C03
// high order central difference of a vector valued function along decision variable i
static VectorXd slope(const std::function<VectorXd(const VectorXd &)> &F, VectorXd v, int i, double h)
{
    auto at = [&](double t) { VectorXd w = v; w(i) += t; return F(w); };
    return (8 * (at(h) - at(-h)) - (at(2 * h) - at(-2 * h))) / (12 * h);
}
CASE(C03)
{
    ScnOpt o; o.pLarge = 0.02;
    o.mag = c.rng.chance(0.5) ? 300 : 1;
    o.pScale = 0.5;
    auto sp = randScn(c.rng, o);
    Scn &s = *sp;
    const Dims &d = s.d;
    auto ctl = s.make();
    NLPar par;
    par.hard = c.rng.chance(0.5);
    ctl->setParams(par);
    VectorXd x0 = s.randX0(c.rng), u0 = s.randU0(c.rng);
    Rng in(c.rng.next());
    bool seen = false;
    HookGuard hook([&](Program &p, double *x, double *f) {
        seen = true;
        (void)x; (void)f;
        Decode dec(p, s, x0);
        if (!dec.ok) { c.bad("layout", dec.why + " " + s.s()); return NLOPT_SUCCESS; }
        Point q = randPoint(in, s, x0, in.chance(0.3) ? 0 : in.logu(0.1, 30));
        if (in.chance(0.5)) // elements of very different magnitude within the trajectory
            for (int k = 1; k <= d.ph; k++) for (int j = 0; j < d.nx; j++) if (in.chance(0.3)) q.X(k, j) *= in.logu(0.01, 30);
        if (in.chance(0.5))
        {
            for (int k = 0; k < d.ch; k++) for (int j = 0; j < d.nu; j++) if (in.chance(0.3)) q.U(k, j) *= in.logu(0.01, 30);
            for (int k = d.ch; k <= d.ph; k++) q.U.row(k) = q.U.row(d.ch - 1);
        }
        VectorXd v = dec.toV(q);
        auto check = [&](const char *what, const std::function<VectorXd(const VectorXd &)> &F, const MatrixXd &G, const VectorXd &withGrad) {
            VectorXd f0 = F(v);
            EXPECT(near(f0, withGrad, 1e-12), MSG(what << "-value-with-gradient"), what << " value depends on whether the gradient is asked for: " << str(withGrad.transpose()) << " vs " << str(f0.transpose()) << ", " << s.s());
            for (int i = 0; i < p.n; i++)
            {
                auto &w = dec.vars[i];
                // natural length of this variable in decision units
                double len = (w.kind == 0 ? s.mx(w.j) : w.kind == 1 ? s.mu(w.j) : 1.0) / w.scale;
                VectorXd g = slope(F, v, i, 1e-3 * len);
                double mag = w.kind == 0 ? q.X(w.k, w.j) : w.kind == 1 ? q.U(w.k, w.j) : q.e;
                mag = std::max(1.0, std::fabs(mag)) / (w.kind == 0 ? s.mx(w.j) : w.kind == 1 ? s.mu(w.j) : 1.0);
                for (int m = 0; m < g.size(); m++)
                {
                    // error allowed to a forward difference with step 1e-6*max(1,|x|), in units of the natural length
                    double tol = 2e-3 * std::max(1.0, std::fabs(g(m)) * len) + 3e-5 * mag * 8 + 1e-7 * std::fabs(f0(m)) / std::min(1.0, mag);
                    double err = std::fabs(G(m, i) - g(m)) * len;
                    EXPECT(err <= tol, MSG(what << "-gradient-" << (w.kind == 0 ? "state" : w.kind == 1 ? "input" : "slack")),
                           what << " " << m << ": derivative with respect to " << (w.kind == 0 ? "state" : w.kind == 1 ? "input" : "slack") << " " << w.j << " of row " << w.k << " is " << G(m, i) << " but the values have slope " << g(m) << " (normalised error " << err << "), " << s.s());
                    c.count("derivatives_compared");
                }
            }
        };
        stir(p, dec, v, in);
        VectorXd g1;
        double v1 = p.objective(v, &g1);
        check("objective", [&](const VectorXd &w) { VectorXd r(1); r(0) = p.objective(w); return r; }, g1.transpose(), VectorXd::Constant(1, v1));
        for (int eq = 0; eq < 2; eq++)
        {
            MatrixXd J;
            stir(p, dec, v, in);
            VectorXd vv = p.constraints(eq, v, &J);
            if (vv.size() == 0) continue;
            check(eq ? "equality" : "inequality", [&](const VectorXd &w) { return p.constraints(eq, w); }, J, vv);
        }
        c.obs(v); c.obs(g1);
        c.nontrivial = true;
        c.count("points");
        return NLOPT_SUCCESS;
    });
    int calls = c.rng.chance(0.25) ? 2 : 1;
    for (int t = 0; t < calls && c.ok(); t++)
    {
        if (t) { x0 = s.randX0(c.rng); u0 = s.randU0(c.rng); seen = false; c.count("later_calls"); }
        ctl->optimize(x0, u0);
        if (!seen) { c.bad("no-solver-call", "optimize did not run the solver"); return; }
    }
    c.note(MSG("C03 " << s.s() << " x0=" << str(x0.transpose())));
}

// ------------------------------------------------------------------ C04
CASE(C04)
{
    ScnOpt o; o.pLarge = 0.02;
    o.mag = c.rng.chance(0.3) ? 30 : 1;
    o.lq = true;
    o.noUserEq = true;
    o.pScale = 0.3;
    auto sp = randScn(c.rng, o);
    Scn &s = *sp;
    const Dims &d = s.d;
    s.hasIneq = false; s.hasEq = false;
    auto ctl = s.make();
    NLPar par;
    par.maxeval = 60;
    par.warm = c.rng.chance(0.3);
    Bounds b;
    b.reset(d);
    std::string log;
    int rounds = c.rng.i(1, 3);
    for (int t = 0; t < rounds; t++)
    {
        int calls = c.rng.i(t == 0 ? 0 : 1, 4);
        VectorXd x0 = 2 * s.randX0(c.rng), u0 = 2 * s.randU0(c.rng);
        for (int k = 0; k < calls; k++) randomBoundCall(c, s, *ctl, b, x0, log);
        if (c.rng.chance(0.3)) { ctl->setParams(par); log += "params "; }
        if (c.rng.chance(0.15) && d.ny > 0)
        {
            int threw = 0;
            try { ctl->outputBounds(VectorXd::Zero(d.ny), VectorXd::Ones(d.ny), 0, 1); } catch (const std::exception &) { threw++; }
            try { ctl->outputBoundsMat(MatrixXd::Zero(d.ny, d.ph), MatrixXd::Ones(d.ny, d.ph)); } catch (const std::exception &) { threw++; }
            EXPECT(threw == 2, "output-bounds", "output bounds are not refused with an exception");
            log += "Y! ";
        }
        if (!c.ok()) return;
        bool seen = false; int code = 0;
        {
            HookGuard hook([&](Program &p, double *x, double *f) {
                seen = true;
                Decode dec(p, s, x0);
                if (!dec.ok) { c.bad("layout", dec.why + " " + s.s()); return p.real(x, f); }
                compareBounds(c, p, dec, s, b, log);
                for (int i = 0; i < p.n; i++) EXPECT(x[i] >= p.lb(i) && x[i] <= p.ub(i), "guess-outside", "the solver starts outside the bounds: " << x[i] << " not in [" << p.lb(i) << "," << p.ub(i) << "], " << s.s());
                c.obs(p.lb); c.obs(p.ub);
                code = p.real(x, f);
                return (nlopt_result)code;
            });
            Res r = ctl->optimize(x0, u0);
            if (!seen) { c.bad("no-solver-call", "optimize did not run the solver"); return; }
            EXPECT(code != NLOPT_INVALID_ARGS, "invalid-args", "the solver refuses the problem after " << log << ", " << s.s());
            if (r.status != ST_ERROR)
            {
                Seq q = ctl->seq();
                for (int k = 0; k < d.ph; k++) for (int j = 0; j < d.nx; j++)
                    EXPECT(q.state(k + 1, j) >= b.xl(j, k) - 1e-8 * std::max(1.0, std::fabs(b.xl(j, k))) && q.state(k + 1, j) <= b.xu(j, k) + 1e-8 * std::max(1.0, std::fabs(b.xu(j, k))), "sequence-state-bounds", "state " << j << " of row " << k + 1 << " = " << q.state(k + 1, j) << " outside [" << b.xl(j, k) << "," << b.xu(j, k) << "], " << s.s());
                for (int k = 0; k < d.ph; k++) for (int j = 0; j < d.nu; j++)
                {
                    int kk = std::min(k, d.ch - 1);
                    EXPECT(q.input(k, j) >= b.ul(j, kk) - 1e-8 * std::max(1.0, std::fabs(b.ul(j, kk))) && q.input(k, j) <= b.uu(j, kk) + 1e-8 * std::max(1.0, std::fabs(b.uu(j, kk))), "sequence-input-bounds", "input " << j << " of row " << k << " = " << q.input(k, j) << " outside [" << b.ul(j, kk) << "," << b.uu(j, kk) << "], " << s.s());
                }
                c.count("sequences_checked");
            }
        }
        c.nontrivial = c.nontrivial || calls > 0;
    }
    c.note(MSG("C04 " << s.s() << " history: " << log));
}

// ------------------------------------------------------------------ C05
CASE(C05)
{
    ScnOpt o; o.pLarge = 0.02;
    o.mag = c.rng.chance(0.2) ? 30 : 1;
    auto sp = randScn(c.rng, o);
    Scn &s = *sp;
    const Dims &d = s.d;
    auto ctl = makeCtl(d, s.wantStatic);
    // user constraints that can be overridden by fixed values, to stop the solver at any feasibility pattern
    bool fixedG = false, fixedH = false;
    VectorXd G = VectorXd::Zero(d.ineq), H = VectorXd::Zero(d.eq);
    s.configure(*ctl);
    if (s.hasIneq) ctl->setIneq([&](VectorXd &g, const MatrixXd &X, const MatrixXd &Y, const MatrixXd &U, double e) { if (fixedG) g = G; else s.ineqF()(g, X, Y, U, e); }, s.tolI);
    if (s.hasEq) ctl->setEq([&](VectorXd &g, const MatrixXd &X, const MatrixXd &U) { if (fixedH) g = H; else s.eqF()(g, X, U); }, s.tolE);
    NLPar par;
    par.hard = c.rng.chance(0.5);
    par.maxeval = c.rng.i(5, 40);
    ctl->setParams(par);
    int calls = c.rng.hist(2, 5);
    for (int t = 0; t < calls; t++)
    {
        VectorXd x0 = s.randX0(c.rng), u0 = s.randU0(c.rng);
        Rng in(c.rng.next());
        int mode = in.i(0, 9);   // 0-1 real solve, 2 failure, 3-5 random stop point, 6-9 engineered values
        double ti = s.tolIneq(), te = s.tolEq();
        fixedG = fixedH = mode >= 6;
        if (mode >= 6)
        {
            auto val = [&](double tol, bool two) {
                double v;
                switch (in.i(0, 9))
                {
                case 0: v = tol; break;
                case 1: v = std::nextafter(tol, 0.0); break;
                case 2: v = std::nextafter(tol, 1.0); break;
                case 3: v = tol * 1.5; break;
                case 4: v = in.chance(0.5) ? 0.0 : -0.0; break;
                case 5: v = -in.uni(0, 2); if (two) v = tol * in.uni(-1, 1); break;
                case 6: v = in.chance(0.15) ? std::numeric_limits<double>::quiet_NaN() : tol * 0.5; break;
                case 7: v = in.chance(0.2) ? INF : tol * 0.9; break;
                case 8: v = in.chance(0.3) && !two ? -INF : -tol; break;
                default: v = tol * 0.3;
                }
                if (two && in.chance(0.5)) v = -v;
                return v;
            };
            bool mostly = in.chance(0.5);
            for (int k = 0; k < d.ineq; k++) G(k) = mostly && in.chance(0.7) ? -in.uni(0, 1) : val(ti, false);
            for (int k = 0; k < d.eq; k++) H(k) = mostly && in.chance(0.7) ? te * in.uni(-0.9, 0.9) : val(te, true);
        }
        bool seen = false, failed = false; Point fin;
        HookGuard hook([&](Program &p, double *x, double *f) {
            seen = true;
            Decode dec(p, s, x0);
            if (!dec.ok) { c.bad("layout", dec.why + " " + s.s()); return p.real(x, f); }
            // hand-over: values and tolerances
            VectorXd tI = sorted(p.tolerances(false)), tE = sorted(p.tolerances(true));
            VectorXd wI = VectorXd::Constant(s.hasIneq ? d.ineq : 0, s.tolIneq()), wE(d.ph * d.nx + (s.hasEq ? d.eq : 0));
            for (int k = 0; k < wE.size(); k++) wE(k) = k < d.ph * d.nx ? s.tolState() : s.tolEq();
            wE = sorted(wE);
            EXPECT(tI.size() == wI.size() && tE.size() == wE.size(), "constraint-count", "solver has " << tI.size() << " inequalities and " << tE.size() << " equalities instead of " << wI.size() << " and " << wE.size() << ", " << s.s());
            if (c.ok())
            {
                for (int k = 0; k < tI.size(); k++) EXPECT(std::fabs(tI(k) - wI(k)) <= 1e-6 * wI(k), "ineq-tolerance", "inequality tolerance " << tI(k) << " instead of " << wI(k));
                for (int k = 0; k < tE.size(); k++) EXPECT(std::fabs(tE(k) - wE(k)) <= 1e-6 * wE(k), "eq-tolerance", "equality tolerances " << str(tE.transpose()) << " instead of " << str(wE.transpose()));
            }
            if (mode < 6 && c.ok())
                for (int z = 0; z < 2; z++)
                {
                    Point q = randPoint(in, s, x0);
                    VectorXd v = dec.toV(q);
                    stir(p, dec, v, in);
                    MatrixXd J; bool wg = in.chance(0.4);
                    VectorXd gi = sorted(p.constraints(false, v, wg ? &J : nullptr));
                    if (s.hasIneq)
                    {
                        VectorXd want = sorted(s.ineqs(q.X, s.outputs(q.X, q.U), q.U, q.e));
                        EXPECT(near(gi, want, 1e-9), "ineq-values", "inequality values " << str(gi.transpose()) << " instead of " << str(want.transpose()) << ", " << s.s());
                        c.count("ineq_vectors_compared");
                    }
                    VectorXd ge = sorted(p.constraints(true, v, wg ? &J : nullptr).cwiseAbs());
                    MatrixXd D = s.defects(q.X, q.U);
                    for (int j = 0; j < d.nx; j++) D.col(j) /= s.sx(j);
                    VectorXd want(wE.size());
                    int at = 0;
                    double big = 1;
                    for (int k = 0; k < D.size(); k++) want(at++) = std::fabs(D.data()[k]);
                    for (int k = 0; k <= d.ph; k++) for (int j = 0; j < d.nx; j++) big = std::max(big, std::fabs(q.X(k, j)) / s.sx(j));
                    if (s.hasEq) { VectorXd e = s.eqs(q.X, q.U); for (int k = 0; k < e.size(); k++) want(at++) = std::fabs(e(k)); }
                    want = sorted(want);
                    for (int k = 0; k < want.size(); k++) EXPECT(std::fabs(ge(k) - want(k)) <= 1e-9 * big, "eq-values", "equality magnitudes " << str(ge.transpose()) << " instead of " << str(want.transpose()) << ", " << s.s());
                    c.obs(gi); c.obs(ge);
                }
            if (mode < 2) { auto r = p.real(x, f); failed = r < 0; if (!failed) fin = dec.at(Eigen::Map<VectorXd>(x, p.n)); return r; }
            if (mode == 2) { failed = true; return (nlopt_result)-in.i(1, 5); }
            Point q = randPoint(in, s, x0, par.hard ? 0 : 1);
            VectorXd v = dec.toV(q);
            for (int k = 0; k < p.n; k++) x[k] = v(k);
            *f = p.objective(v);
            fin = dec.at(v);
            return (nlopt_result)in.i(1, 6);
        });
        Res r = ctl->optimize(x0, u0);
        if (!seen) { c.bad("no-solver-call", "optimize did not run the solver"); return; }
        if (!c.ok()) return;
        bool want = true;
        std::string vals;
        if (failed) want = false;
        else
        {
            VectorXd gi = fixedG ? G : s.hasIneq ? s.ineqs(fin.X, s.outputs(fin.X, fin.U), fin.U, fin.e) : VectorXd(), ge = fixedH ? H : s.hasEq ? s.eqs(fin.X, fin.U) : VectorXd();
            double margin = INF;
            if (s.hasIneq) for (int k = 0; k < gi.size(); k++) { if (!(gi(k) <= ti)) want = false; margin = std::min(margin, std::fabs(gi(k) - ti)); }
            if (s.hasEq) for (int k = 0; k < ge.size(); k++) { if (!(std::fabs(ge(k)) <= te)) want = false; margin = std::min(margin, std::fabs(std::fabs(ge(k)) - te)); }
            vals = MSG(" g=" << str(gi.transpose()) << " tol " << ti << " h=" << str(ge.transpose()) << " tol " << te);
            // computed (not engineered) values within rounding of the tolerance decide nothing
            if (!fixedG && margin < 1e-13) continue;
            c.count(want ? "feasible_results" : "infeasible_results");
        }
        EXPECT(r.feasible == want, "is-feasible", "is_feasible is " << r.feasible << " instead of " << want << vals << (failed ? " after a failed solve" : "") << ", " << s.s());
        c.obs(want);
        if (s.hasIneq || s.hasEq) c.nontrivial = true;
        c.note(MSG("C05 call " << t << " mode " << mode << vals << " -> " << r.feasible << "; "));
    }
}
