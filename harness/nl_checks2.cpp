// Monitors of the non-linear controller: C06 C07 C08 C09
#include "nl_util.hpp"
#include <stdexcept>
#include <nlopt.hpp>

// initial guess of the solver in physical units (rows 1.. of X, rows of U, slack)
static Point physicalGuess(Program &p, Decode &dec) { return dec.at(p.guess); }

static double clampd(double v, double a, double b) { return std::min(std::max(v, a), b); }

// guess the documented behaviour asks for
static Point expectedGuess(const Scn &s, const Bounds &b, const VectorXd &x0, const VectorXd &u0, const Seq *prev, double slack = 0)
{
    const Dims &d = s.d;
    Point q;
    q.X.resize(d.ph + 1, d.nx); q.U.resize(d.ph + 1, d.nu); q.e = slack;
    q.X.row(0) = x0.transpose();
    for (int k = 1; k <= d.ph; k++)
        for (int j = 0; j < d.nx; j++)
            q.X(k, j) = clampd(prev ? prev->state(std::min(k + 1, d.ph), j) : x0(j), b.xl(j, k - 1), b.xu(j, k - 1));
    for (int k = 0; k <= d.ph; k++)
        for (int j = 0; j < d.nu; j++)
        {
            int z = std::min(k, d.ch - 1);
            q.U(k, j) = clampd(prev ? prev->input(std::min(z + 1, d.ph), j) : u0(j), b.ul(j, z), b.uu(j, z));
        }
    return q;
}
static bool nearPoint(const Point &a, const Point &b, double tol, bool slack) { return near(a.X, b.X, tol) && near(a.U, b.U, tol) && (!slack || near(a.e, b.e, tol)); }
static std::string str(const Point &q) { return "X=" + ::str(q.X) + " U=" + ::str(q.U) + MSG(" e=" << q.e); }
static bool sameRes(const Res &a, const Res &b) { return a.solver_status == b.solver_status && a.feasible == b.feasible && a.msg == b.msg && identical(a.cost, b.cost) && a.status == b.status && identical(a.cmd, b.cmd); }
static bool sameSeq(const Seq &a, const Seq &b) { return identical(a.state, b.state) && identical(a.input, b.input) && identical(a.output, b.output); }
static std::string str(const Res &r) { return MSG("solver_status=" << r.solver_status << " status=" << r.status << " feasible=" << r.feasible << " cost=" << r.cost << " cmd=" << ::str(r.cmd.transpose()) << " msg='" << r.msg << "'"); }

// ------------------------------------------------------------------ C06
struct Weird { int z; };
static void raise(int kind)
{
    switch (kind)
    {
    case 0: throw std::runtime_error("user runtime error");
    case 1: throw std::logic_error("user logic error");
    case 2: throw 42;
    case 3: throw Weird{1};
    case 4: throw std::bad_alloc();
    case 5: throw std::out_of_range("user range");
    case 6: throw "text";
    case 7: throw std::invalid_argument("user argument");
    case 9: throw std::runtime_error("");
    case 10: throw nlopt::roundoff_limited();       // the types the solver itself uses
    case 11: throw nlopt::forced_stop();
    default: throw std::domain_error("user domain");
    }
}
CASE(C06)
{
    ScnOpt o; o.pLarge = 0.02;
    o.pScale = 0.3;
    auto sp = randScn(c.rng, o);
    Scn &s = *sp;
    const Dims &d = s.d;
    auto A = s.make(), B = s.make();   // B never sees the failing calls
    NLPar par;
    par.maxeval = c.rng.i(3, 25);
    par.hard = c.rng.chance(0.5);
    par.warm = c.rng.chance(0.5);
    A->setParams(par); B->setParams(par);
    Bounds bd; bd.reset(d);
    if (c.rng.chance(0.4))
    {
        VectorXd lo = c.rng.vec(d.nu, -2, -0.2), up = c.rng.vec(d.nu, 0.2, 2);
        A->inputBounds(lo, up, -1, -1); B->inputBounds(lo, up, -1, -1);
    }
    VectorXd lastCmd = VectorXd::Zero(d.nu);
    Res prevRes; Seq prevSeq;
    int calls = c.rng.hist(3, 6);
    int injected = 0;
    std::string log;
    for (int t = 0; t < calls; t++)
    {
        VectorXd x0 = s.randX0(c.rng), u0 = s.randU0(c.rng);
        Rng in(c.rng.next());
        bool fail = t + 1 < calls && in.chance(0.6);
        if (!fail)
        {
            VectorXd gA, gB; long evA = 0, evB = 0;
            auto cnt = [&](long &ev) { s.mon.obj = [&ev](const MatrixXd &, const MatrixXd &, const MatrixXd &, double) { ev++; }; };
            Res ra, rb;
            { HookGuard h([&](Program &p, double *x, double *f) { gA = p.guess; return p.real(x, f); }); cnt(evA); ra = A->optimize(x0, u0); }
            { HookGuard h([&](Program &p, double *x, double *f) { gB = p.guess; return p.real(x, f); }); cnt(evB); rb = B->optimize(x0, u0); }
            s.mon.clear();
            EXPECT(identical(gA, gB), "guess-after-failure", "after " << log << " the solver starts from " << ::str(gA.transpose()) << " instead of " << ::str(gB.transpose()) << ", " << s.s());
            EXPECT(sameRes(ra, rb) && sameSeq(A->seq(), B->seq()) && evA == evB, "result-after-failure", "after " << log << " the result is {" << str(ra) << "} instead of {" << str(rb) << "}, " << s.s());
            if (ra.status != ST_ERROR) lastCmd = ra.cmd;
            log += "ok ";
            c.obs(ra.cost);
            if (injected) c.count("solves_after_failure_compared");
            if (!c.ok()) return;
            continue;
        }
        // a failing call on A only
        int how = in.i(0, 9), kind = in.i(0, 11);
        long fireAt = in.i(0, 60);
        bool fired = false, codeFail = false, during = true;
        std::string what;
        auto hit = [&](long &n) { if (spyInSolver && during && n++ == fireAt) { fired = true; raise(kind); } };
        long n = 0;
        int code = -in.i(1, 5);
        if (how <= 2)
        {
            what = MSG("code" << code);
            HookGuard h([&](Program &p, double *x, double *f) {
                for (int k = 0; k < p.n; k++) x[k] = in.chance(0.1) ? std::numeric_limits<double>::quiet_NaN() : in.uni(-5, 5);
                *f = in.uni(-5, 5);
                codeFail = true;
                return (nlopt_result)code;
            });
            A->optimize(x0, u0);
        }
        else if (how <= 7)
        {
            int which = in.i(0, 4);
            what = MSG("throw" << kind << " in " << (which == 0 ? "objective" : which == 1 ? "state" : which == 2 ? "output" : which == 3 ? "ineq" : "eq") << " at " << fireAt);
            if (which == 0) s.mon.obj = [&](const MatrixXd &, const MatrixXd &, const MatrixXd &, double) { hit(n); };
            if (which == 1) s.mon.state = [&](int, const VectorXd &, const VectorXd &, unsigned) { hit(n); };
            if (which == 2) s.mon.out = [&](int, const VectorXd &, const VectorXd &, unsigned) { hit(n); };
            if (which == 3) s.mon.ineq = [&](int, const MatrixXd &, const MatrixXd &, const MatrixXd &, double) { hit(n); };
            if (which == 4) s.mon.eq = [&](int, const MatrixXd &, const MatrixXd &) { hit(n); };
            try { A->optimize(x0, u0); }
            catch (...) { c.bad("exception-escapes", "exception of a callback during the solve escapes optimize: " + what + ", " + s.s()); }
            s.mon.clear();
        }
        else
        {   // after the solver stopped: the feasibility of the solution is determined and its outputs are evaluated
            bool done = false;
            std::vector<int> ws;
            if (s.hasIneq) ws.push_back(3);
            if (s.hasEq) ws.push_back(4);
            if (s.hasOut) { ws.push_back(2); ws.push_back(2); }
            ws.push_back(in.i(0, 1));
            int which = in.pick(ws);
            fireAt = which == 2 ? in.i(0, 2 * (d.ph + 1)) : in.chance(0.9) ? 0 : in.i(0, 3);
            what = MSG("throw" << kind << " in " << (which == 0 ? "objective" : which == 1 ? "state" : which == 2 ? "output" : which == 3 ? "ineq" : "eq") << " at " << fireAt << " after the solver");
            auto late = [&] { if (done && n++ == fireAt) { fired = true; c.count(which == 2 ? "late_output_exceptions" : "late_exceptions"); raise(kind); } };
            if (which == 0) s.mon.obj = [&](const MatrixXd &, const MatrixXd &, const MatrixXd &, double) { late(); };
            if (which == 1) s.mon.state = [&](int, const VectorXd &, const VectorXd &, unsigned) { late(); };
            if (which == 2) s.mon.out = [&](int, const VectorXd &, const VectorXd &, unsigned) { late(); };
            if (which == 3) s.mon.ineq = [&](int, const MatrixXd &, const MatrixXd &, const MatrixXd &, double) { late(); };
            if (which == 4) s.mon.eq = [&](int, const MatrixXd &, const MatrixXd &) { late(); };
            HookGuard h([&](Program &p, double *x, double *f) { auto r = p.real(x, f); done = r > 0; return r; });
            try { A->optimize(x0, u0); }
            catch (...) { c.bad("exception-escapes", "exception of a callback after the solver finished escapes optimize: " + what + ", " + s.s()); }
            s.mon.clear();
        }
        if (!c.ok()) return;
        Res r = A->last();
        Seq q = A->seq();
        if (!fired && !codeFail)
        {   // the fault was not reached: B has to see the same call
            B->optimize(x0, u0);
            Res rb = B->last();
            EXPECT(sameRes(r, rb) && sameSeq(q, B->seq()), "result-after-failure", "after " << log << " the result is {" << str(r) << "} instead of {" << str(rb) << "}, " << s.s());
            if (r.status != ST_ERROR) lastCmd = r.cmd;
            log += "missed ";
            c.count("faults_not_reached");
            if (!c.ok()) return;
            continue;
        }
        injected++;
        log += "[" + what + "] ";
        c.count(codeFail ? "failure_codes" : how <= 7 ? "callback_exceptions_in_solver" : "callback_exceptions_in_feasibility");
        EXPECT(r.status == ST_ERROR, "failed-status", "status " << r.status << " instead of ERROR after " << log << ", " << s.s());
        EXPECT(r.solver_status == -1, "failed-solver-status", "solver_status " << r.solver_status << " instead of -1 after " << log << ", " << s.s());
        EXPECT(r.cost == INF, "failed-cost", "cost " << r.cost << " instead of infinity after " << log << ", " << s.s());
        EXPECT(!r.feasible, "failed-feasible", "is_feasible after " << log << ", " << s.s());
        EXPECT(!r.msg.empty(), "failed-message", "no message after " << log << ", " << s.s());
        EXPECT(identical(r.cmd, lastCmd), "failed-cmd", "command " << ::str(r.cmd.transpose()) << " instead of the previous " << ::str(lastCmd.transpose()) << " after " << log << ", " << s.s());
        EXPECT(identical(q.state, MatrixXd::Zero(d.ph + 1, d.nx)) && identical(q.input, MatrixXd::Zero(d.ph + 1, d.nu)) && identical(q.output, MatrixXd::Zero(d.ph + 1, d.ny)), "failed-sequence", "the sequence is not zero after " << log << ": " << ::str(q.state) << ", " << s.s());
        if (!c.ok()) return;
    }
    c.nontrivial = injected > 0;
    c.obs((int)injected);
    c.note(MSG("C06 " << s.s() << " history: " << log));
}

// ------------------------------------------------------------------ C07
CASE(C07)
{
    ScnOpt o;
    o.pScale = 0.2;
    o.maxph = 4;
    auto sp = randScn(c.rng, o);
    Scn &s = *sp;
    auto ctl = s.make();
    NLPar par;
    par.maxeval = c.rng.i(2, 40);
    par.warm = c.rng.chance(0.3);
    ctl->setParams(par);
    int calls = c.rng.hist(4, 14);
    std::map<int, int> want; int total = 0;
    std::string log;
    auto checkStats = [&](const char *when) {
        Stats st = ctl->stats();
        EXPECT(st.n == total, "stats-count", st.n << " solutions counted instead of " << total << " " << when << " after " << log);
        for (int k = 0; k <= 4; k++)
        {
            int a = want.count(k) ? want[k] : 0, b = st.perStatus.count(k) ? st.perStatus[k] : 0;
            EXPECT(a == b, "stats-status", b << " solutions with status " << k << " counted instead of " << a << " " << when << " after " << log);
        }
        for (auto &q : st.perStatus) EXPECT(q.first >= 0 && q.first <= 4, "stats-status", "unknown status " << q.first << " counted");
        if (total > 0) EXPECT(st.mn <= st.avg * (1 + 1e-12) && st.avg <= st.mx * (1 + 1e-12) && st.mn >= 0, "stats-values", "min/avg/max inconsistent");
    };
    checkStats("before any solve");
    for (int t = 0; t < calls; t++)
    {
        VectorXd x0 = s.randX0(c.rng), u0 = s.randU0(c.rng);
        bool real = c.rng.chance(0.2);
        int code = real ? 99 : c.rng.i(-5, 7);
        if (c.rng.chance(0.1))
        {
            Res a = ctl->last(); Seq qa = ctl->seq();
            ctl->resetStats();
            Res b = ctl->last(); Seq qb = ctl->seq();
            EXPECT(sameRes(a, b) && sameSeq(qa, qb), "reset-affects-controller", "resetting the statistics changes the last result");
            want.clear(); total = 0;
            log += "reset ";
            checkStats("after reset");
        }
        HookGuard h([&](Program &p, double *x, double *f) {
            if (real) { code = p.real(x, f); return (nlopt_result)code; }
            Decode dec(p, s, x0);
            if (dec.ok && code >= 0) { VectorXd v = dec.toV(randPoint(c.rng, s, x0, 0)); for (int k = 0; k < p.n; k++) x[k] = v(k); *f = p.objective(v); }
            return (nlopt_result)code;
        });
        Res r = ctl->optimize(x0, u0);
        log += MSG(code << (real ? "r " : " "));
        int st = code < 0 ? ST_ERROR : code == 5 || code == 6 ? ST_MAXIT : code >= 1 && code <= 4 ? ST_SUCCESS : ST_UNKNOWN;
        EXPECT(r.status == st, "status", "status " << r.status << " for solver code " << code << " instead of " << st << ", " << s.s());
        EXPECT(r.solver_status == (code < 0 ? -1 : code), "solver-status", "solver_status " << r.solver_status << " for solver code " << code << ", " << s.s());
        want[st]++; total++;
        if (c.rng.chance(0.7)) checkStats("");
        c.obs(code);
        c.count(MSG("code_" << code));
    }
    checkStats("at the end");
    c.nontrivial = true;
    c.note(MSG("C07 codes: " << log));
}

// ------------------------------------------------------------------ C08
CASE(C08)
{
    ScnOpt o; o.pLarge = 0.02;
    o.lq = c.rng.chance(0.5);
    o.pScale = 0;
    o.mag = c.rng.chance(0.3) ? 20 : 1;
    o.noUserEq = o.lq;
    auto sp = randScn(c.rng, o), tp = std::make_shared<Scn>(*sp);
    Scn &s = *sp, &w = *tp;              // s scaled, w not
    const Dims &d = s.d;
    if (s.lq) { s.hasIneq = w.hasIneq = false; s.tolS = w.tolS = -1; }   // optima are compared: no slack in the dynamics
    auto A = makeCtl(d, s.wantStatic), B = makeCtl(d, s.wantStatic);
    NLPar par;
    par.hard = c.rng.chance(0.6); par.maxeval = s.lq ? 2000 : 60; par.warm = c.rng.chance(0.4);
    if (s.lq) { par.rel_f = 1e-13; par.rel_x = 1e-10; }
    Bounds b; b.reset(d);
    std::string log;
    // configuration steps in random order; the scaling may be given several times, also between solves
    std::vector<int> steps;
    if (s.cont) steps.push_back(0);
    steps.push_back(1); if (s.hasOut) steps.push_back(2); steps.push_back(3); if (s.hasIneq) steps.push_back(4); if (s.hasEq) steps.push_back(5);
    steps.push_back(6); steps.push_back(7); steps.push_back(8); steps.push_back(9);
    if (c.rng.chance(0.5)) steps.push_back(8);
    if (c.rng.chance(0.5)) steps.push_back(9);
    c.rng.shuffle(steps);
    auto factor = [&] { return !s.lq && c.rng.chance(0.1) ? c.rng.logu(1e-5, 1e5) : c.rng.logu(0.05, 20); };
    auto scaleX = [&] { for (int j = 0; j < d.nx; j++) s.sx(j) = s.mx(j) * factor(); A->setStateScale(s.sx); log += "sx=" + ::str(s.sx.transpose()) + " "; };
    auto scaleU = [&] { for (int j = 0; j < d.nu; j++) s.su(j) = s.mu(j) * factor(); A->setInputScale(s.su); log += "su=" + ::str(s.su.transpose()) + " "; };
    auto boundCall = [&] {
        bool st = c.rng.chance(0.5);
        int H = st ? d.ph : d.ch, n = st ? d.nx : d.nu;
        const VectorXd &m = st ? s.mx : s.mu;
        int a = -1, e = -1;
        if (c.rng.chance(0.7)) { a = c.rng.i(0, H - 1); e = c.rng.i(a + 1, H); }
        VectorXd lo(n), up(n);
        for (int j = 0; j < n; j++) { lo(j) = c.rng.chance(0.3) ? -INF : -c.rng.uni(0.3, 3) * m(j); up(j) = c.rng.chance(0.3) ? INF : c.rng.uni(0.3, 3) * m(j); }
        // states: wide bounds when the problem has to stay feasible
        if (st && s.lq) { lo *= 1e3; up *= 1e3; }
        for (auto *q : {A.get(), B.get()}) { if (st) q->stateBounds(lo, up, a, e); else q->inputBounds(lo, up, a, e); }
        for (int k = a < 0 ? 0 : a; k < (e < 0 ? H : e); k++) { (st ? b.xl : b.ul).col(k) = lo; (st ? b.xu : b.uu).col(k) = up; }
        log += st ? "bx " : "bu ";
    };
    for (int st : steps)
    {
        if (st == 0) { A->setTs(s.Ts); B->setTs(s.Ts); log += "Ts "; }
        if (st == 1) { A->setState(s.stateF(), s.tolS); B->setState(w.stateF(), s.tolS); log += "f "; }
        if (st == 2) { A->setOutput(s.outF()); B->setOutput(w.outF()); log += "h "; }
        if (st == 3) { A->setObjective(s.objF()); B->setObjective(w.objF()); log += "J "; }
        if (st == 4) { A->setIneq(s.ineqF(), s.tolI); B->setIneq(w.ineqF(), s.tolI); log += "g "; }
        if (st == 5) { A->setEq(s.eqF(), s.tolE); B->setEq(w.eqF(), s.tolE); log += "e "; }
        if (st == 6) { A->setParams(par); B->setParams(par); log += "p "; }
        if (st == 7) { int n = c.rng.i(0, 3); for (int k = 0; k < n; k++) boundCall(); }
        if (st == 8) scaleX();
        if (st == 9) scaleU();
    }
    int calls = c.rng.i(1, 3);
    Seq prev; bool havePrev = false;
    for (int t = 0; t < calls; t++)
    {
        if (t > 0)
        {
            if (c.rng.chance(0.4)) scaleX();
            if (c.rng.chance(0.4)) scaleU();
            if (c.rng.chance(0.4)) boundCall();
        }
        VectorXd x0 = s.randX0(c.rng), u0 = s.randU0(c.rng);
        Rng in(c.rng.next());
        std::vector<Point> pts;
        for (int z = 0; z < 2; z++) pts.push_back(randPoint(in, s, x0));
        std::vector<double> JB; std::vector<VectorXd> GB, EB;
        bool seenA = false, seenB = false; int codeA = 0, codeB = 0;
        Res rb, ra;
        {
            HookGuard h([&](Program &p, double *x, double *f) {
                seenB = true;
                Decode dec(p, w, x0);
                if (!dec.ok) { c.bad("layout", dec.why + " (unscaled) " + w.s()); return NLOPT_FAILURE; }
                for (auto &q : pts) { VectorXd v = dec.toV(q); JB.push_back(p.objective(v)); GB.push_back(sorted(p.constraints(false, v))); EB.push_back(p.constraints(true, v)); }
                codeB = p.real(x, f);
                return (nlopt_result)codeB;
            });
            rb = B->optimize(x0, u0);
        }
        if (!c.ok()) return;
        {
            HookGuard h([&](Program &p, double *x, double *f) {
                seenA = true;
                Decode dec(p, s, x0);
                if (!dec.ok) { c.bad("layout", dec.why + " after " + log + " " + s.s()); return NLOPT_FAILURE; }
                compareBounds(c, p, dec, s, b, log);
                for (auto &q : dec.vars)
                {
                    double sc = q.kind == 0 ? s.sx(q.j) : q.kind == 1 ? s.su(q.j) : q.scale;
                    EXPECT(near(q.scale / sc, 1, 1e-9), "scale", (q.kind ? "input " : "state ") << q.j << " is " << q.scale << " times the solver's variable, its scaling is " << sc << " after " << log << " " << s.s());
                    c.count("scales_compared");
                }
                Point g = physicalGuess(p, dec), want = expectedGuess(s, b, x0, u0, par.warm && havePrev ? &prev : nullptr);
                EXPECT(nearPoint(g, want, 1e-9, false), "guess", "the solver starts from " << str(g) << " instead of " << str(want) << " after " << log << " " << s.s());
                for (size_t z = 0; z < pts.size(); z++)
                {
                    VectorXd v = dec.toV(pts[z]);
                    stir(p, dec, v, in);
                    double J = p.objective(v);
                    EXPECT(near(J, JB[z], 1e-9), "objective", "cost of the same trajectory is " << J << " scaled and " << JB[z] << " unscaled after " << log << " " << s.s());
                    VectorXd G = sorted(p.constraints(false, v));
                    EXPECT(near(G, GB[z], 1e-9), "inequalities", "inequalities of the same trajectory are " << ::str(G.transpose()) << " scaled and " << ::str(GB[z].transpose()) << " unscaled after " << log << " " << s.s());
                    VectorXd E = p.constraints(true, v);
                    MatrixXd D = s.defects(pts[z].X, pts[z].U);
                    std::vector<double> we;
                    double big = 1;
                    for (int k = 0; k < d.ph; k++) for (int j = 0; j < d.nx; j++) { we.push_back(std::fabs(D(k, j)) / s.sx(j)); big = std::max({big, std::fabs(pts[z].X(k, j)) / s.sx(j), std::fabs(pts[z].X(k + 1, j)) / s.sx(j)}); }
                    if (s.hasEq) { VectorXd e = s.eqs(pts[z].X, pts[z].U); for (int k = 0; k < e.size(); k++) we.push_back(std::fabs(e(k))); }
                    VectorXd W = sorted(Eigen::Map<VectorXd>(we.data(), we.size())), EE = sorted(E.cwiseAbs());
                    EXPECT(W.size() == EE.size() && (W - EE).cwiseAbs().maxCoeff() <= 1e-9 * big, "equalities", "equalities of the same trajectory have magnitudes " << ::str(EE.transpose()) << " instead of " << ::str(W.transpose()) << " after " << log << " " << s.s());
                    c.count("trajectories_compared");
                }
                codeA = p.real(x, f);
                return (nlopt_result)codeA;
            });
            ra = A->optimize(x0, u0);
        }
        if (!seenA || !seenB) { c.bad("no-solver-call", "optimize did not run the solver"); return; }
        if (!c.ok()) return;
        Seq sa = A->seq();
        if (ra.status != ST_ERROR)
        {
            EXPECT(near(sa.state.row(0), x0.transpose(), 1e-12), "first-state", "sequence starts at " << ::str(sa.state.row(0)) << " not x0 " << ::str(x0.transpose()) << ", " << s.s());
            EXPECT(near(ra.cost, s.cost(sa.state, sa.output, sa.input, par.hard ? 0 : 0) , 1e-8) || !par.hard, "cost", "cost " << ra.cost << " is not the cost of the sequence in physical units, " << s.s());
            prev = sa; havePrev = true;
        }
        auto conv = [](int k) { return k >= 1 && k <= 4; };
        if (s.lq && conv(codeA) && conv(codeB))
        {
            c.count("converged_pairs");
            double dJ = std::fabs(ra.cost - rb.cost) / std::max(1.0, std::fabs(rb.cost));
            VectorXd dc = (ra.cmd - rb.cmd).cwiseAbs().cwiseQuotient(s.mu);
            EXPECT(dJ < 1e-3 && dc.maxCoeff() < 0.05, "optimum", "with scaling the command is " << ::str(ra.cmd.transpose()) << " (cost " << ra.cost << "), without " << ::str(rb.cmd.transpose()) << " (cost " << rb.cost << ") after " << log << " " << s.s());
            c.obs(dJ);
        }
        c.obs(ra.cost);
        c.nontrivial = true;
    }
    c.note(MSG("C08 " << s.s() << " settings: " << log));
}

// ------------------------------------------------------------------ C09
CASE(C09)
{
    ScnOpt o; o.pLarge = 0.02;
    o.pScale = 0.3;
    o.mag = c.rng.chance(0.2) ? 20 : 1;
    auto sp = randScn(c.rng, o);
    Scn &s = *sp;
    const Dims &d = s.d;
    auto ctl = s.make();
    NLPar par; par.maxeval = c.rng.i(2, 15);
    Bounds b; b.reset(d);
    bool setPar = false;
    std::string log;
    Seq prev; bool havePrev = false; double prevSlack = 0, slack = 0;
    int calls = c.rng.hist(3, 7);
    bool mostlyCold = c.rng.chance(0.4);
    for (int t = 0; t < calls; t++)
    {
        if (c.rng.chance(t == 0 ? 0.7 : 0.35)) { par.warm = c.rng.chance(mostlyCold ? 0.2 : 0.7); par.hard = c.rng.chance(0.5); par.maxeval = c.rng.i(2, 15); ctl->setParams(par); setPar = true; log += MSG("par(warm=" << par.warm << " hard=" << par.hard << ") "); }
        if (c.rng.chance(0.3)) randomBoundCall(c, s, *ctl, b, VectorXd(), log);
        if (c.rng.chance(0.15)) { for (int j = 0; j < d.nx; j++) s.sx(j) = c.rng.logu(0.05, 20); s.useScaleX = true; ctl->setStateScale(s.sx); log += "sx "; }
        if (c.rng.chance(0.15)) { for (int j = 0; j < d.nu; j++) s.su(j) = c.rng.logu(0.05, 20); s.useScaleU = true; ctl->setInputScale(s.su); log += "su "; }
        c.violations.erase(std::remove_if(c.violations.begin(), c.violations.end(), [](auto &v) { return v.first == "accepted-invalid" || v.first == "refused-valid"; }), c.violations.end());   // C04's business
        VectorXd x0 = 1.5 * s.randX0(c.rng), u0 = 1.5 * s.randU0(c.rng);
        Rng in(c.rng.next());
        int mode = in.i(0, 9);   // 0-4 real, 5-7 random stop point, 8-9 failure
        bool seen = false; int code = 0;
        bool warm = setPar && par.warm;
        bool useWarm = warm && havePrev;
        {
            HookGuard h([&](Program &p, double *x, double *f) {
                seen = true;
                Decode dec(p, s, x0);
                if (!dec.ok) { c.bad("layout", dec.why + " " + s.s()); return NLOPT_FAILURE; }
                Point g = physicalGuess(p, dec), want = expectedGuess(s, b, x0, u0, useWarm ? &prev : nullptr, useWarm && !par.hard ? prevSlack : 0);
                EXPECT(nearPoint(g, want, 1e-9, true), useWarm ? "warm-guess" : havePrev ? "cold-guess" : "first-guess", "call " << t << ": the solver starts from " << str(g) << " instead of " << str(want) << " after " << log << ", " << s.s());
                c.count(useWarm ? "warm_guesses" : "cold_guesses");
                c.obs(p.guess);
                if (mode <= 4) code = p.real(x, f);
                else if (mode <= 7)
                {
                    Point q = randPoint(in, s, x0, par.hard || !setPar ? 0 : 1);
                    // also the box has to hold: the solver never leaves it
                    for (int k = 1; k <= d.ph; k++) for (int j = 0; j < d.nx; j++) q.X(k, j) = clampd(q.X(k, j), b.xl(j, k - 1), b.xu(j, k - 1));
                    for (int k = 0; k <= d.ph; k++) for (int j = 0; j < d.nu; j++) q.U(k, j) = clampd(q.U(k, j), b.ul(j, std::min(k, d.ch - 1)), b.uu(j, std::min(k, d.ch - 1)));
                    VectorXd v = dec.toV(q);
                    for (int k = 0; k < p.n; k++) x[k] = v(k);
                    *f = p.objective(v);
                    code = in.i(1, 6);
                }
                else
                {
                    for (int k = 0; k < p.n; k++) x[k] = in.uni(-9, 9);
                    code = -in.i(1, 5);
                }
                slack = dec.at(Eigen::Map<VectorXd>(x, p.n)).e;
                return (nlopt_result)code;
            });
            Res r = ctl->optimize(x0, u0);
            if (!seen) { c.bad("no-solver-call", "optimize did not run the solver"); return; }
            if (!c.ok()) return;
            if (code > 0 && r.status != ST_ERROR) { prev = ctl->seq(); havePrev = true; prevSlack = slack; }
            log += code > 0 ? "ok " : "fail ";
        }
        // memoryless: a new controller with the same configuration gives the same result
        if (!warm && mode <= 4 && c.rng.chance(0.6))
        {
            auto fresh = s.make();
            if (setPar) fresh->setParams(par);
            fresh->stateBoundsMat(b.xl, b.xu);
            fresh->inputBoundsMat(b.ul, b.uu);
            Res a = ctl->last(), r = fresh->optimize(x0, u0);
            if (a.status == ST_ERROR) a.cmd = r.cmd;    // the command retained by a failed solve is history by design
            EXPECT(sameRes(a, r) && sameSeq(ctl->seq(), fresh->seq()), "history-dependent", "without warm start the result is {" << str(a) << "} after " << log << " and {" << str(r) << "} for a new controller, " << s.s());
            c.count("fresh_controllers_compared");
        }
        if (t > 0) c.nontrivial = true;
    }
    c.note(MSG("C09 " << s.s() << " history: " << log));
}
