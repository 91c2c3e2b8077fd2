// Monitors of the linear controller: C25 C27 C28 C29
#include "lm_scn.hpp"
#include "qp.hpp"

static std::string where(const LCfg &g, bool st, const std::string &log = "") { return MSG(" (" << (st ? "static " : "dynamic ") << g.d.s() << (log.empty() ? "" : " after ") << log << ")"); }
static VectorXd vec(const std::vector<double> &v) { return Eigen::Map<const VectorXd>(v.data(), (int)v.size()); }

// what the solver is made to do in one solve
struct Answer
{
    int setup = 0, code = 0, status = OSQP_SOLVED;
    bool finite = true, natural = false;
    VectorXd x, y; double obj = 0;
    bool delivered() const { return setup == 0 && code == 0 && finite; }
    std::string s() const { return setup ? MSG("set-up error " << setup) : code ? MSG("solve error " << code << " status " << status) : MSG("status " << status << (finite ? "" : " without finite solution")); }
};
static int mapStatus(int s)
{
    switch (s)
    {
    case OSQP_SOLVED: case OSQP_SOLVED_INACCURATE: return LS_SUCCESS;
    case OSQP_MAX_ITER_REACHED: case OSQP_TIME_LIMIT_REACHED: return LS_MAX_ITERATION;
    case OSQP_PRIMAL_INFEASIBLE: case OSQP_DUAL_INFEASIBLE: case OSQP_PRIMAL_INFEASIBLE_INACCURATE: case OSQP_DUAL_INFEASIBLE_INACCURATE: return LS_INFEASIBLE;
    case OSQP_SIGINT: case OSQP_NON_CVX: return LS_ERROR;
    }
    return LS_UNKNOWN;
}
static Answer randAnswer(Rng &r, double pFail)
{
    Answer a;
    if (!r.chance(pFail)) { a.status = r.pick(std::vector<int>{OSQP_SOLVED, OSQP_SOLVED, OSQP_SOLVED_INACCURATE, OSQP_MAX_ITER_REACHED, OSQP_TIME_LIMIT_REACHED, OSQP_UNSOLVED, 77}); return a; }
    switch (r.i(0, 4))
    {
    case 0: a.setup = r.pick(std::vector<int>{1, 2, 6}); break;
    case 1: a.setup = r.pick(std::vector<int>{3, 4, 5}); break;
    case 2: a.code = r.i(1, 7); a.status = r.pick(std::vector<int>{OSQP_SIGINT, OSQP_UNSOLVED}); break;
    case 3: a.finite = false; a.status = r.pick(std::vector<int>{OSQP_PRIMAL_INFEASIBLE, OSQP_DUAL_INFEASIBLE, OSQP_PRIMAL_INFEASIBLE_INACCURATE, OSQP_DUAL_INFEASIBLE_INACCURATE, OSQP_NON_CVX, OSQP_SIGINT}); break;
    default: a.finite = false; a.status = r.pick(std::vector<int>{OSQP_SOLVED, OSQP_MAX_ITER_REACHED, OSQP_TIME_LIMIT_REACHED, OSQP_SOLVED_INACCURATE}); break;
    }
    return a;
}
// installs the answer; x,y are drawn when the program's size is known
struct Play
{
    QpHook hook;
    Play(Answer &a, Rng &r) : hook([&a](QpCall &) { return a.setup; }, [&a, &r](QpCall &k)
    {
        if (a.natural) return -1;
        if (a.x.size() != k.n) { a.x = r.vec(k.n, -3, 3); a.y = r.vec(k.m, -3, 3); a.obj = r.uni(-50, 50); if (r.chance(0.1)) a.x.setZero(); }
        k.x = a.x; k.y = a.y; k.obj = a.obj; k.status = a.status;
        if (!a.finite)
        {
            if (a.status < 0 && a.status != OSQP_MAX_ITER_REACHED && a.status != OSQP_TIME_LIMIT_REACHED || a.status == 3 || a.status == 4) { k.x.setConstant(OSQP_NAN); k.y.setConstant(OSQP_NAN); k.obj = a.status == OSQP_DUAL_INFEASIBLE ? -OSQP_INFTY : OSQP_INFTY; }
            else k.x(r.i(0, k.n - 1)) = r.pick(std::vector<double>{OSQP_NAN, INF, -INF});
        }
        if (a.code) { k.x.setZero(); k.y.setZero(); k.obj = 0; }
        return a.code;
    }) {}
};
static void checkDecoded(Ctx &c, const LCfg &g, const LRes &r, const LSeq &e, const VectorXd &x, double obj, int status, const std::string &at)
{
    const LDims &d = g.d;
    if (e.state.rows() != d.ph + 1 || e.input.rows() != d.ph + 1 || e.output.rows() != d.ph + 1) { c.bad("sequence-size", "the sequence has the wrong number of rows" + at); return; }
    for (int i = 0; i <= d.ph; i++)
    {
        VectorXd X = x.segment(i * (d.nx + d.nu), d.nx), U = x.segment(std::min(i + 1, d.ph) * (d.nx + d.nu) + d.nx, d.nu);
        VectorXd Y = g.C * X + g.Dd * g.dist.col(std::max(0, i - 1));
        EXPECT(identical(MatrixXd(e.state.row(i)), MatrixXd(X.transpose())), "sequence-state", "row " << i << " of the states is " << str(e.state.row(i)) << ", the solution holds " << str(X.transpose()) << at);
        EXPECT(identical(MatrixXd(e.input.row(i)), MatrixXd(U.transpose())), "sequence-input", "row " << i << " of the inputs is " << str(e.input.row(i)) << ", the solution holds " << str(U.transpose()) << at);
        EXPECT(near(MatrixXd(e.output.row(i)), MatrixXd(Y.transpose()), 1e-11), "sequence-output", "row " << i << " of the outputs is " << str(e.output.row(i)) << " instead of " << str(Y.transpose()) << at);
    }
    EXPECT(identical(r.cmd, VectorXd(e.input.row(0).transpose())), "command", "the command " << str(r.cmd.transpose()) << " is not the first input " << str(e.input.row(0)) << at);
    EXPECT(r.cost == obj, "cost", "cost " << r.cost << " instead of the solver's " << obj << at);
    EXPECT(r.solver_status == status, "solver-status", "solver_status " << r.solver_status << " instead of " << status << at);
    EXPECT(r.status == mapStatus(status), "status", "status " << r.status << " for solver status " << status << at);
    bool f = status == OSQP_SOLVED || status == OSQP_SOLVED_INACCURATE || status == OSQP_MAX_ITER_REACHED;
    EXPECT(r.feasible == f, "feasible", "is_feasible " << r.feasible << " for solver status " << status << at);
    c.count("sequences_decoded");
}
static bool sameRes(const LRes &a, const LRes &b) { return a.solver_status == b.solver_status && a.status == b.status && a.feasible == b.feasible && identical(a.cost, b.cost) && identical(a.cmd, b.cmd) && a.msg == b.msg; }
static bool sameCall(const QpCall &a, const QpCall &b) { return identical(a.P, b.P) && identical(a.A, b.A) && identical(a.q, b.q) && identical(a.l, b.l) && identical(a.u, b.u); }

static LPar randPar(Rng &r)
{
    LPar p;
    p.alpha = r.uni(0.001, 1.999); p.rho = r.chance(0.2) ? r.logu(1e-12, 1e6) : r.logu(1e-8, 10); p.eps_rel = r.logu(1e-10, 1e-1); p.eps_abs = r.logu(1e-10, 1e-1); p.eps_prim = r.logu(1e-8, 1e-1); p.eps_dual = r.logu(1e-8, 1e-1);
    p.verbose = r.chance(0.5); p.adaptive = r.chance(0.5); p.polish = r.chance(0.5); p.warm = r.chance(0.5); p.maxit = r.chance(0.3) ? (int)r.logu(1, 2e9) : r.i(1, 5000); p.time_limit = r.chance(0.5) ? 0 : r.logu(1e-6, 1e5);
    return p;
}
static LCfg randProblem(Ctx &c, const LDims &d, const LRand &o, VectorXd &x0, VectorXd &u0, double p)
{
    LCfg g = randCfg(c.rng, d, o);
    x0 = c.rng.vec(d.nx, -1, 1); u0 = c.rng.vec(d.nu);
    if (p > 0) randLimits(c.rng, g, x0, u0, p, false);
    return g;
}

// ------------------------------------------------------------------ C25
CASE(C25)
{
    LRand o; o.pLarge = 0.02; o.convex = true; o.maxph = 5;
    LDims d = randLDims(c.rng, o);
    bool st = c.rng.chance(0.7);
    VectorXd x0, u0;
    LCfg g = randProblem(c, d, o, x0, u0, 0.3);
    auto ctl = makeLin(d, st), twin = makeLin(d, st);      // the twin never sees the failing calls
    applyCfg(*ctl, g, nullptr, true); applyCfg(*twin, g, nullptr, true);
    LPar par; par.warm = c.rng.chance(0.5);
    ctl->params(par); twin->params(par);
    VectorXd cmd = VectorXd::Zero(d.nu);
    std::string log;
    int calls = c.rng.hist(1, 7);
    double pFail = c.rng.pick(std::vector<double>{0.2, 0.5, 0.8});
    bool failedBefore = false, succeeded = false;
    for (int k = 0; k < calls && c.ok(); k++)
    {
        x0 = c.rng.vec(d.nx); u0 = c.rng.vec(d.nu);
        if (d.ndu && c.rng.chance(0.3)) { g.dist = c.rng.mat(d.ndu, d.ph); ctl->exoMat(g.dist); twin->exoMat(g.dist); }
        int kind = c.rng.i(0, 9);
        if (kind == 0 && d.ph >= 1)
        {   // limits that contradict themselves: refused by the solver's set-up
            int z = c.rng.i(0, d.ph - 1);
            VectorXd a = VectorXd::Constant(d.nx, 1.0);
            ctl->stateBounds(a, -a, z, z + 1);
            qp.clear();
            LRes r = ctl->optimize(x0, u0);
            LSeq e = ctl->seq();
            ctl->stateBounds(g.xl.col(z), g.xu.col(z), z, z + 1);
            log += MSG("crossed limits; ");
            if (!qp.log.empty() && qp.log[0].setupCode == 0) c.bad("harness", "crossed limits accepted" + where(g, st, log));
            EXPECT(r.status == LS_ERROR && !r.feasible && identical(r.cmd, cmd) && e.state.isZero(0) && e.input.isZero(0) && e.output.isZero(0), "failure-result", "after crossed limits the result is " << show(r) << " (previous command " << str(cmd.transpose()) << ")" << where(g, st, log));
            failedBefore = true;
            c.count("crossed_limits");
            continue;
        }
        if (kind == 1)
        {   // infeasible problem, decided by the exact solver
            int z = d.ph - 1;
            VectorXd far = VectorXd::Constant(d.nx, 1e6);
            LCfg h = g; h.xl.col(z) = far; h.xu.col(z) = far * 2; VectorXd lim = VectorXd::Constant(d.nu, 1.0);
            ctl->stateBounds(far, far * 2, z, z + 1); ctl->inputBounds(-lim, lim, -1, -1);
            qp.clear();
            LRes r = ctl->optimize(x0 * 0.1, u0 * 0.1);
            LSeq e = ctl->seq();
            ctl->stateBounds(g.xl.col(z), g.xu.col(z), z, z + 1); ctl->inputBoundsMat(g.ul.leftCols(d.ch), g.uu.leftCols(d.ch));
            log += "infeasible problem; ";
            if (qp.log.size() != 1) { c.bad("no-solver-call", "the solver is not called" + where(g, st, log)); return; }
            if (qp.log[0].status == OSQP_PRIMAL_INFEASIBLE)
            {
                EXPECT(r.status == LS_INFEASIBLE && !r.feasible && identical(r.cmd, cmd) && e.state.isZero(0) && e.input.isZero(0) && e.output.isZero(0), "infeasible-result", "an infeasible problem returns " << show(r) << " (previous command " << str(cmd.transpose()) << ")" << where(g, st, log));
                failedBefore = true;
                c.count("infeasible_problems");
            }
            else if (qp.log[0].status == OSQP_SOLVED || qp.log[0].status == OSQP_MAX_ITER_REACHED) { log += "(undecided) "; return; }
            continue;
        }
        Answer a = randAnswer(c.rng, pFail);
        qp.clear();
        LRes r;
        { Play p(a, c.rng); r = ctl->optimize(x0, u0); }
        LSeq e = ctl->seq();
        auto log1 = qp.log;
        auto err = qp.errors;
        log += a.s() + "; ";
        std::string at = where(g, st, log);
        if (log1.size() != 1) { c.bad("no-solver-call", MSG("the solver is set up " << log1.size() << " times" << at)); return; }
        EXPECT(err.empty(), "protocol", err[0] << at);
        EXPECT(sameRes(r, ctl->last()), "last-result", "optimize returned " << show(r) << ", getLastResult " << show(ctl->last()) << at);
        if (a.delivered())
        {
            checkDecoded(c, g, r, e, a.x, a.obj, a.status, at);
            // no trace of the failures before
            qp.clear();
            Answer b = a;
            LRes r2;
            { Play p(b, c.rng); r2 = twin->optimize(x0, u0); }
            if (qp.log.size() == 1 && failedBefore)
            {
                EXPECT(sameCall(log1[0], qp.log[0]), "failure-trace-program", "after failures the solver receives another program" << at);
                EXPECT(log1[0].warmUsed == qp.log[0].warmUsed && log1[0].warm.size() == qp.log[0].warm.size(), "failure-trace-warm", "after failures the warm start differs" << at);
                for (size_t z = 0; z < log1[0].warm.size() && z < qp.log[0].warm.size(); z++) EXPECT(identical(log1[0].warm[z].first, qp.log[0].warm[z].first) && identical(log1[0].warm[z].second, qp.log[0].warm[z].second), "failure-trace-warm", "after failures the solver is warm started elsewhere" << at);
                EXPECT(sameRes(r, r2), "failure-trace-result", "after failures the result is " << show(r) << " instead of " << show(r2) << at);
                c.count("solves_after_failure_compared");
            }
            cmd = r.cmd;
            succeeded = true;
            c.count(MSG("status_" << a.status));
        }
        else
        {
            int want = a.setup || a.code ? LS_ERROR : mapStatus(a.status);
            if (want == LS_SUCCESS) EXPECT(r.status != LS_SUCCESS, "failure-status", "no finite solution, yet status " << r.status << at);
            else EXPECT(r.status == want, "failure-status", "status " << r.status << " instead of " << want << at);
            EXPECT(!r.feasible, "failure-feasible", "is_feasible without a solution" << at);
            EXPECT(identical(r.cmd, cmd), "failure-command", "command " << str(r.cmd.transpose()) << " instead of the previous one " << str(cmd.transpose()) << at);
            EXPECT(e.state.isZero(0) && e.input.isZero(0) && e.output.isZero(0) && e.state.rows() == d.ph + 1, "failure-sequence", "the sequence is not zero" << at);
            failedBefore = true;
            c.count(a.setup ? "setup_errors" : a.code ? "solve_errors" : "no_finite_solution");
        }
        c.obs(r.cost); c.obs(r.cmd);
    }
    c.nontrivial = succeeded;
    c.note(MSG("C25 " << d.s() << (st ? " static: " : " dynamic: ") << log));
}

// ------------------------------------------------------------------ C27
CASE(C27)
{
    LRand o; o.convex = true; o.maxph = 4;
    LDims d = randLDims(c.rng, o);
    bool st = c.rng.chance(0.7);
    VectorXd x0, u0;
    LCfg g = randProblem(c, d, o, x0, u0, 0.2);
    auto ctl = makeLin(d, st);
    if (c.rng.chance(0.2)) { EXPECT(ctl->warmX().empty() && ctl->warmY().empty(), "early-vectors", "warm-start vectors exist before any solve"); }
    applyCfg(*ctl, g, nullptr, true);
    LPar par; bool parSet = false;
    VectorXd wx, wy; bool have = false;
    std::string log;
    int ops = c.rng.hist(3, 14);
    int m = -1, n = -1;
    auto expectVectors = [&](const std::string &at)
    {
        VectorXd a = vec(ctl->warmX()), b = vec(ctl->warmY());
        EXPECT(have ? identical(a, wx) && identical(b, wy) : a.size() == 0 && b.size() == 0, "vectors", "the readable warm-start vectors (" << a.size() << "," << b.size() << ") are not " << (have ? "those the next solve should use" : "empty") << at);
        c.count("vectors_read");
    };
    for (int k = 0; k < ops && c.ok(); k++)
    {
        std::string at = where(g, st, log);
        switch (c.rng.i(0, 7))
        {
        case 0: par.warm = !par.warm; parSet = true; ctl->params(par); log += par.warm ? "on " : "off "; break;
        case 1: par = randPar(c.rng); par.warm = c.rng.chance(0.7); parSet = true; ctl->params(par); log += par.warm ? "on(all) " : "off(all) "; break;
        case 2: expectVectors(at); log += "read "; break;
        case 3:
            if (n > 0 && c.rng.chance(0.7))
            {
                wx = c.rng.vec(n); wy = c.rng.vec(m); have = true;
                ctl->setWarm({wx.data(), wx.data() + n}, {wy.data(), wy.data() + m});
                log += "set ";
            }
            else if (c.rng.chance(0.3)) { ctl->setWarm({}, {}); have = false; log += "unset "; }
            break;
        default:
        {
            x0 = c.rng.vec(d.nx); u0 = c.rng.vec(d.nu);
            if (c.rng.chance(0.2)) { g.yR = c.rng.mat(d.ny, d.ph); ctl->refsMat(g.yR, g.uR, g.duR); log += "refs "; }
            Answer a = randAnswer(c.rng, 0.3);
            a.natural = c.rng.chance(0.15) && a.setup == 0;
            if (a.natural) a.code = 0;
            qp.clear();
            LRes r;
            { Play p(a, c.rng); r = ctl->optimize(x0, u0); }
            log += a.natural ? "solve; " : a.s() + "; ";
            at = where(g, st, log);
            if (qp.log.size() != 1) { c.bad("no-solver-call", MSG("the solver is set up " << qp.log.size() << " times" << at)); return; }
            QpCall q = qp.log[0];
            n = q.n; m = q.m;
            EXPECT(qp.errors.empty(), "protocol", qp.errors[0] << at);
            if (q.solves)
            {
                bool want = par.warm && have;
                EXPECT(q.warmUsed == want, want ? "not-warm" : "warm-unexpected", "the solver " << (q.warmUsed ? "starts from given vectors" : "starts cold") << " with warm start " << (par.warm ? "enabled" : "disabled") << (have ? "" : " and no solution yet") << at);
                if (want && q.warmUsed) { EXPECT(identical(q.warm.back().first, wx) && identical(q.warm.back().second, wy), "warm-vectors", "the solver starts from other vectors than the last solution" << at); c.count("warm_starts_compared"); }
                else c.count("cold_starts");
                EXPECT(q.calls.back() == "solve", "warm-late", "the warm start comes after the solve" << at);
                if (!par.warm) EXPECT(q.set.warm_start == 0, "setting", "the solver is set up for warm start although disabled" << at);
            }
            bool fine = q.solves && q.solveCode == 0 && q.x.allFinite();
            if (fine) { wx = q.x; wy = q.y; have = true; }
            expectVectors(at);
            // without warm start nothing of the past remains
            if (!par.warm && fine && c.rng.chance(0.5))
            {
                auto f = makeLin(d, st);
                applyCfg(*f, g, nullptr, true);
                if (parSet) f->params(par);
                QpCall mine = q;
                Answer b = a; 
                qp.clear();
                LRes r2;
                { Play p(b, c.rng); r2 = f->optimize(x0, u0); }
                if (qp.log.size() == 1)
                {
                    EXPECT(sameCall(mine, qp.log[0]), "memory-program", "a controller with a past hands over another program than a fresh one" << at);
                    EXPECT(sameRes(r, r2), "memory-result", "a controller with a past returns " << show(r) << ", a fresh one " << show(r2) << at);
                    LSeq e1 = ctl->seq(), e2 = f->seq();
                    EXPECT(identical(e1.state, e2.state) && identical(e1.input, e2.input) && identical(e1.output, e2.output), "memory-sequence", "a controller with a past returns another sequence than a fresh one" << at);
                    c.count("fresh_controllers_compared");
                }
            }
            c.nontrivial = true;
            c.obs(r.cost); c.obs(r.cmd);
        }
        }
    }
    c.note(MSG("C27 " << d.s() << (st ? " static: " : " dynamic: ") << log));
}

// ------------------------------------------------------------------ C28
static bool close(double a, double b) { return a == b || std::fabs(a - b) <= 1e-13 * std::max(std::fabs(a), std::fabs(b)) || std::fabs(a - b) < 1e-290; }
static std::string firstDiff(const MatrixXd &a, const MatrixXd &b)
{
    if (a.rows() != b.rows() || a.cols() != b.cols()) return MSG("sizes " << a.rows() << "x" << a.cols() << " and " << b.rows() << "x" << b.cols());
    for (int j = 0; j < a.cols(); j++) for (int i = 0; i < a.rows(); i++) if (!close(a(i, j), b(i, j))) return MSG("(" << i << "," << j << "): " << a(i, j) << " instead of " << b(i, j));
    return "";
}
CASE(C28)
{
    LRand o; o.pLarge = 0.02; o.maxph = 5;
    LDims d = randLDims(c.rng, o);
    bool st = c.rng.chance(0.7);
    VectorXd x0, u0;
    LCfg g = randProblem(c, d, o, x0, u0, c.rng.chance(0.5) ? 0.4 : 0);
    // unusual values: empty columns, zero matrices, very small and large coefficients
    auto spice = [&](MatrixXd &m) { for (int z = 0; z < m.size(); z++) if (c.rng.chance(0.2)) m.data()[z] = c.rng.pick(std::vector<double>{0, 1e-17, -1e-12, 1e-300, 1e8, -1e-6, 1e-5}); if (c.rng.chance(0.1)) m.setZero(); };
    if (c.rng.chance(0.5)) { spice(g.A); spice(g.B); spice(g.C); spice(g.Bd); spice(g.Dd); }
    auto spiceW = [&](MatrixXd &m) { for (int z = 0; z < m.size(); z++) if (c.rng.chance(0.2)) m.data()[z] = c.rng.pick(std::vector<double>{0, 1e-17, 1e-12, 1e6}); if (c.rng.chance(0.1)) m.setZero(); };
    if (c.rng.chance(0.5)) { spiceW(g.OW); spiceW(g.UW); spiceW(g.DW); }
    auto ctl = makeLin(d, st);
    auto ref = makeBuilder(d, st);
    auto both = [&](int k)
    {
        switch (k)
        {
        case 0: ctl->model(g.A, g.B, g.C); ref->model(g.A, g.B, g.C); break;
        case 1: if (d.ndu) { ctl->disturbances(g.Bd, g.Dd); ref->disturbances(g.Bd, g.Dd); } break;
        case 2: ctl->weightsMat(g.OW, g.UW, g.DW); ref->weightsMat(g.OW, g.UW, g.DW); break;
        case 3: ctl->stateBoundsMat(g.xl, g.xu); ref->stateBoundsMat(g.xl, g.xu); break;
        case 4: ctl->inputBoundsMat(g.ul.leftCols(d.ch), g.uu.leftCols(d.ch)); ref->inputBoundsMat(g.ul.leftCols(d.ch), g.uu.leftCols(d.ch)); break;
        case 5: ctl->outputBoundsMat(g.yl, g.yu); ref->outputBoundsMat(g.yl, g.yu); break;
        case 6: for (int z = 0; z < d.ph; z++) { ctl->scalarAt(z, g.sl(z), g.su(z), g.sX, g.sU); ref->scalarAt(z, g.sl(z), g.su(z), g.sX, g.sU); } break;
        case 7: ctl->refsMat(g.yR, g.uR, g.duR); break;
        case 8: if (d.ndu) ctl->exoMat(g.dist); break;
        }
    };
    LCfg zero(d);
    LCfg used = g;
    used.yR = zero.yR; used.uR = zero.uR; used.duR = zero.duR; used.dist = zero.dist;
    LPar par;
    std::string log;
    for (int k = 0; k < 9; k++) if (c.rng.chance(0.85)) { both(k); if (k == 7) { used.yR = g.yR; used.uR = g.uR; used.duR = g.duR; } if (k == 8) used.dist = g.dist; }
    int rounds = c.rng.hist(1, 4);
    for (int t = 0; t < rounds && c.ok(); t++)
    {
        if (c.rng.chance(0.6))
        {
            par = randPar(c.rng);
            if (c.rng.chance(0.4))
            {   // some are left at their defaults
                const LPar def;
                for (auto f : {&LPar::alpha, &LPar::rho, &LPar::eps_rel, &LPar::eps_abs, &LPar::eps_prim, &LPar::eps_dual, &LPar::time_limit}) if (c.rng.chance(0.5)) par.*f = def.*f;
                for (auto f : {&LPar::verbose, &LPar::adaptive, &LPar::polish, &LPar::warm}) if (c.rng.chance(0.5)) par.*f = def.*f;
                if (c.rng.chance(0.5)) par.maxit = def.maxit;
                c.count("settings_with_defaults");
            }
            ctl->params(par); log += "par ";
        }
        if (t > 0)
        {
            LCfg h = randProblem(c, d, o, x0, u0, 0.4);
            int k = c.rng.i(0, 8);
            switch (k) { case 0: g.A = h.A; g.B = h.B; g.C = h.C; break; case 1: g.Bd = h.Bd; g.Dd = h.Dd; break; case 2: g.OW = h.OW; g.UW = h.UW; g.DW = h.DW; break;
                         case 3: g.xl = h.xl; g.xu = h.xu; break; case 4: g.ul = h.ul; g.uu = h.uu; break; case 5: g.yl = h.yl; g.yu = h.yu; break;
                         case 6: g.sl = h.sl; g.su = h.su; g.sX = h.sX; g.sU = h.sU; break; case 7: g.yR = used.yR = h.yR; g.uR = used.uR = h.uR; g.duR = used.duR = h.duR; break; case 8: g.dist = used.dist = h.dist; break; }
            both(k);
            log += MSG("set" << k << " ");
        }
        x0 = c.rng.vec(d.nx); u0 = c.rng.vec(d.nu);
        if (c.rng.chance(0.1)) x0.setZero();
        QpCall want = ref->get(x0, u0, used.yR, used.uR, used.duR, used.dist);
        Answer a = randAnswer(c.rng, 0.15);
        qp.clear();
        { Play p(a, c.rng); ctl->optimize(x0, u0); }
        log += "solve ";
        std::string at = where(g, st, log);
        if (qp.log.size() != 1) { c.bad("no-solver-call", MSG("the solver is set up " << qp.log.size() << " times" << at)); return; }
        QpCall &q = qp.log[0];
        EXPECT(q.malformed.empty(), "malformed", q.malformed << at);
        EXPECT(qp.errors.empty(), "protocol", qp.errors[0] << at);
        if (!c.ok()) return;
        std::string e;
        MatrixXd triu = want.P.triangularView<Eigen::Upper>();
        e = firstDiff(q.P, triu); EXPECT(e.empty(), "P", "P" << e << at);
        // entries of a positive semidefinite matrix are bounded by the diagonal; rounding is relative to that
        for (int j = 0; j < want.P.cols() && e.empty(); j++) for (int i = 0; i < j; i++)
            if (std::fabs(want.P(i, j) - want.P(j, i)) > 1e-9 * std::sqrt(std::fabs(want.P(i, i))) * std::sqrt(std::fabs(want.P(j, j))) + 1e-290) { e = MSG("(" << i << "," << j << ") " << want.P(i, j) << ", (" << j << "," << i << ") " << want.P(j, i)); break; }
        EXPECT(e.empty(), "P-symmetric", "the cost matrix is not symmetric, its upper triangle does not represent it: " << e << at);
        e = firstDiff(q.A, want.A); EXPECT(e.empty(), "A", "A" << e << at);
        e = firstDiff(q.q, want.q); EXPECT(e.empty(), "q", "q" << e << at);
        e = firstDiff(q.l, want.l); EXPECT(e.empty(), "l", "l" << e << at);
        e = firstDiff(q.u, want.u); EXPECT(e.empty(), "u", "u" << e << at);
        const OSQPSettings &s = q.set;
        EXPECT(s.alpha == par.alpha && s.rho == par.rho && s.adaptive_rho == par.adaptive && s.polish == par.polish && s.verbose == par.verbose, "parameters", "alpha " << s.alpha << "/" << par.alpha << " rho " << s.rho << "/" << par.rho << " adaptive " << s.adaptive_rho << "/" << par.adaptive << " polish " << s.polish << "/" << par.polish << " verbose " << s.verbose << "/" << par.verbose << at);
        EXPECT(s.eps_rel == par.eps_rel && s.eps_abs == par.eps_abs && s.eps_prim_inf == par.eps_prim && s.eps_dual_inf == par.eps_dual, "accuracies", "eps_rel " << s.eps_rel << "/" << par.eps_rel << " eps_abs " << s.eps_abs << "/" << par.eps_abs << " eps_prim_inf " << s.eps_prim_inf << "/" << par.eps_prim << " eps_dual_inf " << s.eps_dual_inf << "/" << par.eps_dual << at);
        EXPECT(s.max_iter == par.maxit && s.time_limit == par.time_limit && (par.warm || !s.warm_start), "limits", "max_iter " << s.max_iter << "/" << par.maxit << " time_limit " << s.time_limit << "/" << par.time_limit << " warm_start " << s.warm_start << "/" << par.warm << at);
        c.count("programs_compared");
        c.count("coefficients", q.nnzP + q.nnzA);
        c.obs(q.q); c.obs(q.l); c.obs(par.rho);
    }
    c.nontrivial = true;
    c.note(MSG("C28 " << d.s() << (st ? " static: " : " dynamic: ") << log));
}

// ------------------------------------------------------------------ C29
// the documented problem condensed to the free inputs v = [u_0 .. u_{ch-1}]
struct Condensed { bool solved = false, infeasible = false; VectorXd v; LTraj t; double J = 0, ymax = 0, convexity = 0; };
static MatrixXd duOf(const LCfg &g, const VectorXd &u0, const VectorXd &v)
{
    MatrixXd du = MatrixXd::Zero(g.d.nu, g.d.ph);
    VectorXd last = u0;
    for (int k = 0; k < g.d.ch; k++) { VectorXd u = v.segment(k * g.d.nu, g.d.nu); du.col(k) = u - last; last = u; }
    return du;
}
static Condensed condensed(const LCfg &g, const VectorXd &x0, const VectorXd &u0)
{
    const LDims &d = g.d;
    const int n = d.ch * d.nu;
    auto res = [&](const VectorXd &v)
    {
        LTraj t = rollout(g, x0, u0, duOf(g, u0, v));
        VectorXd r(d.ph * (d.ny + 2 * d.nu));
        int p = 0;
        for (int k = 0; k < d.ph; k++)
        {
            for (int j = 0; j < d.ny; j++) r(p++) = std::sqrt(g.OW(j, k)) * (t.y(j, k + 1) - g.yR(j, k));
            for (int j = 0; j < d.nu; j++) r(p++) = std::sqrt(g.UW(j, k)) * (t.u(j, k) - g.uR(j, k));
            for (int j = 0; j < d.nu; j++) r(p++) = std::sqrt(g.DW(j, k)) * (t.du(j, k) - g.duR(j, k));
        }
        return r;
    };
    auto slk = [&](const VectorXd &v) { auto L = limits(g, rollout(g, x0, u0, duOf(g, u0, v))); VectorXd s(L.size()); for (size_t k = 0; k < L.size(); k++) s(k) = L[k].slack; return s; };
    VectorXd z = VectorXd::Zero(n), r0 = res(z), s0 = slk(z);
    MatrixXd R(r0.size(), n), S(s0.size(), n);
    for (int k = 0; k < n; k++) { VectorXd e = VectorXd::Unit(n, k); R.col(k) = res(e) - r0; S.col(k) = slk(e) - s0; }
    Condensed q;
    QPSol s = qpSolve(R.transpose() * R, R.transpose() * r0, S, -s0, VectorXd::Constant(s0.size(), INF), 1e-10);
    if (s.status == 1) q.infeasible = true;
    if (s.status != 0) return q;
    q.solved = true; q.v = s.x;
    q.ymax = s.y.size() ? s.y.cwiseAbs().maxCoeff() : 0;
    q.convexity = Eigen::SelfAdjointEigenSolver<MatrixXd>(R.transpose() * R).eigenvalues()(0);
    q.t = rollout(g, x0, u0, duOf(g, u0, s.x));
    q.J = documentedCost(g, q.t);
    return q;
}
CASE(C29)
{
    LRand o; o.convex = true; o.maxph = 5;
    LDims d = randLDims(c.rng, o);
    bool st = c.rng.chance(0.7);
    VectorXd x0, u0;
    double p = c.rng.pick(std::vector<double>{0, 0.15, 0.4, 0.8});
    LCfg g = randProblem(c, d, o, x0, u0, p);
    auto ctl = makeLin(d, st);
    applyCfg(*ctl, g, &c.rng, c.rng.chance(0.5));
    int steps = c.rng.hist(1, 5);
    std::string log;
    for (int t = 0; t < steps && c.ok(); t++)
    {
        Condensed want = condensed(g, x0, u0);
        qp.clear();
        LRes r = ctl->optimize(x0, u0);
        LSeq e = ctl->seq();
        log += "solve ";
        std::string at = where(g, st, log);
        if (qp.log.size() != 1) { c.bad("no-solver-call", MSG("the solver is set up " << qp.log.size() << " times" << at)); return; }
        double init = INF;
        for (auto &l : limits(g, rollout(g, x0, u0, MatrixXd::Zero(d.nu, d.ph)), true)) init = std::min(init, l.slack);
        if (init < 1e-9) { c.count("present_state_outside"); break; }
        if (want.infeasible) { if (qp.log[0].status != OSQP_MAX_ITER_REACHED) EXPECT(r.status == LS_INFEASIBLE, "infeasible", "the documented problem has no solution, the controller returns " << show(r) << at); c.count("infeasible_compared"); break; }
        if (!want.solved || qp.log[0].status == OSQP_MAX_ITER_REACHED) { c.count("uncertified"); break; }
        if (r.status != LS_SUCCESS)
        {   // only claim it when the documented problem has room to spare
            double room = INF; for (auto &l : limits(g, want.t)) room = std::min(room, l.slack);
            c.bad("no-success", MSG("the documented problem is solvable (smallest slack " << room << "), the controller returns " << show(r) << at));
            return;
        }
        LTraj got = rollout(g, x0, u0, duOf(g, u0, [&] { VectorXd v(d.ch * d.nu); for (int k = 0; k < d.ch; k++) v.segment(k * d.nu, d.nu) = e.input.row(k).transpose(); return v; }()));
        double J = documentedCost(g, got), slack = INF; std::string nm;
        for (auto &l : limits(g, got)) if (l.slack < slack) { slack = l.slack; nm = l.name; }
        double sc = 1 + got.z.cwiseAbs().maxCoeff();
        // the accuracy of the stand-in's solver, weighted by what a violated limit is worth; strong convexity turns it into one of the inputs
        double tolJ = 1e-6 * (1 + std::fabs(want.J)) + 1e-6 * want.ymax * sc, tolU = std::max(2e-4, std::sqrt(8 * tolJ / std::max(want.convexity, 1e-300)));
        c.count(tolU < 1e-2 ? "sharp_optima" : "flat_optima");
        EXPECT(slack >= -1e-6 * sc, "limit", "the returned inputs violate " << nm << " by " << -slack << at);
        EXPECT(std::fabs(J - want.J) <= tolJ, "not-optimal", "the returned inputs cost " << J << ", the optimum is " << want.J << at);
        EXPECT(near(MatrixXd(e.input.row(0)), MatrixXd(want.t.u.col(0).transpose()), tolU), "command", "command " << str(r.cmd.transpose()) << ", optimum " << str(want.t.u.col(0).transpose()) << at);
        EXPECT(near(r.cmd, VectorXd(e.input.row(0).transpose()), 1e-12), "command-sequence", "the command is not the first input" << at);
        for (int k = 0; k <= d.ph; k++)
        {
            EXPECT(near(MatrixXd(e.state.row(k)), MatrixXd(got.x.col(k).transpose()), 1e-5 * sc), "sequence-state", "row " << k << " of the states " << str(e.state.row(k)) << " is not what the inputs produce " << str(got.x.col(k).transpose()) << at);
            EXPECT(near(MatrixXd(e.output.row(k)), MatrixXd(got.y.col(k).transpose()), 1e-5 * sc), "sequence-output", "row " << k << " of the outputs " << str(e.output.row(k)) << " is not what the inputs produce " << str(got.y.col(k).transpose()) << at);
        }
        bool active = slack < 1e-5;
        c.count(active ? "optima_at_limits" : "optima_inside");
        c.obs(J); c.obs(r.cmd);
        c.nontrivial = true;
        // plant, next step
        VectorXd u = e.input.row(0).transpose();
        VectorXd dd = d.ndu ? VectorXd(g.dist.col(0)) : VectorXd(0);
        x0 = g.A * x0 + g.B * u + g.Bd * dd; if (c.rng.chance(0.5)) x0 += c.rng.vec(d.nx, -0.01, 0.01);
        if (x0.cwiseAbs().maxCoeff() > 1e3) break;
        u0 = u;
        int ev = c.rng.i(0, 4);
        if (ev == 0) { g.yR = c.rng.mat(d.ny, d.ph, -2, 2); g.uR = c.rng.mat(d.nu, d.ph); ctl->refsMat(g.yR, g.uR, g.duR); log += "refs "; }
        if (ev == 1 && d.ndu) { g.dist = c.rng.mat(d.ndu, d.ph, -1, 1); ctl->exoMat(g.dist); log += "dist "; }
        if (ev == 2)
        {
            randLimits(c.rng, g, x0, u0, p, false);
            ctl->stateBoundsMat(g.xl, g.xu); ctl->inputBoundsMat(g.ul.leftCols(d.ch), g.uu.leftCols(d.ch)); ctl->outputBoundsMat(g.yl, g.yu);
            for (int z = 0; z < d.ph; z++) ctl->scalarAt(z, g.sl(z), g.su(z), g.sX, g.sU);
            log += "limits ";
        }
        if (ev == 3) { LCfg h = randCfg(c.rng, d, o); g.OW = h.OW; g.UW = h.UW; g.DW = h.DW; ctl->weightsMat(g.OW, g.UW, g.DW); log += "weights "; }
    }
    c.note(MSG("C29 " << d.s() << (st ? " static: " : " dynamic: ") << log));
}
