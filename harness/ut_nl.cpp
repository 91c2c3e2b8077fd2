// Profiler, logger and dimensions as seen through complete non-linear controllers.
#include "nl_util.hpp"
#include "fake_clock.hpp"
#include "ut_stats.hpp"
#include "enum_names.hpp"
#include <iostream>
#include <mpc/Logger.hpp>

CASE(C32N)
{
    Rng &g = c.rng;
    ScnOpt o; o.maxph = 2; o.maxnx = 2; o.maxnu = 1; o.maxineq = 1; o.maxeq = 1;
    auto s = randScn(g, o);
    auto m = s->make();
    RefStats ref;
    long long solverNs = 0;
    int injected = 1;
    HookGuard hook([&](Program &p, double *x, double *f) -> nlopt_result {
        fakeNs += solverNs;
        *f = 1;
        if (injected == 100) throw std::runtime_error("injected");
        return (nlopt_result)injected;
    });
    int steps = g.hist(1, 15);
    long long base = (long long)g.logu(10, 1e10);
    for (int k = 0; k < steps; k++)
    {
        if (g.chance(0.1)) { m->resetStats(); ref.clear(); c.count("resets"); }
        fakeNs += g.i(0, 1000000);              // time between solves is not solution time
        solverNs = g.chance(0.3) ? base : (long long)g.logu(1, 1e11);
        injected = g.pick(std::vector<int>{1, 2, 3, 4, 5, 6, -1, -2, -3, -4, -5, 100});
        long long before = fakeNs;
        Res r = m->optimize(s->randX0(g), s->randU0(g));
        EXPECT(fakeNs - before == solverNs, "harness", "clock");
        ref.add(solverNs * 1e-9, r.status);
        Stats t = m->stats();
        compareStats(c, ref, t.n, t.total, t.mn, t.mx, t.avg, t.sd, t.perStatus, MSG("controller after " << ref.t.size() << " solves"));
        c.obs((uint64_t)solverNs); c.obs(injected);
        c.count("solves");
    }
    c.nontrivial = true;
    c.note(s->s());
}

CASE(C33N)
{
    Rng &g = c.rng;
    ScnOpt o; o.maxph = 3; o.maxnx = 2; o.maxnu = 2;
    auto s = randScn(g, o);
    int calls = g.i(1, 3);
    uint64_t script = g.next();
    std::string prefix = g.pick(std::vector<std::string>{"", "arm", "x y"});
    NLPar par; par.maxeval = 25; par.warm = g.chance(0.5); par.hard = g.chance(0.5); par.rel_f = 1e-9;
    struct Run { std::string log, out; std::vector<Res> res; std::vector<Seq> seq; };
    std::vector<int> levels{0, 1, 2, 3};
    g.shuffle(levels);
    std::map<int, Run> runs;
    for (int lv : levels)
    {
        Run &r = runs[lv];
        std::ostringstream log, out;
        auto *o1 = std::cout.rdbuf(out.rdbuf()); auto *o2 = std::cerr.rdbuf(out.rdbuf());
        auto &L = mpc::Logger::instance();
        L.reset(); L.setStream(&log);
        bool before = script & 1;
        if (before) L.setLevel(logLevel(lv));
        {
            L.setLevel(logLevel(lv));
            auto m = makeCtl(s->d, s->wantStatic);
            EXPECT(m->loggerLevel(lv), "logger-return", "setting the level is reported as refused");
            EXPECT(m->loggerPrefix(prefix), "logger-return", "setting the prefix is reported as refused");
            s->configure(*m);
            m->setParams(par);
            Rng q(script);
            s->lastX0 = s->lastU0 = VectorXd();      // every run sees the same states
            if (q.chance(0.5)) { VectorXd w = q.vec(s->d.nu, 0.2, 3).cwiseProduct(s->mu); m->inputBounds(-w, w, -1, -1); }
            if (q.chance(0.3)) m->inputBounds(q.vec(s->d.nu), q.vec(s->d.nu), 2, 1);       // refused
            int fault = q.i(0, 5);
            long n = 0;
            for (int k = 0; k < calls; k++)
            {
                if (fault == 0 && k == 0) s->mon.obj = [&](const MatrixXd &, const MatrixXd &, const MatrixXd &, double) { if (++n == 3) throw std::runtime_error("objective"); };
                VectorXd x0 = s->randX0(q), u0 = s->randU0(q);
                r.res.push_back(m->optimize(x0, u0));
                r.seq.push_back(m->seq());
                s->mon.clear();
            }
        }
        std::cout.rdbuf(o1); std::cerr.rdbuf(o2);
        L.setStream(&std::cout); L.reset();
        r.log = log.str(); r.out = out.str();
    }
    const Run &a = runs[levels[0]];
    for (int lv : levels)
    {
        const Run &b = runs[lv];
        for (int k = 0; k < calls; k++)
        {
            const Res &p = a.res[k], &q = b.res[k];
            EXPECT(p.solver_status == q.solver_status && p.feasible == q.feasible && p.msg == q.msg && p.status == q.status && identical(p.cost, q.cost) && identical(p.cmd, q.cmd), "logger-changes-results",
                   "call " << k << " at level " << lv << " returns command " << str(q.cmd.transpose()) << " cost " << q.cost << " status " << q.status << ", at level " << levels[0] << ": " << str(p.cmd.transpose()) << " cost " << p.cost << " status " << p.status << " " << s->s());
            EXPECT(identical(a.seq[k].state, b.seq[k].state) && identical(a.seq[k].input, b.seq[k].input) && identical(a.seq[k].output, b.seq[k].output), "logger-changes-results", "call " << k << ": the sequence differs at level " << lv << " " << s->s());
        }
        EXPECT(b.out.empty(), "logger-other-stream", "level " << lv << ": written to standard output: '" << b.out.substr(0, 200) << "'");
    }
    auto tags = [&](const std::string &t, const std::string &pre) { long n = 0; size_t at = 0; std::string tag = pre.empty() ? "[MPC++] " : "[MPC++ " + pre + "] "; while ((at = t.find(tag, at)) != std::string::npos) { n++; at += tag.size(); } return n; };
    EXPECT(runs[3].log.empty(), "logger-none", "level NONE writes '" << runs[3].log.substr(0, 200) << "'");
    long t[3];
    for (int k = 0; k < 3; k++) t[k] = tags(runs[k].log, prefix) + (prefix.empty() ? 0 : tags(runs[k].log, ""));
    EXPECT(t[0] >= t[1] && t[1] >= t[2], "logger-levels", "messages at DEEP " << t[0] << ", NORMAL " << t[1] << ", ALERT " << t[2]);
    // the completed step is reported with the given prefix as an informative message
    EXPECT(t[1] > 0 && tags(runs[1].log, prefix) >= calls, "logger-prefix", tags(runs[1].log, prefix) << " messages with prefix '" << prefix << "' for " << calls << " solves");
    c.obs(script); for (auto &q : a.res) { c.obs(q.cost); c.obs(MatrixXd(q.cmd)); }
    c.count("runs_compared", 4); c.count("messages_deep", t[0]); c.count("messages_normal", t[1]); c.count("messages_alert", t[2]);
    c.nontrivial = t[0] > 0;
    c.note(MSG(s->s() << " tags " << t[0] << "/" << t[1] << "/" << t[2]));
}

CASE(C34N)
{
    Rng &g = c.rng;
    ScnOpt o; o.pStatic = 0.5;
    auto s = randScn(g, o);
    const Dims &d = s->d;
    auto m = s->make();
    auto sizes = [&](const char *when) {
        Seq q = m->seq();
        EXPECT(q.state.rows() == d.ph + 1 && q.state.cols() == d.nx, "size-sequence", when << ": state sequence " << q.state.rows() << "x" << q.state.cols() << " for " << s->s());
        EXPECT(q.input.rows() == d.ph + 1 && q.input.cols() == d.nu, "size-sequence", when << ": input sequence " << q.input.rows() << "x" << q.input.cols() << " for " << s->s());
        EXPECT(q.output.rows() == d.ph + 1 && q.output.cols() == d.ny, "size-sequence", when << ": output sequence " << q.output.rows() << "x" << q.output.cols() << " for " << s->s());
        EXPECT(m->last().cmd.size() == d.nu, "size-command", when << ": command of size " << m->last().cmd.size() << " for " << s->s());
        c.count("sizes_compared", 4);
    };
    auto wrong = [&](const char *w, int r, int q, int er, int eq) { EXPECT(r == er && q == eq, "size-callback", w << " given " << r << "x" << q << " instead of " << er << "x" << eq << " for " << s->s()); c.count("sizes_compared"); };
    auto xyu = [&](const MatrixXd &X, const MatrixXd &Y, const MatrixXd &U, const char *w) { wrong(w, X.rows(), X.cols(), d.ph + 1, d.nx); wrong(w, Y.rows(), Y.cols(), d.ph + 1, d.ny); wrong(w, U.rows(), U.cols(), d.ph + 1, d.nu); };
    s->mon.obj = [&](const MatrixXd &X, const MatrixXd &Y, const MatrixXd &U, double) { xyu(X, Y, U, "objective"); };
    s->mon.ineq = [&](int n, const MatrixXd &X, const MatrixXd &Y, const MatrixXd &U, double) { xyu(X, Y, U, "inequality"); wrong("inequality values", n, 1, d.ineq, 1); };
    s->mon.eq = [&](int n, const MatrixXd &X, const MatrixXd &U) { wrong("equality", X.rows(), X.cols(), d.ph + 1, d.nx); wrong("equality", U.rows(), U.cols(), d.ph + 1, d.nu); wrong("equality values", n, 1, d.eq, 1); };
    s->mon.state = [&](int n, const VectorXd &x, const VectorXd &u, unsigned) { wrong("state update", n, 1, d.nx, 1); wrong("state update", x.size(), u.size(), d.nx, d.nu); };
    s->mon.out = [&](int n, const VectorXd &x, const VectorXd &u, unsigned) { wrong("output", n, 1, d.ny, 1); wrong("output", x.size(), u.size(), d.nx, d.nu); };
    if (g.chance(0.5)) sizes("before the first solve");
    int mode = g.i(0, 2);
    HookGuard hook([&](Program &p, double *x, double *f) -> nlopt_result {
        EXPECT(p.n == d.nv(), "size-decision", "decision vector of size " << p.n << " instead of " << d.nv() << " for " << s->s());
        EXPECT(p.lb.size() == p.n && p.ub.size() == p.n, "size-decision", "bounds of the decision vector");
        int ne = 0, ni = 0;
        for (auto &q : p.rec->cons) (q.eq ? ne : ni) += q.m;
        EXPECT(ne == d.ph * d.nx + (s->hasEq ? d.eq : 0), "size-equalities", ne << " equality constraints for " << s->s());
        EXPECT(ni == (s->hasIneq ? d.ineq : 0), "size-inequalities", ni << " inequality constraints for " << s->s());
        for (auto &q : p.rec->cons) EXPECT(q.tol.size() == q.m, "size-tolerances", q.tol.size() << " tolerances for " << q.m << " constraints");
        c.count("problems_compared");
        if (mode == 0) return p.real(x, f);
        *f = 0;
        VectorXd v(p.n), gr(p.n);
        for (int k = 0; k < p.n; k++) v(k) = x[k];
        p.objective(v, &gr); p.constraints(true, v); p.constraints(false, v);
        return mode == 1 ? NLOPT_SUCCESS : NLOPT_FAILURE;
    });
    NLPar par; par.maxeval = 10;
    m->setParams(par);
    for (int k = 0; k < 2; k++) { m->optimize(s->randX0(g), s->randU0(g)); sizes("after a solve"); }
    s->mon.clear();
    c.obs(d.nx); c.obs(d.nu); c.obs(d.ny); c.obs(d.ph); c.obs(d.ch); c.obs(d.ineq); c.obs(d.eq); c.obs(s->wantStatic); c.obs(mode); c.obs(s->hasOut); c.obs(s->hasIneq); c.obs(s->hasEq); c.obs(s->cont);
    c.nontrivial = true;
    c.note(s->s());
}
