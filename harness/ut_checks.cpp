// Monitors of the self-contained parts: integrator, profiler, logger, dimensions.
#include "common.hpp"
#include "fake_clock.hpp"
#include "ut_stats.hpp"
#include "enum_names.hpp"
#include <mpc/Integrator.hpp>
#include <mpc/Profiler.hpp>
#include <mpc/Logger.hpp>
#include <mpc/Dim.hpp>

// ---------------------------------------------------------------- C31
template <int N>
static void rkCase(Ctx &c)
{
    Rng &g = c.rng;
    using V = mpc::cvec<N>;
    MatrixXd A = g.mat(N, N), S = g.mat(N, N, -2, 2);
    VectorXd b = g.vec(N), w = g.vec(N, -3, 3), ph = g.vec(N, -3, 3), p1 = g.vec(N), p2 = g.vec(N), p3 = g.vec(N);
    bool autonomous = g.chance(0.25), poly = !autonomous && g.chance(0.3);
    double amp = g.chance(0.3) ? 0 : 1;
    double far = g.chance(0.08) ? g.sgn() * g.logu(10, 1e7) : 0;      // long after (or before) time zero
    if (far != 0) poly = false;
    auto fun = [&](double t, const VectorXd &x) -> VectorXd
    {
        VectorXd r(N);
        t -= far;
        for (int k = 0; k < N; k++)
        {
            if (poly) { r(k) = b(k) + p1(k) * t + p2(k) * t * t + p3(k) * t * t * t; continue; }
            double s = 0;
            for (int j = 0; j < N; j++) s += A(k, j) * x(j) + amp * 0.3 * std::sin(S(k, j) * x(j));
            r(k) = s + (autonomous ? b(k) : std::cos(w(k) * t + ph(k)) * (1 + 0.5 * x(k)));
        }
        return r;
    };
    struct Call { double t; VectorXd x; };
    std::vector<Call> calls;
    mpc::RK4<N> rk([&](double t, const V &x) -> V { calls.push_back({t, x}); return fun(t, x); });
    double t0 = far + (g.chance(0.2) ? 0 : g.uni(-4, 4)), h = g.logu(1e-4, 0.3) * (g.chance(0.15) ? -1 : 1);
    if (g.chance(0.05)) h = g.sgn() * g.logu(1e-8, 1e-4);
    int n = g.chance(0.05) ? 0 : g.i(1, 12);
    if (far == 0 && g.chance(0.04)) { n = g.i(13, 3000); h = std::copysign(std::min(std::fabs(h), 3.0 / n), h); c.count("long_integrations"); }
    if (g.chance(0.03)) h = 0;
    V x0 = g.vec(N), keep = x0;
    // reference with the recorded stages
    std::vector<Call> want;
    VectorXd x = x0;
    for (int i = 0; i < n; i++)
    {
        double t = t0 + i * h;
        VectorXd k1 = fun(t, x), k2 = fun(t + h / 2, x + h / 2 * k1), k3 = fun(t + h / 2, x + h / 2 * k2), k4 = fun(t + h, x + h * k3);
        want.push_back({t, x}); want.push_back({t + h / 2, x + h / 2 * k1}); want.push_back({t + h / 2, x + h / 2 * k2}); want.push_back({t + h, x + h * k3});
        x = x + h / 6 * (k1 + 2 * k2 + 2 * k3 + k4);
    }
    V got = rk.run(t0, x0, h, n);
    double tol = 1e-10 + 2e-14 * std::fabs(far);
    EXPECT(near(got, x, tol), "rk4-result", n << " steps of " << h << " from t=" << t0 << ": got " << str(got.transpose()) << " expected " << str(x.transpose()));
    EXPECT(identical(x0, keep), "rk4-initial-state-modified", "the initial state became " << str(x0.transpose()));
    EXPECT(calls.size() == want.size(), "rk4-stages", calls.size() << " evaluations in " << n << " steps");
    for (size_t k = 0; k < calls.size() && k < want.size(); k++)
    {
        EXPECT(near(calls[k].t, want[k].t, 1e-11), "rk4-stage-time", "evaluation " << k << " at time " << calls[k].t << " instead of " << want[k].t << " (t=" << t0 << " h=" << h << " n=" << n << ")");
        EXPECT(near(calls[k].x, want[k].x, tol), "rk4-stage-state", "evaluation " << k << " at state " << str(calls[k].x.transpose()) << " instead of " << str(want[k].x.transpose()));
    }
    if (n == 1)
    {
        V again = rk.run(t0, x0, h);
        EXPECT(near(again, got, 1e-13), "rk4-default-step", "one step by default gives " << str(again.transpose()));
    }
    // one call of n steps = n calls
    {
        V y = x0;
        for (int i = 0; i < n; i++) y = rk.run(t0 + i * h, y, h, 1);
        EXPECT(near(got, y, tol), "rk4-multi-step", n << " steps in one call: " << str(got.transpose()) << ", in single calls: " << str(y.transpose()));
    }
    if (poly && n > 0 && h != 0)
    {
        auto F = [&](double t, int k) { return b(k) * t + p1(k) * t * t / 2 + p2(k) * t * t * t / 3 + p3(k) * t * t * t * t / 4; };
        for (int k = 0; k < N; k++)
        {
            double e = keep(k) + F(t0 + n * h, k) - F(t0, k);
            EXPECT(std::fabs(got(k) - e) <= 1e-11 * (1 + std::fabs(e) + std::fabs(F(t0, k))), "rk4-polynomial", "cubic in time integrated to " << got(k) << " instead of " << e);
        }
        c.count("polynomials");
    }
    else if (n > 0)
    {
        // order of convergence over a fixed interval against a much finer own integration
        double T = 0.8;
        auto own = [&](int m) {
            VectorXd z = keep; double hh = T / m;
            for (int i = 0; i < m; i++)
            {
                double t = t0 + i * hh;
                VectorXd k1 = fun(t, z), k2 = fun(t + hh / 2, z + hh / 2 * k1), k3 = fun(t + hh / 2, z + hh / 2 * k2), k4 = fun(t + hh, z + hh * k3);
                z += hh / 6 * (k1 + 2 * k2 + 2 * k3 + k4);
            }
            return z;
        };
        VectorXd ref = own(2000);
        V e1 = rk.run(t0, x0, T / 8, 8), e2 = rk.run(t0, x0, T / 32, 32);
        double d1 = (e1 - ref).cwiseAbs().maxCoeff(), d2 = (e2 - ref).cwiseAbs().maxCoeff();
        // a factor 256 in the asymptotic regime; the stages themselves are compared above; here lower orders are excluded
        // (where the error happens to cross zero with 8 steps, the classical scheme itself says what 32 steps give)
        double own2 = (own(32) - ref).cwiseAbs().maxCoeff();
        EXPECT(d2 <= std::max(d1 / 20, 2 * own2) + 1e-9 + 1e-13 * std::fabs(far), "rk4-order", "error " << d1 << " with 8 steps, " << d2 << " with 32");
        c.count("orders_measured");
    }
    c.obs(MatrixXd(got)); c.obs(t0); c.obs(h); c.obs(n);
    c.count("stage_evaluations", (long)calls.size());
    c.nontrivial = n > 0 && h != 0;
    c.note(MSG("N=" << N << " t=" << t0 << " h=" << h << " n=" << n << (autonomous ? " autonomous" : poly ? " polynomial" : " time-varying")));
}

CASE(C31)
{
    switch (c.rng.i(0, 3))
    {
    case 0: rkCase<1>(c); break;
    case 1: rkCase<2>(c); break;
    case 2: rkCase<3>(c); break;
    default: rkCase<5>(c); break;
    }
}

// ---------------------------------------------------------------- C32
static bool findNumber(const std::string &txt, const std::string &label, double &v, int &digits, size_t from = 0)
{
    size_t p = txt.find(label, from);
    if (p == std::string::npos) return false;
    p += label.size();
    size_t e = txt.find('\n', p);
    std::string s = txt.substr(p, e - p);
    char *end;
    v = strtod(s.c_str(), &end);
    if (end == s.c_str()) return false;
    std::string num = s.substr(0, end - s.c_str());
    size_t dot = num.find('.');
    digits = dot == std::string::npos ? 0 : (int)(num.size() - dot - 1);
    return true;
}

CASE(C32)
{
    Rng &g = c.rng;
    mpc::Profiler p;
    RefStats ref;
    int ops = g.chance(0.002) ? g.i(500, 9000) : g.i(1, 60), kind = g.i(0, 4), ends = 0;
    long long basens = (long long)g.logu(1, 1e12);
    static const mpc::ResultStatus sts[] = {mpc::ResultStatus::SUCCESS, mpc::ResultStatus::MAX_ITERATION, mpc::ResultStatus::INFEASIBLE, mpc::ResultStatus::ERROR, mpc::ResultStatus::UNKNOWN};
    static const char *names[] = {"SUCCESS", "MAX_ITERATION", "INFEASIBLE", "ERROR", "UNKNOWN"};
    int favour = g.i(0, 4);
    auto check = [&](const std::string &where) {
        const mpc::SolutionStats &s = p.getStats();
        std::map<int, int> per;
        for (auto &q : s.solutionsStates) per[statusIndex(q.first)] += q.second;
        compareStats(c, ref, s.numberOfSolutions, s.totalSolutionTime.count(), s.minSolutionTime.count(), s.maxSolutionTime.count(), s.averageSolutionTime.count(), s.standardDeviation, per, where);
    };
    auto print = [&] {
        const mpc::SolutionStats &s = p.getStats();
        std::ostringstream o;
        o << s;
        std::string t = o.str();
        auto one = [&](const char *label, double want) {
            double v; int dg;
            if (!findNumber(t, label, v, dg)) { c.bad("stats-print", MSG("'" << label << "' is not printed: " << t)); return; }
            EXPECT(std::fabs(v - want) <= 0.5001 * std::pow(10.0, -dg) + 1e-9 * std::fabs(want), "stats-print", label << " printed " << v << ", value " << want);
        };
        if (!ref.t.empty()) { one("min:", ref.mn()); one("max:", ref.mx()); one("avg:", ref.mean()); one("std:", ref.sd()); }
        one("tot:", (double)ref.total());
        one("num:", ref.t.size());
        double sum = 0; int pd = 2; bool any = false;
        for (int k = 0; k < 5; k++)
        {
            double v; int dg;
            bool f = findNumber(t, std::string("- ") + names[k] + ":", v, dg);
            if (!f) { EXPECT(!ref.per.count(k), "stats-print", "status " << names[k] << " occurred but is not printed"); continue; }
            double want = ref.t.empty() ? 0 : 100.0 * (ref.per.count(k) ? ref.per[k] : 0) / ref.t.size();
            EXPECT(std::fabs(v - want) <= 0.5001 * std::pow(10.0, -dg) + 1e-9, "stats-print", "status " << names[k] << " printed " << v << "%, " << want << "% of the solutions");
            sum += v; pd = dg; any = true;
        }
        if (any) EXPECT(std::fabs(sum - 100) <= 5 * 0.5001 * std::pow(10.0, -pd), "stats-print", "percentages add up to " << sum);
        c.count("prints");
    };
    check("before any solution");
    for (int k = 0; k < ops; k++)
    {
        if (g.chance(ops > 60 ? 0.0002 : 0.05)) { p.reset(); ref.clear(); c.count("resets"); check("after a reset"); continue; }
        if (g.chance(0.08)) { p.solutionStart(); fakeNs += g.i(0, 1000); }       // restarted: the last start counts
        long long ns;
        switch (kind)
        {
        case 0: ns = (long long)g.logu(1, 1e13); break;                            // very different
        case 1: ns = basens; break;                                                // equal
        case 2: ns = basens + g.i(0, 3); break;                                    // nearly equal
        case 3: ns = g.chance(0.2) ? 0 : g.i(0, 1000000); break;
        default: ns = (long long)(basens / 2 + basens * g.u01()); break;
        }
        int st = g.chance(0.5) ? favour : g.i(0, 4);
        p.solutionStart();
        fakeNs += ns;
        double back;
        if (g.chance(0.5)) { mpc::Result<2> r; r.status = sts[st]; back = p.solutionEnd<2>(r).count(); }
        else { mpc::Result<-1> r; r.status = sts[st]; back = p.solutionEnd<-1>(r).count(); }
        fakeNs += g.i(0, 100000000);                                               // not part of a solution
        double s = ns * 1e-9;
        EXPECT(std::fabs(back - s) <= 1e-9 * s, "stats-elapsed", "elapsed " << back << " reported for " << s);
        ref.add(s, st);
        ends++;
        bool look = ops <= 60 || k + 1 == ops || g.chance(0.02);
        if (look) check(MSG("after " << ref.t.size() << " solutions"));
        c.obs((uint64_t)ns); c.obs(st);
        if (look && g.chance(0.1)) print();
    }
    print();
    c.count("durations", ends);
    c.nontrivial = ends > 0;
    c.note(MSG(ends << " durations kind " << kind << " total " << (double)ref.total() << " sd " << ref.sd()));
}

// ---------------------------------------------------------------- C33
CASE(C33)
{
    Rng &g = c.rng;
    auto &L = mpc::Logger::instance();
    L.reset();
    struct S { std::ostringstream got, want; };
    std::vector<S> streams(g.i(1, 3));
    for (auto &s : streams) { int pr = g.i(2, 12); s.got.precision(pr); s.want.precision(pr); if (g.chance(0.3)) { s.got << std::fixed; s.want << std::fixed; } if (g.chance(0.2)) { s.got << std::boolalpha; s.want << std::boolalpha; } }
    int cur = 0, level = 1;
    std::string prefix;
    std::vector<std::string> prefixes{"", "a", "robot 1", " ", "]", "[MPC++] ", "\xc3\xa9", std::string(300, 'x'), "0"};
    L.setStream(&streams[0].got);
    // the other channels must stay silent
    std::ostringstream silent;
    auto *o1 = std::cout.rdbuf(silent.rdbuf());
    auto *o2 = std::cerr.rdbuf(silent.rdbuf());
    struct Restore { std::streambuf *a, *b; ~Restore() { std::cout.rdbuf(a); std::cerr.rdbuf(b); mpc::Logger::instance().setStream(&std::cout); mpc::Logger::instance().reset(); } } restore{o1, o2};
    int ops = g.i(5, 60), written = 0, suppressed = 0;
    std::string script;
    for (int k = 0; k < ops; k++)
    {
        int op = g.i(0, 9);
        if (op == 0) { level = g.i(0, 3); L.setLevel(logLevel(level)); script += MSG("L" << level); }
        else if (op == 1) { prefix = g.pick(prefixes); L.setPrefix(prefix); script += "P"; }
        else if (op == 2 && g.chance(0.5)) { cur = g.i(0, (int)streams.size() - 1); L.setStream(&streams[cur].got); script += "S"; }
        else if (op == 3 && g.chance(0.5)) { L.reset(); level = 1; prefix = ""; script += "R"; }
        else
        {
            int type = g.i(0, 2), parts = g.i(0, 5);
            bool on = level < 3 && type >= level;
            auto &l = g.chance(0.5) ? L.log(logType(type)) : mpc::Logger::instance().log(logType(type));
            EXPECT(&l == &L, "logger-chain", "log() returns another logger");
            std::ostream null(nullptr);
            std::ostream &w = on ? (std::ostream &)streams[cur].want : null;
            w << "[MPC++" << (prefix.empty() ? "" : " ") << prefix << "] ";
            for (int q = 0; q < parts; q++)
            {
                double v = g.uni(-1e3, 1e3);
                switch (g.i(0, 13))
                {
                case 11: { int sc = (int)v & 1023; L << std::hex << sc << std::oct << sc << std::dec << sc; w << std::hex << sc << std::oct << sc << std::dec << sc; break; }
                case 12: { int sw = g.i(0, 12); L << std::setw(sw) << std::setfill('*') << 42 << std::setfill(' '); w << std::setw(sw) << std::setfill('*') << 42 << std::setfill(' '); break; }
                case 13: { int sp = g.i(2, 12); L << std::setprecision(sp) << v << std::left << std::setw(20) << v << std::right; w << std::setprecision(sp) << v << std::left << std::setw(20) << v << std::right; break; }
                case 0: L << v; w << v; break;
                case 1: L << (int)v; w << (int)v; break;
                case 2: L << std::string("text "); w << std::string("text "); break;
                case 3: L << "literal"; w << "literal"; break;
                case 4: L << std::endl; w << std::endl; break;
                case 5: L << (v > 0); w << (v > 0); break;
                case 6: { MatrixXd m = g.mat(2, 2); L << m; w << m; break; }
                case 7: { char ch = (char)('a' + g.i(0, 25)); L << ch << '\n'; w << ch << '\n'; break; }
                case 8: { const char *e = ""; L << e; w << e; break; }
                case 9: L << 1e300 << -INF << (unsigned char)'z' << (size_t)-1; w << 1e300 << -INF << (unsigned char)'z' << (size_t)-1; break;
                case 10: { VectorXd m = g.vec(3); L << m.transpose() << std::flush << "|"; w << m.transpose() << std::flush << "|"; break; }
                }
            }
            script += MSG("m" << type << (on ? "+" : "-"));
            (on ? written : suppressed)++;
        }
        for (size_t q = 0; q < streams.size(); q++)
            EXPECT(streams[q].got.str() == streams[q].want.str(), "logger-text", "stream " << q << (q == (size_t)cur ? " (current)" : " (replaced)") << " holds '" << streams[q].got.str() << "' instead of '" << streams[q].want.str() << "' after " << script);
        if (!c.ok()) break;
    }
    EXPECT(silent.str().empty(), "logger-other-stream", "written to standard output: '" << silent.str() << "'");
    for (auto &s : streams) for (char ch : s.got.str()) c.obs((int)ch);
    c.count("messages_written", written); c.count("messages_suppressed", suppressed);
    c.nontrivial = written > 0 && suppressed > 0;
    c.note(script.substr(0, 120));
}

// ---------------------------------------------------------------- C34
namespace
{
constexpr int LIM = 12;
struct Tab { int v[6][LIM + 2][LIM + 2]; };
constexpr int evalOp(int op, int a, int b)
{
    using mpc::Size;
    switch (op)
    {
    case 0: return (int)(Size(a) + Size(b));
    case 1: return (int)(Size(a) - Size(b));
    case 2: return (int)(Size(a) * Size(b));
    }
    return 0;
}
constexpr int evalInt(int op, int a, int b)
{
    using mpc::Size;
    switch (op)
    {
    case 0: return (int)(Size(a) + b);
    case 1: return (int)(Size(a) - b);
    case 2: return (int)(Size(a) * b);
    case 3: return (int)(a + Size(b));
    case 4: return (int)(a - Size(b));
    case 5: return (int)(a * Size(b));
    }
    return 0;
}
constexpr Tab table(bool mixed)
{
    Tab t{};
    for (int op = 0; op < 6; op++) for (int a = -1; a <= LIM; a++) for (int b = -1; b <= LIM; b++)
        t.v[op][a + 1][b + 1] = mixed ? evalInt(op, a, b) : evalOp(op, a, b);
    return t;
}
constexpr Tab ctSize = table(false), ctMixed = table(true);
int wanted(int op, int a, int b)
{
    if (a < 0 || b < 0) return Eigen::Dynamic;
    return op % 3 == 0 ? a + b : op % 3 == 1 ? a - b : a * b;
}
}

CASE(C34)
{
    Rng &g = c.rng;
    static const char sym[] = "+-*";
    auto txt = [](int a) { return a < 0 ? std::string("dynamic") : MSG(a); };
    if (c.index == 0)
        for (int op = 0; op < 6; op++) for (int a = -1; a <= LIM; a++) for (int b = -1; b <= LIM; b++)
        {
            if (op < 3)
            {
                EXPECT(ctSize.v[op][a + 1][b + 1] == wanted(op, a, b), "size-constexpr", "Size " << txt(a) << sym[op % 3] << "Size " << txt(b) << " = " << ctSize.v[op][a + 1][b + 1] << " at compile time, expected " << txt(wanted(op, a, b)));
                EXPECT(evalOp(op, a, b) == wanted(op, a, b), "size-runtime", "Size " << txt(a) << sym[op % 3] << "Size " << txt(b) << " = " << evalOp(op, a, b) << ", expected " << txt(wanted(op, a, b)));
            }
            EXPECT(ctMixed.v[op][a + 1][b + 1] == wanted(op, a, b), "size-constexpr", (op < 3 ? "Size " : "int ") << txt(a) << sym[op % 3] << (op < 3 ? "int " : "Size ") << txt(b) << " = " << ctMixed.v[op][a + 1][b + 1] << " at compile time, expected " << txt(wanted(op, a, b)));
            EXPECT(evalInt(op, a, b) == wanted(op, a, b), "size-runtime", (op < 3 ? "Size " : "int ") << txt(a) << sym[op % 3] << (op < 3 ? "int " : "Size ") << txt(b) << " = " << evalInt(op, a, b) << ", expected " << txt(wanted(op, a, b)));
            c.count("pairs_exhaustive");
        }
    for (int q = 0; q < 200; q++)
    {
        int a = g.chance(0.2) ? -1 : g.i(0, g.chance(0.3) ? 40000 : 300), b = g.chance(0.2) ? -1 : g.i(0, g.chance(0.3) ? 40000 : 300), op = g.i(0, 5);
        int got = op < 3 && g.chance(0.5) ? evalOp(op, a, b) : evalInt(op, a, b);
        EXPECT(got == wanted(op, a, b), "size-runtime", txt(a) << sym[op % 3] << txt(b) << " = " << got << ", expected " << txt(wanted(op, a, b)));
        // expressions as used to size the controllers
        int e = g.chance(0.2) ? -1 : g.i(0, 60), f = g.chance(0.2) ? -1 : g.i(0, 60);
        int nv = (int)(mpc::Size(a) * mpc::Size(e) + mpc::Size(b) * mpc::Size(f) + 1);
        int want = (a < 0 || b < 0 || e < 0 || f < 0) ? -1 : a * e + b * f + 1;
        EXPECT(nv == want, "size-expression", txt(a) << "*" << txt(e) << "+" << txt(b) << "*" << txt(f) << "+1 = " << nv << ", expected " << txt(want));
        mpc::MPCSize m(a, b, e, f, a, b, e, f);
        EXPECT((int)m.nx == a && (int)m.nu == b && (int)m.ndu == e && (int)m.ny == f && (int)m.ph == a && (int)m.ch == b && (int)m.ineq == e && (int)m.eq == f, "size-fields", "dimensions are not stored as given");
        EXPECT(mpc::Size::is_static(a, b) == (a >= 0 && b >= 0), "size-is-static", "is_static(" << txt(a) << "," << txt(b) << ")");
        EXPECT(mpc::make_dimension(a, true) == a && mpc::make_dimension(a, false) == Eigen::Dynamic, "size-make-dimension", "make_dimension(" << txt(a) << ")");
        c.obs(a); c.obs(b); c.obs(op); c.obs(got);
        c.count("expressions");
    }
    c.nontrivial = true;
    c.note("200 random operand pairs and expressions");
}
