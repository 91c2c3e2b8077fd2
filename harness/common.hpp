// Shared infrastructure of all monitors: deterministic random numbers, case context, registry.
#pragma once
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <functional>
#include <limits>
#include <map>
#include <sstream>
#include <string>
#include <tuple>
#include <vector>
#include <Eigen/Dense>

using Eigen::MatrixXd;
using Eigen::VectorXd;
constexpr double INF = std::numeric_limits<double>::infinity();

struct Rng
{
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed) {}
    uint64_t next()
    {
        uint64_t z = (s += 0x9e3779b97f4a7c15ull);
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
        return z ^ (z >> 31);
    }
    double u01() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
    double uni(double a, double b) { return a + (b - a) * u01(); }
    int i(int a, int b) { return a + (int)(next() % (uint64_t)(b - a + 1)); }   // inclusive
    bool chance(double p) { return u01() < p; }
    // length of a history: now and then much longer than usual
    int hist(int a, int b) { bool longer = chance(0.008); return longer ? i(20, 70) : i(a, b); }
    double logu(double a, double b) { return std::exp(uni(std::log(a), std::log(b))); }
    double sgn() { return chance(0.5) ? 1.0 : -1.0; }
    template <class T> const T &pick(const std::vector<T> &v) { return v[next() % v.size()]; }
    template <class T> void shuffle(std::vector<T> &v)
    {
        for (size_t k = v.size(); k > 1; k--) std::swap(v[k - 1], v[next() % k]);
    }
    VectorXd vec(int n, double a = -1, double b = 1) { return mat(n, 1, a, b); }
    // now and then nearly the same values as the last time: whoever remembers them has to notice
    MatrixXd mat(int r, int c, double a = -1, double b = 1)
    {
        MatrixXd m(r, c);
        auto &last = past[{r, c, a, b}];
        double near = u01();
        if (near < 0.04 && last.size())
        {
            double w = (b - a) * (near < 0.005 ? 0 : logu(1e-7, 1e-2));
            m = last;
            for (int k = 0; k < m.size(); k++) m.data()[k] = std::min(b, std::max(a, m.data()[k] + w * uni(-1, 1)));
        }
        else for (int j = 0; j < c; j++) for (int k = 0; k < r; k++) m(k, j) = uni(a, b);
        return last = m;
    }
    std::map<std::tuple<int, int, double, double>, MatrixXd> past;
};

inline uint64_t mix(uint64_t a, uint64_t b) { Rng r(a ^ (b * 0x9e3779b97f4a7c15ull + 0x1234567)); return r.next(); }

// One executed case: where monitors report what they observed and what is wrong.
struct Ctx
{
    Rng rng;
    uint64_t index;
    bool thorough;
    std::string prop;
    // results
    std::vector<std::pair<std::string, std::string>> violations;   // key, detail
    std::map<std::string, long> counters;
    uint64_t hash = 1469598103934665603ull;
    bool nontrivial = false;
    std::string sample;

    Ctx(uint64_t seed, uint64_t idx, bool th, std::string p) : rng(mix(mix(seed, idx), std::hash<std::string>()(p))), index(idx), thorough(th), prop(p) {}

    void bad(const std::string &key, const std::string &detail)
    {
        for (auto &v : violations) if (v.first == key) return;
        violations.push_back({key, detail});
    }
    bool ok() const { return violations.empty(); }
    void count(const std::string &k, long n = 1) { counters[k] += n; }
    // observed data enter the case hash (distinctness of cases)
    void obs(uint64_t x) { hash = (hash ^ x) * 1099511628211ull; }
    void obs(int x) { obs((uint64_t)(int64_t)x); }
    void obs(bool x) { obs((uint64_t)x); }
    void obs(double x) { uint64_t b; std::memcpy(&b, &x, 8); obs(b); }
    void obs(const MatrixXd &m) { obs((int)m.rows()); for (Eigen::Index k = 0; k < m.size(); k++) obs(m.data()[k]); }
    void note(const std::string &s) { if (sample.size() < 700) sample += s; }
};

using CaseFn = void (*)(Ctx &);
std::map<std::string, CaseFn> &registry();
struct Reg { Reg(const char *n, CaseFn f) { registry()[n] = f; } };
#define CASE(NAME) static void case_##NAME(Ctx &c); static Reg reg_##NAME(#NAME, case_##NAME); static void case_##NAME(Ctx &c)

#define MSG(stream_expr) ([&] { std::ostringstream _o; _o.precision(12); _o << stream_expr; return _o.str(); }())
// report and continue
#define EXPECT(cond, key, msg) do { if (!(cond)) c.bad(key, MSG(msg)); } while (0)

inline bool sameInf(double a, double b) { return (std::isinf(a) && std::isinf(b) && (a > 0) == (b > 0)); }
inline bool near(double a, double b, double tol)
{
    if (a == b || sameInf(a, b)) return true;
    if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
    if (std::isinf(a) || std::isinf(b)) return false;
    return std::fabs(a - b) <= tol * std::max({1.0, std::fabs(a), std::fabs(b)});
}
inline bool near(const MatrixXd &a, const MatrixXd &b, double tol)
{
    if (a.rows() != b.rows() || a.cols() != b.cols()) return false;
    for (Eigen::Index k = 0; k < a.size(); k++) if (!near(a.data()[k], b.data()[k], tol)) return false;
    return true;
}
inline bool identical(double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)); }
inline bool identical(const MatrixXd &a, const MatrixXd &b)
{
    if (a.rows() != b.rows() || a.cols() != b.cols()) return false;
    for (Eigen::Index k = 0; k < a.size(); k++) if (!identical(a.data()[k], b.data()[k])) return false;
    return true;
}
inline std::string str(const MatrixXd &m)
{
    std::ostringstream o;
    o.precision(9);
    o << "[";
    for (int r = 0; r < m.rows(); r++)
    {
        if (r) o << "; ";
        for (int k = 0; k < m.cols(); k++) o << (k ? " " : "") << m(r, k);
    }
    o << "]";
    return o.str();
}

// runs f in a process of its own and returns what it returned; a process that never ran a controller before is the
// only place where something runs truly alone
std::string inChild(const std::function<std::string()> &f);
struct Bytes
{
    std::string s;
    void put(const void *p, size_t n) { s.append((const char *)p, n); }
    void put(long v) { put(&v, sizeof v); }
    void put(const MatrixXd &m)
    {
        put((long)m.rows()); put((long)m.cols());
        for (Eigen::Index k = 0; k < m.size(); k++) { double v = m.data()[k]; if (std::isnan(v)) v = std::numeric_limits<double>::quiet_NaN(); if (v == 0) v = 0; put(&v, 8); }
    }
};
struct Pack { std::string s; void add(const std::string &x) { long n = (long)x.size(); s.append((const char *)&n, sizeof n); s += x; } };
struct Unpack
{
    const std::string &s; size_t at = 0;
    explicit Unpack(const std::string &x) : s(x) {}
    std::string next()
    {
        long n = 0;
        if (at + sizeof n > s.size()) return "(missing)";
        std::memcpy(&n, s.data() + at, sizeof n);
        at += sizeof n;
        std::string r = s.substr(at, (size_t)n);
        at += (size_t)n;
        return r;
    }
};
