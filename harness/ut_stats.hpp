// Reference statistics of recorded durations.
#pragma once
#include "common.hpp"

struct RefStats
{
    std::vector<double> t;
    std::map<int, int> per;
    void add(double s, int st) { t.push_back(s); per[st]++; }
    void clear() { t.clear(); per.clear(); }
    long double total() const { long double s = 0; for (double x : t) s += x; return s; }
    double mean() const { return t.empty() ? 0 : (double)(total() / t.size()); }
    double sd() const
    {
        if (t.empty()) return 0;
        long double m = total() / t.size(), s = 0;
        for (double x : t) s += ((long double)x - m) * ((long double)x - m);
        return (double)sqrtl(s / t.size());
    }
    double mn() const { double m = INF; for (double x : t) m = std::min(m, x); return m; }
    double mx() const { double m = -INF; for (double x : t) m = std::max(m, x); return m; }
};

inline void compareStats(Ctx &c, const RefStats &r, int n, double total, double mn, double mx, double avg, double sd, const std::map<int, int> &per, const std::string &where)
{
    EXPECT(n == (int)r.t.size(), "stats-number", where << ": " << n << " solutions reported, " << r.t.size() << " recorded");
    double big = r.t.empty() ? 0 : r.mx(), tol = 1e-9 * big + 1e-15;
    EXPECT(std::fabs(total - (double)r.total()) <= tol * std::max<size_t>(1, r.t.size()), "stats-total", where << ": total " << total << ", recorded " << (double)r.total());
    EXPECT(std::fabs(avg - r.mean()) <= tol, "stats-mean", where << ": mean " << avg << ", recorded " << r.mean() << " over " << r.t.size());
    EXPECT(std::fabs(sd - r.sd()) <= 1e-6 * r.sd() + 2e-8 * big + 1e-15, "stats-deviation", where << ": deviation " << sd << ", recorded " << r.sd() << " over " << r.t.size());
    if (!r.t.empty())
    {
        EXPECT(std::fabs(mn - r.mn()) <= 1e-12 * r.mn() + 1e-15, "stats-min", where << ": minimum " << mn << ", recorded " << r.mn());
        EXPECT(std::fabs(mx - r.mx()) <= 1e-12 * r.mx() + 1e-15, "stats-max", where << ": maximum " << mx << ", recorded " << r.mx());
    }
    long sum = 0;
    for (auto &q : r.per)
    {
        auto it = per.find(q.first);
        EXPECT(it != per.end() && it->second == q.second, "stats-status", where << ": status " << q.first << " recorded " << q.second << " times, reported " << (it == per.end() ? 0 : it->second));
    }
    for (auto &q : per) sum += q.second;
    EXPECT(sum == (long)r.t.size(), "stats-status", where << ": per-status counts sum to " << sum << " of " << r.t.size());
}
