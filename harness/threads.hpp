// Runs actors on threads of their own; the thread sanitizer watches, the transcripts are compared by the caller
#pragma once
#include "common.hpp"
#include <atomic>
#include <chrono>
#include <thread>

// events are ordered by a relaxed counter, which creates no order between the threads themselves
struct Trace
{
    std::atomic<long> tick{0};
    struct Ev { long t; int who; bool end; };
    std::vector<std::vector<Ev>> ev;
    explicit Trace(int n) : ev(n) {}
    void mark(int who, bool end) { ev[who].push_back({tick.fetch_add(1, std::memory_order_relaxed), who, end}); }
    // the order in which steps began (upper case) and ended, and the number of steps begun while another one ran
    std::string order(long &overlaps) const
    {
        std::vector<Ev> all;
        for (auto &v : ev) all.insert(all.end(), v.begin(), v.end());
        std::sort(all.begin(), all.end(), [](const Ev &a, const Ev &b) { return a.t < b.t; });
        std::string o; int open = 0;
        overlaps = 0;
        for (auto &e : all) { if (e.end) open--; else { if (open) overlaps++; open++; } o += (char)((e.end ? 'a' : 'A') + e.who); }
        return o;
    }
};
inline void disturb(Rng &r)
{
    switch (r.i(0, 5))
    {
    case 0: std::this_thread::yield(); break;
    case 1: std::this_thread::sleep_for(std::chrono::microseconds(r.i(1, 200))); break;
    case 2: for (volatile int k = r.i(0, 3000); k > 0; k = k - 1) {} break;
    default: break;
    }
}
// every actor lives through its script on one thread, or on several one after the other
template <class A>
inline std::string runThreads(std::vector<std::unique_ptr<A>> &actors, Rng &rng, const std::function<void(A &, Rng &)> &install)
{
    int n = (int)actors.size();
    Trace tr(n);
    int phases = rng.chance(0.4) ? rng.i(2, 3) : 1;
    std::vector<Rng> own;
    for (int k = 0; k < n; k++) own.emplace_back(rng.next());
    for (int ph = 0; ph < phases; ph++)
    {
        std::vector<int> todo;
        for (int k = 0; k < n; k++) todo.push_back(ph == phases - 1 ? 1 << 20 : rng.i(1, 4));
        std::atomic<int> ready{0};
        std::vector<std::thread> ts;
        for (int k = 0; k < n; k++)
            ts.emplace_back([&, k] {
                A &a = *actors[k];
                install(a, own[k]);
                ready.fetch_add(1, std::memory_order_relaxed);
                while (ready.load(std::memory_order_relaxed) < n) std::this_thread::yield();
                for (int z = 0; z < todo[k] && !a.done(); z++)
                {
                    disturb(own[k]);
                    tr.mark(k, false);
                    a.step();
                    tr.mark(k, true);
                }
                if (ph == phases - 1) a.finish();
            });
        for (auto &t : ts) t.join();
    }
    long overlaps = 0;
    Pack p;
    std::string o = tr.order(overlaps);
    p.add(o); p.add(std::to_string(overlaps)); p.add(std::to_string(phases));
    for (auto &a : actors) p.add(a->transcript());
    return p.s;
}

// the logger is the one thing controllers share (properties: C10); it is configured before the threads start
extern "C" const char *__tsan_default_suppressions() { return "race:mpc::Logger::\n"; }
