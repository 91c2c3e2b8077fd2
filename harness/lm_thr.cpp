// C10: linear controllers on threads of their own, under the thread sanitizer
#include "lm_actor.hpp"
#include "threads.hpp"
#include <mpc/Logger.hpp>

CASE(C10TL)
{
    mpc::Logger::instance().setLevel(mpc::Logger::log_level::NONE);
    int n = c.rng.i(2, 5);
    bool same = c.rng.chance(0.6);
    LRand o; o.maxph = 4;
    LDims d = randLDims(c.rng, o);
    std::vector<uint64_t> seeds;
    for (int k = 0; k < n; k++) seeds.push_back(c.rng.next());
    std::vector<std::string> alone;
    for (auto sd : seeds)
        alone.push_back(inChild([&] { LActor a(sd, same ? &d : nullptr); while (!a.done()) a.step(); a.finish(); return a.transcript(); }));
    std::string all = inChild([&] {
        std::vector<std::unique_ptr<LActor>> as;
        for (auto sd : seeds) as.push_back(std::make_unique<LActor>(sd, same ? &d : nullptr));
        return runThreads<LActor>(as, c.rng, [](LActor &a, Rng &r) { a.nested = [&r] { disturb(r); }; });
    });
    Unpack u(all);
    std::string order = u.next();
    long overlaps = atol(u.next().c_str()), phases = atol(u.next().c_str());
    for (int k = 0; k < n; k++)
    {
        std::string t = u.next();
        EXPECT(t == alone[k], "influenced", "controller " << k << " of " << n << " behaves differently on a thread of its own, next to the others (" << order << "), than alone in a process");
        c.count("linear_threads_compared");
    }
    c.count("linear_overlapping_steps", overlaps);
    c.count("linear_moved_between_threads", phases > 1 ? n : 0);
    c.obs((uint64_t)std::hash<std::string>()(order));
    c.nontrivial = overlaps > 0;
    c.note(MSG("C10TL " << n << " threads, steps " << order));
}
