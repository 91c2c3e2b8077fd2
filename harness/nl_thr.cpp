// C10: non-linear controllers on threads of their own, under the thread sanitizer. The solver is not interposed.
#include "nl_actor.hpp"
#include "threads.hpp"
#include <mpc/Logger.hpp>

CASE(C10T)
{
    mpc::Logger::instance().setLevel(mpc::Logger::log_level::NONE);
    int n = c.rng.i(2, 5);
    bool same = c.rng.chance(0.6);
    ScnOpt o; o.maxph = 4;
    Dims d = c.rng.chance(0.5) && !staticRegistry().empty() ? c.rng.pick(staticRegistry()).d : randDims(c.rng, o);
    std::vector<uint64_t> seeds;
    for (int k = 0; k < n; k++) seeds.push_back(c.rng.next());
    std::vector<std::string> alone;
    for (auto sd : seeds)
        alone.push_back(inChild([&] { Actor a(sd, same ? &d : nullptr); while (!a.done()) a.step(); a.finish(); return a.transcript(); }));
    std::string all = inChild([&] {
        std::vector<std::unique_ptr<Actor>> as;
        for (auto sd : seeds) as.push_back(std::make_unique<Actor>(sd, same ? &d : nullptr));
        return runThreads<Actor>(as, c.rng, [](Actor &a, Rng &r) { a.nested = [&r] { disturb(r); }; });
    });
    Unpack u(all);
    std::string order = u.next();
    long overlaps = atol(u.next().c_str()), phases = atol(u.next().c_str());
    for (int k = 0; k < n; k++)
    {
        std::string t = u.next();
        EXPECT(t == alone[k], "influenced", "controller " << k << " of " << n << " behaves differently on a thread of its own, next to the others (" << order << "), than alone in a process");
        c.count("threads_compared");
    }
    c.count("overlapping_steps", overlaps);
    c.count("moved_between_threads", phases > 1 ? n : 0);
    c.obs((uint64_t)std::hash<std::string>()(order));
    c.nontrivial = overlaps > 0;
    c.note(MSG("C10T " << n << " threads, steps " << order));
}

// not used here: programs are not recorded
double Program::objective(const VectorXd &, VectorXd *) { return 0; }
VectorXd Program::constraints(bool, const VectorXd &, MatrixXd *) { return VectorXd(); }
VectorXd Program::tolerances(bool) { return VectorXd(); }
