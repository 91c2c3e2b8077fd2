// Monitors of the linear controller: C26, and the linear halves of C10 and C11
#include "lm_actor.hpp"

// ------------------------------------------------------------------ C10, linear
CASE(C10L)
{
    int n = c.rng.i(2, 4);
    bool same = c.rng.chance(0.6);
    LRand o; o.maxph = 4;
    LDims d = randLDims(c.rng, o);
    std::vector<uint64_t> seeds;
    for (int k = 0; k < n; k++) seeds.push_back(c.rng.next());
    std::vector<std::string> alone;
    for (auto sd : seeds)
        alone.push_back(inChild([&] {
            LActor a(sd, same ? &d : nullptr);
            while (!a.done()) a.step();
            a.finish();
            return a.transcript();
        }));
    qp.clear();
    bool nest = c.rng.chance(0.5);
    std::string all = inChild([&] {
        std::vector<std::unique_ptr<LActor>> mixed;
        for (auto sd : seeds) mixed.push_back(std::make_unique<LActor>(sd, same ? &d : nullptr));
        std::string order; long nestedCount = 0; int depth = 0;
        auto pick = [&](int notMe) { std::vector<int> k; for (int i = 0; i < n; i++) if (i != notMe && !mixed[i]->done()) k.push_back(i); return k.empty() ? -1 : c.rng.pick(k); };
        if (nest)
            for (int i = 0; i < n; i++)
                mixed[i]->nested = [&, i] {
                    if (depth > 0 || !c.rng.chance(0.5)) return;
                    int k = pick(i);
                    if (k < 0) return;
                    depth++; nestedCount++;
                    order += MSG("(" << k << ")");
                    auto su = qp.onSetup; auto so = qp.onSolve;
                    mixed[k]->step();
                    qp.onSetup = su; qp.onSolve = so;
                    depth--;
                };
        for (int k = pick(-1); k >= 0; k = pick(-1)) { order += MSG(k); mixed[k]->step(); }
        for (auto &m : mixed) m->finish();
        Pack p;
        p.add(order); p.add(std::to_string(nestedCount)); p.add(qp.errors.empty() ? "" : qp.errors[0]);
        for (auto &m : mixed) { p.add(m->transcript()); p.add(m->d.s() + ", " + m->log); p.add(std::to_string(m->rec.size())); }
        return p.s;
    });
    Unpack u(all);
    std::string order = u.next();
    long nestedCount = atol(u.next().c_str());
    std::string err = u.next();
    EXPECT(err.empty(), "protocol", err << ", schedule " << order);
    for (int k = 0; k < n; k++)
    {
        std::string t = u.next(), what = u.next(); long values = atol(u.next().c_str());
        EXPECT(t == alone[k], "influenced", "linear controller " << k << " (" << what << ") behaves differently when interleaved " << order << " than alone in a process");
        c.count("linear_transcripts_compared");
        c.count("values_compared", values);
        c.obs((uint64_t)std::hash<std::string>()(t));
    }
    c.count("linear_nested_steps", nestedCount);
    c.obs((uint64_t)std::hash<std::string>()(order));
    c.nontrivial = order.size() > 4;
    c.note(MSG("C10 " << n << " linear controllers " << (same ? d.s() : std::string("of different size")) << " schedule " << order));
}

// ------------------------------------------------------------------ C11, linear
CASE(C11L)
{
    LDims d = c.rng.pick(linRegistry()).d;
    auto S = makeLin(d, true), D = makeLinDynamic(d);
    if (!S->isStatic || D->isStatic) { c.bad("harness", "no static twin"); return; }
    ILin *both[2] = {S.get(), D.get()};
    std::string log;
    if (c.rng.chance(0.8)) { uint64_t sd = c.rng.next(); for (auto m : both) { Rng r(sd); configure(r, *m); } }
    int ops = c.rng.hist(2, 16);
    auto eqRes = [](const LRes &a, const LRes &b) { return a.solver_status == b.solver_status && a.status == b.status && a.feasible == b.feasible && a.msg == b.msg && near(a.cost, b.cost, 1e-9) && near(a.cmd, b.cmd, 1e-9); };
    for (int k = 0; k <= ops && c.ok(); k++)
    {
        std::string at = MSG(" after " << log << ", " << d.s());
        int op = k == ops ? 9 : c.rng.i(0, 12);
        uint64_t sd = c.rng.next();
        if (op <= 5)
        {
            int ret[2]; std::string w[2];
            for (int z = 0; z < 2; z++) { Rng r(sd); ret[z] = randSetting(r, *both[z], w[z]); }
            log += w[0];
            EXPECT(ret[0] == ret[1], "return-value", "setting " << w[0] << "returns " << ret[0] % 10 << " static and " << ret[1] % 10 << " dynamic" << at);
            c.count("settings");
            continue;
        }
        if (op == 6) { for (auto m : both) { Rng r(sd); m->params(randPar(r)); } log += "par "; continue; }
        if (op == 7) { EXPECT(near(vec(S->warmX()), vec(D->warmX()), 1e-9) && near(vec(S->warmY()), vec(D->warmY()), 1e-6), "warm-vectors", "warm-start vectors differ" << at); log += "read "; continue; }
        if (op == 8) { EXPECT(S->refusesTs() == D->refusesTs() && S->refusesStateScale() == D->refusesStateScale() && S->refusesInputScale() == D->refusesInputScale(), "return-value", "refusals differ" << at); continue; }
        VectorXd x0 = c.rng.vec(d.nx), u0 = c.rng.vec(d.nu);
        Rng pr(sd);
        Plan p(pr, 0.3, 0.2);
        QpCall q[2]; LRes r[2]; LSeq e[2];
        for (int z = 0; z < 2; z++)
        {
            PlanHook h(p);
            qp.clear();
            r[z] = both[z]->optimize(x0, u0);
            if (qp.log.size() != 1) { c.bad("no-solver-call", MSG("the solver is set up " << qp.log.size() << " times by the " << (z ? "dynamic" : "static") << " controller" << at)); return; }
            q[z] = qp.log[0];
            EXPECT(qp.errors.empty(), "protocol", qp.errors[0] << at);
            e[z] = both[z]->seq();
        }
        EXPECT(near(q[0].P, q[1].P, 1e-11) && near(q[0].A, q[1].A, 1e-11), "program", "cost or constraint matrices differ" << at);
        EXPECT(near(q[0].q, q[1].q, 1e-11), "program", "linear costs differ: " << str(q[0].q.transpose()) << " / " << str(q[1].q.transpose()) << at);
        EXPECT(near(q[0].l, q[1].l, 1e-11) && near(q[0].u, q[1].u, 1e-11), "program", "limits differ: " << str(q[0].l.transpose()) << " / " << str(q[1].l.transpose()) << " and " << str(q[0].u.transpose()) << " / " << str(q[1].u.transpose()) << at);
        const OSQPSettings &a = q[0].set, &b = q[1].set;
        EXPECT(a.alpha == b.alpha && a.rho == b.rho && a.max_iter == b.max_iter && a.eps_abs == b.eps_abs && a.eps_rel == b.eps_rel && a.eps_prim_inf == b.eps_prim_inf && a.eps_dual_inf == b.eps_dual_inf && a.polish == b.polish && a.verbose == b.verbose && a.warm_start == b.warm_start && a.time_limit == b.time_limit && a.adaptive_rho == b.adaptive_rho,
               "parameters", "solver settings differ" << at);
        EXPECT(q[0].calls == q[1].calls && q[0].warmUsed == q[1].warmUsed && q[0].warm.size() == q[1].warm.size() && q[0].setupCode == q[1].setupCode, "calls", "the solver is used differently" << at);
        for (size_t z = 0; z < q[0].warm.size() && z < q[1].warm.size(); z++) EXPECT(near(q[0].warm[z].first, q[1].warm[z].first, 1e-9), "calls", "warm starts differ" << at);
        c.count("programs_compared");
        if (p.natural && q[0].status != q[1].status) { c.count("undecided"); break; }      // at the edge of feasibility
        if (p.natural)
        {
            if (!near(q[0].x, q[1].x, 1e-5)) { c.count("drifted"); break; }                // optimum not unique
            EXPECT(r[0].status == r[1].status && r[0].feasible == r[1].feasible && near(r[0].cmd, r[1].cmd, 1e-4), "result", "results differ: " << show(r[0]) << " / " << show(r[1]) << at);
            EXPECT(near(e[0].state, e[1].state, 1e-4) && near(e[0].input, e[1].input, 1e-4) && near(e[0].output, e[1].output, 1e-4), "sequence", "sequences differ" << at);
            log += "solve(real) ";
            c.count("real_solves_equal");
            // go on from the same vectors
            if (S->warmX().size() && S->warmX().size() == D->warmX().size()) { auto wx = S->warmX(), wy = S->warmY(); for (auto m : both) m->setWarm(wx, wy); }
        }
        else
        {
            EXPECT(eqRes(r[0], r[1]), "result", "results differ: " << show(r[0]) << " / " << show(r[1]) << at);
            EXPECT(near(e[0].state, e[1].state, 1e-11) && near(e[0].input, e[1].input, 1e-11) && near(e[0].output, e[1].output, 1e-11), "sequence", "sequences differ" << at);
            log += p.setup || p.code || p.poison >= 0 ? "solve(failing) " : "solve ";
            c.count("scripted_solves_equal");
        }
        EXPECT(S->solves() == D->solves() && S->statuses() == D->statuses(), "stats", "statistics differ" << at);
        c.obs(q[0].q); c.obs(q[0].l); c.obs(r[0].cmd);
        c.nontrivial = true;
    }
    c.note(MSG("C11 linear " << d.s() << " history: " << log));
}

// ------------------------------------------------------------------ C26
CASE(C26)
{
    long live = qp.live;
    std::string log;
    qp.clear();
    {
        std::vector<std::unique_ptr<ILin>> slot(c.rng.i(1, 3));
        LRand o; o.convex = true;
        if (c.rng.chance(0.15)) { o.maxnx = 8; o.maxnu = 5; o.maxny = 6; o.maxndu = 4; o.maxph = 14; }
        int ops = c.rng.hist(3, 30);
        auto birth = [&](std::unique_ptr<ILin> &p)
        {
            LDims d = randLDims(c.rng, o);
            if (c.rng.chance(0.2)) d = LDims{1, 1, 0, 1, 1, 1};
            p = makeLin(d, c.rng.chance(0.6));
            if (c.rng.chance(0.75)) configure(c.rng, *p);
            log += MSG("new(" << d.s() << (p->isStatic ? " static" : "") << ") ");
            c.count("controllers");
        };
        for (int k = 0; k < ops; k++)
        {
            auto &p = slot[c.rng.i(0, (int)slot.size() - 1)];
            c.count("operations");
            if (!p) { birth(p); if (c.rng.chance(0.1)) { p.reset(); log += "delete "; c.count("destroyed_unused"); } continue; }
            switch (c.rng.i(0, 11))
            {
            case 0: p->params(randPar(c.rng)); break;
            case 1: case 2: case 3: randSetting(c.rng, *p, log); break;
            case 4: if (c.rng.chance(0.4)) { p.reset(); log += "delete "; break; } [[fallthrough]];
            case 5: { LRes r = p->last(); LSeq q = p->seq(); c.obs(r.cmd); c.obs(r.cost); c.obs(q.state); c.obs(q.input); c.obs(q.output); c.obs(vec(p->warmX())); c.obs(vec(p->warmY())); c.obs(p->solves()); log += "read "; c.count("reads"); } break;
            case 6: { int n = (int)p->warmX().size(), m = (int)p->warmY().size(); if (n && m) { VectorXd a = c.rng.vec(n), b = c.rng.vec(m); p->setWarm({a.data(), a.data() + n}, {b.data(), b.data() + m}); log += "warm "; } } break;
            case 7: if (auto copy = p->clone()) { c.obs(copy->optimize(c.rng.vec(p->d.nx), c.rng.vec(p->d.nu)).cmd); c.count("copies"); }
                    if (c.rng.chance(0.5)) p->resetStats(); else (void)(p->refusesTs() || p->refusesInputScale()); break;
            default:
            {
                Plan a(c.rng, 0.2, 0.3);
                if (p->d.nz() > 50) a.natural = false;      // the exact solver of the stand-in is slow
                PlanHook h(a);
                LRes r = p->optimize(c.rng.vec(p->d.nx), c.rng.vec(p->d.nu));
                LSeq q = p->seq();
                c.obs(r.cmd); c.obs(r.cost); c.obs(r.status); c.obs(q.state); c.obs(q.input); c.obs(q.output);
                if (!qp.log.empty()) { QpCall &b = qp.log.back(); c.obs(b.P); c.obs(b.A); c.obs(b.q); c.obs(b.l); c.obs(b.u); for (auto &w : b.warm) { c.obs(w.first); c.obs(w.second); } EXPECT(b.malformed.empty(), "malformed", b.malformed << " (" << log << ")"); }
                c.count("solves");
                if (a.setup) c.count("setup_faults"); else if (a.code || a.poison >= 0) c.count("solve_faults");
                log += a.setup ? "solve! " : "solve ";
                c.nontrivial = true;
            }
            }
        }
    }
    EXPECT(qp.errors.empty(), "protocol", qp.errors[0] << " (" << log << ")");
    EXPECT(qp.live == live, "solver-object-leak", qp.live - live << " solver objects are not released (" << log << ")");
    c.note(MSG("C26 " << log));
}
