// Monitors of the non-linear controller: C10 C11 C12
#include "nl_actor.hpp"

static std::string show(const Res &r) { return MSG("solver_status=" << r.solver_status << " status=" << r.status << " feasible=" << r.feasible << " cost=" << r.cost << " cmd=" << str(r.cmd.transpose())); }

// ------------------------------------------------------------------ C10 (non-linear part)
CASE(C10)
{
    int n = c.rng.i(2, 4);
    bool same = c.rng.chance(0.6);
    ScnOpt o; o.maxph = 4;
    Dims d = c.rng.chance(0.5) && !staticRegistry().empty() ? c.rng.pick(staticRegistry()).d : randDims(c.rng, o);
    std::vector<uint64_t> seeds;
    for (int k = 0; k < n; k++) seeds.push_back(c.rng.next());
    std::vector<std::string> alone;
    for (auto sd : seeds)
        alone.push_back(inChild([&] {
            Actor a(sd, same ? &d : nullptr);
            while (!a.done()) a.step();
            a.finish();
            return a.transcript();
        }));
    bool nest = c.rng.chance(0.4);
    std::string all = inChild([&] {
        std::vector<std::unique_ptr<Actor>> mixed;
        for (auto sd : seeds) mixed.push_back(std::make_unique<Actor>(sd, same ? &d : nullptr));
        std::string order; long nestedCount = 0; int depth = 0;
        auto pick = [&](int notMe) { std::vector<int> k; for (int i = 0; i < n; i++) if (i != notMe && !mixed[i]->done()) k.push_back(i); return k.empty() ? -1 : c.rng.pick(k); };
        if (nest)
            for (int i = 0; i < n; i++)
                mixed[i]->nested = [&, i] {
                    if (depth > 0 || !c.rng.chance(0.3)) return;
                    int k = pick(i);
                    if (k < 0) return;
                    depth++; nestedCount++;
                    order += MSG("(" << k << ")");
                    mixed[k]->step();
                    depth--;
                };
        for (int k = pick(-1); k >= 0; k = pick(-1)) { order += MSG(k); mixed[k]->step(); }
        for (auto &m : mixed) m->finish();
        Pack p;
        p.add(order); p.add(std::to_string(nestedCount));
        for (auto &m : mixed) { p.add(m->transcript()); p.add(m->s->s()); p.add(std::to_string(m->rec.size())); }
        return p.s;
    });
    Unpack u(all);
    std::string order = u.next();
    long nestedCount = atol(u.next().c_str());
    for (int k = 0; k < n; k++)
    {
        std::string t = u.next(), what = u.next(); long values = atol(u.next().c_str());
        EXPECT(t == alone[k], "influenced", "controller " << k << " (" << what << ") behaves differently when interleaved " << order << " than alone in a process");
        c.count("transcripts_compared");
        c.count("values_compared", values);
        c.obs((uint64_t)std::hash<std::string>()(t));
    }
    c.count("nested_steps", nestedCount);
    c.obs((uint64_t)std::hash<std::string>()(order));
    c.nontrivial = order.size() > 4;
    c.note(MSG("C10 " << n << " controllers " << (same ? d.s() : std::string("of different size")) << " schedule " << order));
}

// ------------------------------------------------------------------ C11 (non-linear part)
CASE(C11)
{
    ScnOpt o;
    o.allowStatic = false;
    o.lq = c.rng.chance(0.3);
    o.pScale = 0.4;
    o.mag = c.rng.chance(0.2) ? 30 : 1;
    Dims d = c.rng.pick(staticRegistry()).d;
    auto sp = randScn(c.rng, o, &d);
    Scn &s = *sp;
    if (o.lq) { s.hasEq = false; s.tolS = -1; }
    auto S = makeCtl(d, true), D = makeDynamic(d);
    if (!S->isStatic) { c.bad("harness", "no static controller"); return; }
    s.configure(*S); s.configure(*D);
    NLPar par;
    std::string log;
    Bounds b; b.reset(d);
    int calls = c.rng.hist(1, 4);
    for (int t = 0; t < calls && c.ok(); t++)
    {
        int n = c.rng.i(0, 3);
        for (int k = 0; k < n; k++)
        {
            switch (c.rng.i(0, 4))
            {
            case 0: par.maxeval = o.lq ? 2000 : c.rng.i(2, 40); par.hard = c.rng.chance(0.5); par.warm = c.rng.chance(0.4); par.time_limit = c.rng.chance(0.3) ? 30 : 0; par.rel_x = c.rng.chance(0.5) ? 1e-10 : -1; par.rel_f = o.lq ? 1e-13 : -1; S->setParams(par); D->setParams(par); log += "par "; break;
            case 1:
            {
                bool st = c.rng.chance(0.5);
                int H = st ? d.ph : d.ch, m = st ? d.nx : d.nu;
                VectorXd lo = -c.rng.vec(m, 0.3, 2).cwiseProduct(st ? s.mx : s.mu), up = -lo;
                int a = c.rng.i(-2, H + 1), e = c.rng.i(-2, H + 2);
                bool r1 = st ? S->stateBounds(lo, up, a, e) : S->inputBounds(lo, up, a, e), r2 = st ? D->stateBounds(lo, up, a, e) : D->inputBounds(lo, up, a, e);
                EXPECT(r1 == r2, "return-value", "setting bounds for {" << a << "," << e << "} returns " << r1 << " static and " << r2 << " dynamic, " << s.s());
                log += MSG("b{" << a << "," << e << "} ");
            } break;
            case 2:
            {
                bool st = c.rng.chance(0.5);
                int H = st ? d.ph : d.ch, m = st ? d.nx : d.nu;
                MatrixXd lo = -c.rng.mat(m, H, 0.3, 2), up = -lo;
                bool r1 = st ? S->stateBoundsMat(lo, up) : S->inputBoundsMat(lo, up), r2 = st ? D->stateBoundsMat(lo, up) : D->inputBoundsMat(lo, up);
                EXPECT(r1 == r2, "return-value", "setting bounds as matrices returns " << r1 << " static and " << r2 << " dynamic, " << s.s());
                log += "bm ";
            } break;
            case 3: for (int j = 0; j < d.nx; j++) s.sx(j) = s.mx(j) * c.rng.logu(0.1, 10); S->setStateScale(s.sx); D->setStateScale(s.sx); log += "sx "; break;
            default: for (int j = 0; j < d.nu; j++) s.su(j) = s.mu(j) * c.rng.logu(0.1, 10); S->setInputScale(s.su); D->setInputScale(s.su); log += "su "; break;
            }
        }
        VectorXd x0 = s.randX0(c.rng), u0 = s.randU0(c.rng);
        std::vector<Point> pts;
        for (int z = 0; z < 2; z++) pts.push_back(randPoint(c.rng, s, x0));
        int mode = c.rng.i(0, 3);     // 0: real solve, 1,2: random stop point, 3: failure
        int forced = mode == 3 ? -c.rng.i(1, 5) : c.rng.i(1, 6);
        Point stop = randPoint(c.rng, s, x0, par.hard ? 0 : 1);
        struct Seen { bool ok = false; VectorXd lb, ub, guess, par, J, tI, tE, gI, gE; std::vector<VectorXd> grad, G, E; std::vector<MatrixXd> jG, jE; int code = 0; } q[2];
        int lead = c.rng.i(0, 1);      // the controller whose real solve is followed by the other one
        std::vector<VectorXd> path; std::vector<double> cost; VectorXd last; bool tie = false;
        Res r[2];
        for (int k : {lead, 1 - lead})
        {
            HookGuard h([&, k](Program &p, double *x, double *f) {
                Seen &w = q[k];
                Decode dec(p, s, x0);
                if (!dec.ok) { c.bad("layout", MSG((k ? "dynamic: " : "static: ") << dec.why << " " << s.s())); return NLOPT_FAILURE; }
                w.ok = true;
                w.lb = p.lb; w.ub = p.ub; w.guess = p.guess;
                w.par.resize(6); w.par << p.ftol_rel, p.ftol_abs, p.xtol_rel, p.maxtime, p.maxeval, p.xtol_abs(0);
                w.tI = p.tolerances(false); w.tE = p.tolerances(true);
                w.J.resize(pts.size());
                for (size_t z = 0; z < pts.size(); z++)
                {
                    VectorXd v = dec.toV(pts[z]), g; MatrixXd A, B;
                    w.J(z) = p.objective(v, &g);
                    w.grad.push_back(g);
                    w.G.push_back(p.constraints(false, v, &A)); w.E.push_back(p.constraints(true, v, &B));
                    w.jG.push_back(A); w.jE.push_back(B);
                }
                auto nearTie = [&](const VectorXd &v)
                {   // whether rounding may decide about the feasibility
                    VectorXd G = p.constraints(false, v), E = p.constraints(true, v);
                    for (int z = 0; z < G.size(); z++) tie |= std::fabs(G(z) - w.tI(z)) < 1e-8 * (1 + std::fabs(G(z)));
                    for (int z = 0; z < E.size(); z++) tie |= std::fabs(std::fabs(E(z)) - w.tE(z)) < 1e-8 * (1 + std::fabs(E(z)));
                };
                if (mode == 0 && k == lead)
                {
                    long seen = 0;
                    s.mon.obj = [&](const MatrixXd &X, const MatrixXd &, const MatrixXd &U, double e) {
                        if (seen++ % 5 || path.size() >= 60) return;
                        Point q = stop; q.X = X; q.U = U; q.e = e;
                        path.push_back(dec.toV(q));
                    };
                    w.code = p.real(x, f);
                    s.mon.obj = nullptr;
                    for (auto &v : path) cost.push_back(p.objective(v));
                    last = Eigen::Map<VectorXd>(x, p.n);
                    forced = w.code;
                    if (w.code > 0) nearTie(last);
                    return (nlopt_result)w.code;
                }
                if (mode == 0)
                {   // the other controller is asked for the same points and stopped at the same one
                    for (size_t z = 0; z < path.size() && c.ok(); z++)
                    {
                        double v = p.objective(path[z]);
                        EXPECT(near(v, cost[z], 1e-10), "objective", "at a point visited by the solver the objectives are " << v << " and " << cost[z] << " after " << log << ", " << s.s());
                        c.count("visited_points_compared");
                    }
                    for (int z = 0; z < p.n; z++) x[z] = last(z);
                    *f = p.objective(last);
                    return (nlopt_result)(w.code = forced);
                }
                VectorXd v = dec.toV(stop);
                for (int z = 0; z < p.n; z++) x[z] = v(z);
                *f = p.objective(v);
                nearTie(v);
                return (nlopt_result)(w.code = forced);
            });
            r[k] = k ? D->optimize(x0, u0) : S->optimize(x0, u0);
        }
        if (!c.ok()) return;
        Seen &a = q[0], &e = q[1];
        if (!a.ok || !e.ok) { c.bad("no-solver-call", MSG("solver not called: static " << a.ok << " dynamic " << e.ok)); return; }
        std::string at = " after " + log + ", " + s.s();
        // problems that have been fed by unequal real solves may start elsewhere
        EXPECT(near(a.lb, e.lb, 1e-12) && near(a.ub, e.ub, 1e-12), "bounds", "bounds differ: " << str(a.lb.transpose()) << " / " << str(e.lb.transpose()) << at);
        EXPECT(near(a.guess, e.guess, 1e-9), "guess", "initial guesses differ: " << str(a.guess.transpose()) << " / " << str(e.guess.transpose()) << at);
        EXPECT(near(a.par, e.par, 1e-15), "parameters", "parameters differ: " << str(a.par.transpose()) << " / " << str(e.par.transpose()) << at);
        EXPECT(near(a.tI, e.tI, 1e-12) && near(a.tE, e.tE, 1e-12), "tolerances", "tolerances differ: " << str(a.tI.transpose()) << " " << str(a.tE.transpose()) << " / " << str(e.tI.transpose()) << " " << str(e.tE.transpose()) << at);
        EXPECT(near(a.J, e.J, 1e-11), "objective", "objective values differ: " << str(a.J.transpose()) << " / " << str(e.J.transpose()) << at);
        for (size_t z = 0; z < pts.size(); z++)
        {
            EXPECT(near(a.G[z], e.G[z], 1e-10) && near(a.E[z], e.E[z], 1e-10), "constraints", "constraint values differ: " << str(a.E[z].transpose()) << " / " << str(e.E[z].transpose()) << at);
            EXPECT(near(a.grad[z], e.grad[z], 1e-5 * std::max(1.0, s.mag())), "objective-gradient", "objective gradients differ: " << str(a.grad[z].transpose()) << " / " << str(e.grad[z].transpose()) << at);
            EXPECT(near(a.jG[z], e.jG[z], 1e-5 * std::max(1.0, s.mag())) && near(a.jE[z], e.jE[z], 1e-5 * std::max(1.0, s.mag())), "constraint-gradients", "constraint gradients differ" << at);
            c.count("points_compared");
        }
        EXPECT(r[0].status == r[1].status && r[0].solver_status == r[1].solver_status && (tie || r[0].feasible == r[1].feasible) && ((mode == 0 && forced < 0) || r[0].msg == r[1].msg) && near(r[0].cost, r[1].cost, 1e-10) && near(r[0].cmd, r[1].cmd, 1e-9), "result", "results differ: " << show(r[0]) << " / " << show(r[1]) << at);
        {
            Seq x = S->seq(), y = D->seq();
            EXPECT(near(x.state, y.state, 1e-9) && near(x.input, y.input, 1e-9) && near(x.output, y.output, 1e-9), "sequence", "sequences differ" << at);
        }
        if (mode == 0) c.count("real_solves_followed"); else c.count("scripted_nonlinear_solves");
        Stats x = S->stats(), y = D->stats();
        EXPECT(x.n == y.n, "stats", "statistics differ" << at);
        c.obs(a.J); c.obs(a.guess);
        log += "solve ";
        c.nontrivial = true;
    }
    c.note(MSG("C11 " << s.s() << " history: " << log));
}

// ------------------------------------------------------------------ C12: anything, in any order, under the sanitizers
CASE(C12)
{
    long live = spyLive;
    {
        ScnOpt o;
        o.maxph = c.rng.chance(0.1) ? 15 : 6; o.maxnx = c.rng.chance(0.1) ? 7 : 3; o.pScale = 0.4; o.maxineq = 4;
        if (c.rng.chance(0.3)) o.maxph = 1;
        auto sp = randScn(c.rng, o);
        Scn &s = *sp;
        const Dims &d = s.d;
        auto ctl = makeCtl(d, s.wantStatic);
        bool model = false, obj = false;
        int ops = c.rng.hist(3, 25);
        std::string log;
        Bounds b; b.reset(d);
        if (c.rng.chance(0.8)) { s.configure(*ctl); model = obj = true; }
        for (int k = 0; k < ops; k++)
        {
            int op = c.rng.i(0, 16);
            c.count("operations");
            switch (op)
            {
            case 0: ctl->setTs(s.Ts); s.cont = true; break;
            case 1: ctl->setState(s.stateF(), s.tolS); model = true; break;
            case 2: if (d.ny) { ctl->setOutput(s.outF()); s.hasOut = true; } break;
            case 3: ctl->setObjective(s.objF()); obj = true; break;
            case 4: if (d.ineq) { ctl->setIneq(s.ineqF(), s.tolI); s.hasIneq = true; } break;
            case 5: if (d.eq) { ctl->setEq(s.eqF(), s.tolE); s.hasEq = true; } break;
            case 6: { NLPar p; p.maxeval = c.rng.i(1, 20); p.hard = c.rng.chance(0.5); p.warm = c.rng.chance(0.5); p.time_limit = c.rng.chance(0.2) ? 5 : 0; ctl->setParams(p); } break;
            case 7: { VectorXd v(d.nx); for (int j = 0; j < d.nx; j++) v(j) = c.rng.logu(0.1, 10); ctl->setStateScale(v); } break;
            case 8: { VectorXd v(d.nu); for (int j = 0; j < d.nu; j++) v(j) = c.rng.logu(0.1, 10); ctl->setInputScale(v); } break;
            case 9: case 10: { auto keep = c.violations; randomBoundCall(c, s, *ctl, b, VectorXd(), log); c.violations = keep; } break;
            case 11: { Res r = ctl->last(); Seq q = ctl->seq(); Stats st = ctl->stats(); c.obs(r.cmd); c.obs(q.state); c.obs(q.input); c.obs(q.output); c.obs(st.n); } break;
            case 12:
                if (auto copy = ctl->clone())
                {   // a copy is a controller of its own
                    if (model && obj) { Res r = copy->optimize(s.randX0(c.rng), s.randU0(c.rng)); c.obs(r.cost); }
                    c.count("copies");
                }
                if (c.rng.chance(0.3)) { ctl.reset(); ctl = makeCtl(d, s.wantStatic); model = obj = false; b.reset(d); if (c.rng.chance(0.8)) { s.configure(*ctl); model = obj = true; } } break;
            case 13: if (c.rng.chance(0.3)) ctl->resetStats(); else if (d.ny) { try { ctl->outputBounds(VectorXd::Zero(d.ny), VectorXd::Ones(d.ny), -1, -1); } catch (const std::exception &) {} } break;
            default:
                if (!model || !obj) break;
                if (op == 16 && c.rng.chance(0.5))
                {   // a callback throws
                    long n = 0, at = c.rng.i(0, 50);
                    int which = c.rng.i(0, 3);
                    auto hit = [&] { if (spyInSolver && n++ == at) throw std::runtime_error("fault"); };
                    if (which == 0) s.mon.obj = [&](const MatrixXd &, const MatrixXd &, const MatrixXd &, double) { hit(); };
                    if (which == 1) s.mon.state = [&](int, const VectorXd &, const VectorXd &, unsigned) { hit(); };
                    if (which == 2) s.mon.ineq = [&](int, const MatrixXd &, const MatrixXd &, const MatrixXd &, double) { hit(); };
                    if (which == 3) s.mon.out = [&](int, const VectorXd &, const VectorXd &, unsigned) { hit(); };
                    Res r = ctl->optimize(s.randX0(c.rng), s.randU0(c.rng));
                    s.mon.clear();
                    c.count("faulty_solves");
                    c.obs(r.cost);
                    break;
                }
                Res r = ctl->optimize(s.randX0(c.rng), s.randU0(c.rng));
                Seq q = ctl->seq();
                c.obs(r.cost); c.obs(r.cmd); c.obs(q.state); c.obs(q.input); c.obs(q.output); c.obs(r.status);
                c.count("solves");
                c.nontrivial = true;
            }
        }
        c.note(MSG("C12 " << s.s() << " operations=" << ops));
    }
    EXPECT(spyLive == live, "solver-object-leak", spyLive - live << " nlopt objects are not released");
}
