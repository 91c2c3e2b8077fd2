// Controllers with a life of their own, for the monitors of C10
#pragma once
#include "nl_util.hpp"

// a controller with its own script: everything it does depends on its seed only
struct Actor
{
    Rng g; std::shared_ptr<Scn> s; std::unique_ptr<ICtl> ctl; int ops, at = 0, life = 0;
    std::vector<MatrixXd> rec; std::vector<int> codes;
    std::function<void()> nested;      // called from inside the objective
    long calls = 0;
    Actor(uint64_t seed, const Dims *d) : g(seed)
    {
        ScnOpt o; o.maxph = 4; o.pScale = 0.3; o.allowStatic = !d; o.pStatic = 0.5;
        s = randScn(g, o, d);
        if (d) s->wantStatic = g.chance(0.5);
        ops = g.hist(4, 9);
    }
    bool done() const { return at >= ops; }
    void put(const MatrixXd &m) { rec.push_back(m); }
    void step()
    {
        at++;
        if (!ctl)
        {
            s->mon.obj = [this](const MatrixXd &, const MatrixXd &, const MatrixXd &, double) { if (++calls % 7 == 3 && nested) nested(); };
            if (g.chance(0.3)) { ctl = makeCtl(s->d, s->wantStatic); Seq q = ctl->seq(); put(q.state); put(ctl->last().cmd); s->configure(*ctl); }
            else ctl = s->make();
            life++;
            return;
        }
        const Dims &d = s->d;
        switch (g.i(0, 9))
        {
        case 0: { NLPar p; p.maxeval = g.i(2, 12); p.hard = g.chance(0.5); p.warm = g.chance(0.5); ctl->setParams(p); } break;
        case 1: { VectorXd lo = -g.vec(d.nu, 0.2, 2); codes.push_back(ctl->inputBounds(lo, -lo, -1, -1)); } break;
        case 2: { VectorXd lo = -g.vec(d.nx, 1, 3); int e = g.i(1, d.ph); codes.push_back(ctl->stateBounds(lo, -lo, g.i(0, e), e)); } break;
        case 3: { VectorXd v(d.nx); for (int j = 0; j < d.nx; j++) v(j) = g.logu(0.1, 10); ctl->setStateScale(v); } break;
        case 4: if (g.chance(0.5)) { ctl.reset(); codes.push_back(777); break; } [[fallthrough]];
        default:
        {
            VectorXd x0 = s->randX0(g), u0 = s->randU0(g);
            Res r = ctl->optimize(x0, u0);
            Seq q = ctl->seq();
            put(r.cmd); put(q.state); put(q.input); put(q.output); put(VectorXd::Constant(1, r.cost));
            codes.push_back(r.solver_status); codes.push_back(r.status); codes.push_back(r.feasible);
            codes.push_back(ctl->stats().n);
        }
        }
    }
    std::string transcript() const { Bytes b; for (long k : codes) b.put(k); b.put((long)-1); for (auto &m : rec) b.put(m); return b.s; }
    void finish() { if (ctl) { Res r = ctl->last(); put(r.cmd); Seq q = ctl->seq(); put(q.input); ctl.reset(); } }
};
