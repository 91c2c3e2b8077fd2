// Helpers shared by the monitors of the non-linear controller
#pragma once
#include "nl_scn.hpp"
#include <algorithm>

inline const double TINY = 1e-9;
enum { ST_SUCCESS, ST_MAXIT, ST_INFEAS, ST_ERROR, ST_UNKNOWN };

inline VectorXd sorted(VectorXd v) { std::sort(v.data(), v.data() + v.size()); return v; }

// one random bound setting, applied to controller and model; returns false on a wrong return value
inline void randomBoundCall(Ctx &c, Scn &s, ICtl &ctl, Bounds &b, const VectorXd &x0, std::string &log)
{
    const Dims &d = s.d;
    Rng &g = c.rng;
    auto pair = [&](int n, const VectorXd &m) {
        VectorXd lo(n), up(n);
        double far = g.chance(0.05) ? g.chance(0.3) ? g.logu(1e9, 1e60) : g.logu(1e-6, 1e9) : 1;
        for (int j = 0; j < n; j++)
        {
            double ctr = g.uni(-1.5, 1.5) * m(j) * far, w = g.chance(0.1) ? 0 : g.uni(0, 2) * m(j) * far;
            lo(j) = g.chance(0.15) ? -INF : ctr - w; up(j) = g.chance(0.15) ? INF : ctr + w;
        }
        return std::make_pair(lo, up);
    };
    int kind = g.i(0, 5);
    bool st = g.chance(0.5);
    int H = st ? d.ph : d.ch, n = st ? d.nx : d.nu;
    auto P = pair(n, st ? s.mx : s.mu);
    MatrixXd &L = st ? b.xl : b.ul, &U = st ? b.xu : b.uu;
    bool ret;
    if (g.chance(0.15))
    {   // nearly the bounds in force
        int k = g.i(0, H - 1);
        double w = g.logu(1e-9, 1e-2);
        for (int j = 0; j < n; j++)
        {
            double m = (st ? s.mx(j) : s.mu(j)), lo = L(j, k), up = U(j, k);
            if (g.chance(0.6)) { double t = g.uni(-w, w) * m; lo += t; up += t; }
            if (g.chance(0.6) && std::isfinite(lo) && std::isfinite(up)) { double mid = (lo + up) / 2, h = (up - lo) / 2 * (1 + g.uni(-w, w)); lo = mid - h; up = mid + h; }
            P.first(j) = lo; P.second(j) = up;
        }
        if (kind == 0) kind = g.i(1, 3);
    }
    if (kind == 0)
    {
        MatrixXd a(n, H), e(n, H);
        for (int k = 0; k < H; k++) { auto q = pair(n, st ? s.mx : s.mu); a.col(k) = q.first; e.col(k) = q.second; }
        ret = st ? ctl.stateBoundsMat(a, e) : ctl.inputBoundsMat(a, e);
        EXPECT(ret, "refused-valid", "bounds given as matrices are refused");
        L = a; U = e;
        log += st ? "Xmat " : "Umat ";
    }
    else
    {
        int a, e; bool valid;
        if (kind == 1) { a = e = -1; valid = true; }
        else if (kind <= 3) { a = g.i(0, H - 1); e = g.i(a + 1, H); valid = true; }
        else
        {
            do { a = g.i(-3, H + 2); e = g.i(-3, H + 2); if (g.chance(0.1)) (g.chance(0.5) ? a : e) = g.pick(std::vector<int>{INT_MIN, INT_MAX, 65536, 65536 + H, 256, -65536, 1 << 30}); } while ((a == -1 && e == -1) || (a >= 0 && a < e && e <= H));
            valid = false;
        }
        ret = st ? ctl.stateBounds(P.first, P.second, a, e) : ctl.inputBounds(P.first, P.second, a, e);
        log += MSG((st ? "X{" : "U{") << a << "," << e << "} ");
        if (valid)
        {
            EXPECT(ret, "refused-valid", "valid " << (st ? "state" : "input") << " slice {" << a << "," << e << "} of horizon " << H << " is refused");
            for (int k = a < 0 ? 0 : a; k < (e < 0 ? H : e); k++) { L.col(k) = P.first; U.col(k) = P.second; }
        }
        else
            EXPECT(!ret, "accepted-invalid", "invalid " << (st ? "state" : "input") << " slice {" << a << "," << e << "} of horizon " << H << " is accepted");
        c.count(valid ? "valid_settings" : "invalid_settings");
    }
    (void)x0;
}
// bounds the solver has, in physical units
inline void compareBounds(Ctx &c, Program &p, Decode &dec, Scn &s, const Bounds &b, const std::string &log)
{
    for (int i = 0; i < p.n; i++)
    {
        auto &w = dec.vars[i];
        if (w.kind == 2) continue;
        double lo = p.lb(i) * w.scale, up = p.ub(i) * w.scale;
        if (w.scale < 0) std::swap(lo, up);
        double L = w.kind == 0 ? b.xl(w.j, w.k - 1) : b.ul(w.j, w.k), U = w.kind == 0 ? b.xu(w.j, w.k - 1) : b.uu(w.j, w.k);
        EXPECT(near(lo, L, 1e-9) && near(up, U, 1e-9), w.kind == 0 ? "state-bounds" : "input-bounds",
               (w.kind == 0 ? "state " : "input ") << w.j << " of step " << (w.kind == 0 ? w.k - 1 : w.k) << " is bounded by [" << lo << "," << up << "] instead of [" << L << "," << U << "] after " << log << ", " << s.s());
        c.count("bounds_compared");
    }
}

// a great many evaluations: a long solve changes nothing either
inline void ageing(Program &p, const VectorXd &v, Rng &g)
{
    if (p.n > 60) return;
    for (int n = (int)g.logu(100, 3000); n > 0; n--) p.objective(v);
    VectorXd gr; MatrixXd J;
    for (int n = (int)g.logu(10, 300); n > 0; n--) { p.objective(v, &gr); p.constraints(false, v); p.constraints(true, v, n % 10 ? nullptr : &J); }
}
// evaluates the program at points that share most variables with v (and at others), with and without derivatives:
// what is observed at v afterwards must not depend on where the program was evaluated before
inline void stir(Program &p, const Decode &dec, const VectorXd &v, Rng &g)
{
    if (g.chance(0.01)) ageing(p, v, g);
    if (g.chance(0.4)) return;
    int n = g.i(1, 3);
    for (int z = 0; z < n; z++)
    {
        VectorXd w = v;
        auto move = [&](int i, double size) { double unit = (dec.vars[i].kind == 0 ? dec.s.mx(dec.vars[i].j) : dec.vars[i].kind == 1 ? dec.s.mu(dec.vars[i].j) : 1.0) / dec.vars[i].scale; w(i) += size * unit * g.uni(-1, 1); };
        double size = g.logu(1e-7, 1);
        switch (g.i(0, 4))
        {
        case 0: case 1: { int kind = g.i(0, 2); for (int i = 0; i < p.n; i++) if (dec.vars[i].kind == kind) move(i, size); } break;
        case 2: move(g.i(0, p.n - 1), size); break;
        case 3: for (int i = 0; i < p.n; i++) move(i, size); break;
        default: break;      // the same point
        }
        VectorXd gr; MatrixXd J;
        int what = g.i(1, 7);
        if (what & 1) p.objective(w, g.chance(0.6) ? &gr : nullptr);
        if (what & 2) p.constraints(false, w, g.chance(0.6) ? &J : nullptr);
        if (what & 4) p.constraints(true, w, g.chance(0.6) ? &J : nullptr);
    }
}
