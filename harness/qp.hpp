// Dense convex quadratic programming by a primal-dual interior point method that certifies its own answer:
//   min 1/2 x'Px + q'x   s.t.  l <= Ax <= u
#pragma once
#include "common.hpp"

struct QPSol
{
    int status = -1;          // 0 solved (KKT verified), 1 primal infeasible, -1 no certified answer
    VectorXd x, y;            // y: multiplier of each row of A, negative at lower, positive at upper limits (Px+q+A'y=0)
    double obj = 0;
    double kkt = INF;         // largest KKT residual (scaled)
};

inline double qpKkt(const MatrixXd &P, const VectorXd &q, const MatrixXd &A, const VectorXd &l, const VectorXd &u, const VectorXd &x, const VectorXd &y)
{
    VectorXd g = P * x + q + A.transpose() * y, ax = A * x;
    double sc = 1 + q.cwiseAbs().maxCoeff();
    if (y.size()) sc += std::min(y.cwiseAbs().maxCoeff(), 100 * sc);       // huge multipliers do not excuse anything
    double r = g.cwiseAbs().maxCoeff() / sc;
    for (int i = 0; i < ax.size(); i++)
    {
        double b = 1 + std::fabs(ax(i));
        if (std::isfinite(l(i))) r = std::max(r, (l(i) - ax(i)) / b);
        if (std::isfinite(u(i))) r = std::max(r, (ax(i) - u(i)) / b);
        if (y(i) > 0) r = std::max(r, std::isfinite(u(i)) ? y(i) * std::fabs(u(i) - ax(i)) / b / sc : y(i) / sc);
        if (y(i) < 0) r = std::max(r, std::isfinite(l(i)) ? -y(i) * std::fabs(ax(i) - l(i)) / b / sc : -y(i) / sc);
    }
    return r;
}

inline QPSol qpIpm(const MatrixXd &P, const VectorXd &q, const MatrixXd &A, const VectorXd &l, const VectorXd &u, double tol = 1e-9)
{
    const int n = (int)q.size(), m = (int)l.size();
    QPSol s;
    s.x = VectorXd::Zero(n); s.y = VectorXd::Zero(m);
    std::vector<int> eq, side, row;            // inequality k: side*A(row) x <= side*limit
    for (int i = 0; i < m; i++)
    {
        if (l(i) > u(i)) { s.status = 1; return s; }
        if (std::isfinite(l(i)) && std::isfinite(u(i)) && u(i) - l(i) <= 1e-12 * std::max(1.0, std::fabs(u(i)))) eq.push_back(i);
        else
        {
            if (std::isfinite(u(i)) && u(i) < 1e25) { row.push_back(i); side.push_back(1); }
            if (std::isfinite(l(i)) && l(i) > -1e25) { row.push_back(i); side.push_back(-1); }
        }
    }
    const int ne = (int)eq.size(), ni = (int)row.size();
    MatrixXd E(ne, n), G(ni, n); VectorXd b(ne), h(ni);
    for (int k = 0; k < ne; k++) { E.row(k) = A.row(eq[k]); b(k) = 0.5 * (l(eq[k]) + u(eq[k])); }
    for (int k = 0; k < ni; k++) { G.row(k) = side[k] * A.row(row[k]); h(k) = side[k] > 0 ? u(row[k]) : -l(row[k]); }
    VectorXd x = VectorXd::Zero(n), y = VectorXd::Zero(ne), z = VectorXd::Ones(ni), t = VectorXd::Ones(ni);
    const double reg = 1e-11 * std::max(1.0, P.size() ? P.cwiseAbs().maxCoeff() : 0.0);
    auto kktSolve = [&](Eigen::PartialPivLU<MatrixXd> &lu, const MatrixXd &K, const VectorXd &r) {
        VectorXd v = lu.solve(r);
        for (int k = 0; k < 3; k++) v += lu.solve(r - K * v);
        return v;
    };
    auto factor = [&](const VectorXd &w, MatrixXd &K) {
        K = MatrixXd::Zero(n + ne, n + ne);
        K.topLeftCorner(n, n) = P;
        if (ni) K.topLeftCorner(n, n) += G.transpose() * w.asDiagonal() * G;
        K.topRightCorner(n, ne) = E.transpose(); K.bottomLeftCorner(ne, n) = E;
        MatrixXd R = K;
        for (int k = 0; k < n; k++) R(k, k) += reg;
        for (int k = 0; k < ne; k++) R(n + k, n + k) -= reg;
        return Eigen::PartialPivLU<MatrixXd>(R);
    };
    MatrixXd K;
    {   // start: least squares like point, pushed inside
        auto lu = factor(VectorXd::Ones(ni), K);
        VectorXd r(n + ne); r << -q + (ni ? VectorXd(G.transpose() * h) : VectorXd::Zero(n)), b;
        VectorXd v = kktSolve(lu, K, r);
        x = v.head(n); y = v.tail(ne);
        if (ni)
        {
            VectorXd rr = h - G * x;
            double a = -rr.minCoeff();
            t = rr; if (a >= -1e-3) t.array() += 1 + a;
            z = VectorXd::Constant(ni, std::max(1.0, t.cwiseAbs().maxCoeff() * 1e-2));
        }
    }
    double best = INF; VectorXd bx = x, by = VectorXd::Zero(m);
    for (int it = 0; it < 200; it++)
    {
        VectorXd yy = VectorXd::Zero(m);
        for (int k = 0; k < ne; k++) yy(eq[k]) = y(k);
        for (int k = 0; k < ni; k++) yy(row[k]) += side[k] * z(k);
        double r = qpKkt(P, q, A, l, u, x, yy);
        if (r == r && r < best) { best = r; bx = x; by = yy; }
        if (best < tol || !(r == r)) break;
        VectorXd rd = P * x + q + E.transpose() * y; if (ni) rd += G.transpose() * z;
        VectorXd re = E * x - b, ri = ni ? VectorXd(G * x + t - h) : VectorXd();
        double mu = ni ? z.dot(t) / ni : 0;
        VectorXd w = ni ? VectorXd(z.cwiseQuotient(t)) : VectorXd();
        auto lu = factor(w, K);
        auto dir = [&](const VectorXd &rc, VectorXd &dx, VectorXd &dy, VectorXd &dz, VectorXd &dt) {   // rc: target residual of z*t
            VectorXd rhs(n + ne);
            VectorXd a = -rd;
            if (ni) a -= G.transpose() * (w.cwiseProduct(ri) - rc.cwiseQuotient(t));
            rhs << a, -re;
            VectorXd v = kktSolve(lu, K, rhs);
            dx = v.head(n); dy = v.tail(ne);
            if (ni) { dt = -ri - G * dx; dz = (-rc - z.cwiseProduct(dt)).cwiseQuotient(t); }
        };
        auto step = [&](const VectorXd &v, const VectorXd &dv) { double a = 1; for (int k = 0; k < ni; k++) if (dv(k) < 0) a = std::min(a, -v(k) / dv(k)); return a; };
        VectorXd dx, dy, dz, dt;
        if (ni == 0) { dir(VectorXd(), dx, dy, dz, dt); x += dx; y += dy; continue; }
        dir(z.cwiseProduct(t), dx, dy, dz, dt);
        double a = std::min(step(z, dz), step(t, dt));
        double mua = (z + a * dz).dot(t + a * dt) / ni, sg = std::pow(mua / mu, 3);
        VectorXd rc = z.cwiseProduct(t) + dz.cwiseProduct(dt) - VectorXd::Constant(ni, sg * mu);
        dir(rc, dx, dy, dz, dt);
        a = 0.995 * std::min(step(z, dz), step(t, dt));
        a = std::min(1.0, a);
        x += a * dx; y += a * dy; z += a * dz; t += a * dt;
        for (int k = 0; k < ni; k++) { z(k) = std::max(z(k), 1e-300); t(k) = std::max(t(k), 1e-300); }
        if (!x.allFinite() || x.cwiseAbs().maxCoeff() > 1e15) break;
    }
    s.x = bx; s.y = by; s.kkt = best;
    s.obj = 0.5 * bx.dot(P * bx) + q.dot(bx);
    s.status = best < tol * 100 ? 0 : -1;
    return s;
}

// with a decision about infeasibility when no solution is found
inline QPSol qpSolve(const MatrixXd &P, const VectorXd &q, const MatrixXd &A, const VectorXd &l, const VectorXd &u, double tol = 1e-9)
{
    QPSol s = qpIpm(P, q, A, l, u, tol);
    if (s.status >= 0) return s;
    // smallest violation: min 1/2 |v|^2 + tiny |x|^2, l <= Ax + v <= u
    const int n = (int)q.size(), m = (int)l.size();
    MatrixXd P2 = MatrixXd::Zero(n + m, n + m), A2(m, n + m);
    P2.topLeftCorner(n, n) = 1e-9 * MatrixXd::Identity(n, n);
    P2.bottomRightCorner(m, m) = MatrixXd::Identity(m, m);
    A2 << A, MatrixXd::Identity(m, m);
    QPSol f = qpIpm(P2, VectorXd::Zero(n + m), A2, l, u, 1e-8);
    // any feasible point is further than |v|^2/|A'v| from the found one: only claim infeasibility when that is far away
    if (f.status == 0)
    {
        VectorXd v = f.x.tail(m);
        double X = f.x.head(n).cwiseAbs().maxCoeff();
        if (v.cwiseAbs().maxCoeff() > 1e-5 && v.squaredNorm() > 1e3 * (1 + X) * (A.transpose() * v).norm()) s.status = 1;
    }
    return s;
}
