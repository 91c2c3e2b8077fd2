// Monitor of the discretization of linear systems.
#include "common.hpp"
#include <mpc/Utils.hpp>

using LM = Eigen::Matrix<long double, Eigen::Dynamic, Eigen::Dynamic>;

// ---------------------------------------------------------------- C30
static LM refExp(const LM &M)
{
    long double nrm = M.cwiseAbs().rowwise().sum().maxCoeff();
    int s = 0;
    while (nrm > 0.25L) { nrm /= 2; s++; }
    LM X = M / powl(2, s), T = LM::Identity(M.rows(), M.cols()), F = LM::Zero(M.rows(), M.cols());
    // squaring exp(X)-I keeps the small parts accurate
    for (int k = 1; k < 30; k++) { T = T * X / (long double)k; F += T; }
    for (int k = 0; k < s; k++) F = (2 * F + F * F).eval();
    return F;      // exp(M) - I
}

template <int nx, int nu, int nud, int ny>
static void zohCase(Ctx &c)
{
    Rng &g = c.rng;
    using MA = mpc::mat<nx, nx>; using MB = mpc::mat<nx, nu>; using ME = mpc::mat<nx, nud>; using MC = mpc::mat<ny, nx>; using MD = mpc::mat<ny, nu>;
    MA A = g.mat(nx, nx);
    int kind = g.i(0, 8);
    if (kind == 1) A.setZero();
    if (kind == 2) { for (int r = 0; r < nx; r++) for (int k = 0; k <= r; k++) A(r, k) = 0; }                          // nilpotent
    if (kind == 3) { MatrixXd s = g.mat(nx, 1) * g.mat(1, nx); A = s; }                                                // singular
    if (kind == 4) A = (A - 3 * MA::Identity()).eval();                                                              // stable
    if (kind == 5) A = (A + 2 * MA::Identity()).eval();                                                              // unstable
    if (kind == 6) { A = MA::Zero(); for (int r = 0; r < nx; r++) A(r, r) = -g.logu(1e-2, 300); for (int r = 0; r + 1 < nx; r++) A(r, r + 1) = g.uni(-1, 1); }   // stiff
    if (kind == 7) { A = (A * 0.1).eval(); for (int r = 0; r < nx; r++) for (int k = r + 1; k < nx; k++) A(r, k) *= 300; }  // non-normal
    if (kind == 8) { A = MA::Zero(); for (int r = 0; r < nx; r++) A(r, r) = g.pick(std::vector<double>{-1, -1, 0, 0.5}); if (nx > 1) A(0, 1) = 1; }   // repeated eigenvalues
    MB B = g.mat(nx, nu) * g.pick(std::vector<double>{1, 1, 0, 1e-3, 1e3});
    ME E = g.mat(nx, nud) * g.pick(std::vector<double>{1, 1, 0, 1e-3, 1e3});
    MC Cm = g.mat(ny, nx); MD Dm = g.mat(ny, nu);
    double a = std::max(1e-3, A.cwiseAbs().rowwise().sum().maxCoeff());
    double Ts = g.chance(0.06) ? 0 : g.logu(1e-5, 8) / a;
    if (kind == 1) Ts = g.logu(1e-5, 100);
    if (g.chance(0.05)) Ts = -Ts * 0.1;
    MA A0 = A; MB B0 = B; ME E0 = E; MC C0 = Cm; MD D0 = Dm;
    // reference
    const int n = nx + nu + nud;
    LM M = LM::Zero(n, n);
    M.block(0, 0, nx, nx) = A.template cast<long double>();
    M.block(0, nx, nx, nu) = B.template cast<long double>();
    if (nud) M.block(0, nx + nu, nx, nud) = E.template cast<long double>();
    LM F = refExp(M * (long double)Ts);
    MatrixXd rA = (F.block(0, 0, nx, nx) + LM::Identity(nx, nx)).template cast<double>(), rB = F.block(0, nx, nx, nu).template cast<double>(), rE = F.block(0, nx + nu, nx, nud).template cast<double>();
    double inA = F.block(0, 0, nx, nx).cwiseAbs().maxCoeff(), scA = 1 + inA, scB = std::max(1e-300, (double)F.rightCols(nu + nud).topRows(nx).cwiseAbs().maxCoeff());
    // rounding of the squarings grows with the intermediate matrices; the reference bounds them
    double grow = 1 + (double)(M * (long double)Ts).cwiseAbs().rowwise().sum().maxCoeff();
    double tolA = 1e-12 * grow * scA, tolB = 1e-12 * grow * std::max(scB, scB * scA);
    auto poison = [](auto &m) { m.setConstant(std::numeric_limits<double>::quiet_NaN()); };
    auto diff = [](const MatrixXd &x, const MatrixXd &y) { return x.size() ? (x - y).cwiseAbs().maxCoeff() : 0.0; };
    auto bad = [&](const MatrixXd &x, const MatrixXd &y, double tol) { double d = diff(x, y); return !(d <= tol); };
    auto info = [&](const MatrixXd &x, const MatrixXd &y) { return MSG("A=" << str(A) << " Ts=" << Ts << " got " << str(x) << " expected " << str(y)); };
    MA Ad; MB Bd; ME Ed; MC Cd; MD Dd;
    poison(Ad); poison(Bd);
    mpc::discretization<nx, nu>(A, B, Ts, Ad, Bd);
    EXPECT(!bad(Ad, rA, tolA), "zoh-state-matrix", info(Ad, rA));
    EXPECT(!bad(Bd, rB, tolB), "zoh-input-matrix", "B=" << str(B) << " " << info(Bd, rB));
    MA Ad1 = Ad; MB Bd1 = Bd;
    poison(Ad); poison(Bd); poison(Ed);
    mpc::discretization<nx, nu, nud>(A, B, E, Ts, Ad, Bd, Ed);
    EXPECT(!bad(Ad, rA, tolA), "zoh-state-matrix", "disturbance variant " << info(Ad, rA));
    EXPECT(!bad(Bd, rB, tolB), "zoh-input-matrix", "disturbance variant B=" << str(B) << " " << info(Bd, rB));
    EXPECT(!bad(Ed, rE, tolB), "zoh-disturbance-matrix", "Be=" << str(E) << " " << info(Ed, rE));
    poison(Ad); poison(Bd); poison(Cd); poison(Dd);
    auto withOutput = [&](auto &a, auto &b, auto &cc, auto &dd) {
        if constexpr (requires { mpc::discretization<nx, nu, ny>(A, B, Cm, Dm, Ts, a, b, cc, dd); }) { mpc::discretization<nx, nu, ny>(A, B, Cm, Dm, Ts, a, b, cc, dd); return true; }
        return false;
    };
    if (!withOutput(Ad, Bd, Cd, Dd))
    {
        c.bad("zoh-feedthrough-type", MSG("the discretization with outputs does not accept matrices of the documented sizes for nx=" << nx << " nu=" << nu << " ny=" << ny));
        return;
    }
    EXPECT(!bad(Ad, rA, tolA), "zoh-state-matrix", "output variant " << info(Ad, rA));
    EXPECT(!bad(Bd, rB, tolB), "zoh-input-matrix", "output variant B=" << str(B) << " " << info(Bd, rB));
    EXPECT(identical(Cd, C0), "zoh-output-matrix", "C=" << str(C0) << " became " << str(Cd));
    EXPECT(identical(Dd, D0), "zoh-feedthrough-matrix", "D=" << str(D0) << " became " << str(Dd));
    EXPECT(identical(A, A0) && identical(B, B0) && identical(E, E0) && identical(Cm, C0) && identical(Dm, D0), "zoh-inputs-modified", "an input matrix was modified");
    // two steps
    MA A2; MB B2;
    mpc::discretization<nx, nu>(A, B, 2 * Ts, A2, B2);
    EXPECT(!bad(A2, Ad1 * Ad1, 4 * tolA * scA), "zoh-two-steps", "two steps of Ts=" << Ts << " A=" << str(A) << ": " << str(Ad1 * Ad1) << " one of 2Ts: " << str(A2));
    EXPECT(!bad(B2, Ad1 * Bd1 + Bd1, 4 * tolB * scA), "zoh-two-steps", "two steps of Ts=" << Ts << " A=" << str(A) << " input matrix");
    c.obs(MatrixXd(A)); c.obs(MatrixXd(B)); c.obs(Ts); c.obs(rA);
    c.nontrivial = true;
    c.count("discretizations_compared", 3);
    c.count(MSG("kind_" << kind));
    c.note(MSG("nx=" << nx << " nu=" << nu << " nud=" << nud << " ny=" << ny << " Ts=" << Ts << " A=" << str(A)));
}

CASE(C30)
{
    switch (c.rng.i(0, 7))
    {
    case 0: zohCase<1, 1, 1, 1>(c); break;
    case 1: zohCase<2, 1, 1, 3>(c); break;
    case 2: zohCase<1, 3, 2, 2>(c); break;
    case 3: zohCase<3, 2, 1, 2>(c); break;
    case 4: zohCase<2, 3, 2, 1>(c); break;
    case 5: zohCase<4, 1, 2, 4>(c); break;
    case 6: zohCase<3, 1, 3, 1>(c); break;
    default: zohCase<6, 2, 2, 3>(c); break;
    }
}
