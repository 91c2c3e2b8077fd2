// Monitoring side of the OSQP stand-in.
#pragma once
#include "common.hpp"
#include "osqp/osqp.h"
#include <deque>

// everything one osqp_setup .. osqp_cleanup cycle showed
struct QpCall
{
    int n = 0, m = 0;
    MatrixXd patP, patA;           // stored entries
    MatrixXd P, A;                 // P: upper triangular part as passed
    VectorXd q, l, u;
    OSQPSettings set{};            // as passed to osqp_setup
    std::string malformed;         // first defect of the passed data, empty when well formed
    long nnzP = 0, nnzA = 0;
    int setupCode = -1;
    std::vector<std::string> calls;                  // protocol after set-up
    std::vector<std::pair<VectorXd, VectorXd>> warm; // vectors of osqp_warm_start
    bool warmUsed = false;         // whether the solve started from given vectors
    int solves = 0;
    VectorXd x, y; double obj = 0; int status = OSQP_UNSOLVED; int solveCode = -1;
    MatrixXd Pfull() const { MatrixXd f = P + P.transpose(); f.diagonal() = P.diagonal(); return f; }
};
struct QpSpy
{
    std::deque<QpCall> log;                           // all set-ups since clear()
    std::vector<std::string> errors;                  // protocol violations (use after release, double release ...)
    long live = 0;                                    // live allocations (workspaces, matrices, buffers)
    long setups = 0;
    std::function<int(QpCall &)> onSetup;             // returns a forced error code (0: none)
    std::function<int(QpCall &)> onSolve;             // may fill x, y, obj, status of the call; returns -1 to ask for the exact solver, otherwise the code of osqp_solve
    bool fillUnset = true;
    void clear() { log.clear(); errors.clear(); }
};
#ifdef VERIF_THREADS
#define VERIF_TLS thread_local
#else
#define VERIF_TLS
#endif
extern VERIF_TLS QpSpy qp;
struct QpHook
{
    QpHook(std::function<int(QpCall &)> su, std::function<int(QpCall &)> so = nullptr) { qp.onSetup = su; qp.onSolve = so; }
    ~QpHook() { qp.onSetup = nullptr; qp.onSolve = nullptr; }
};
