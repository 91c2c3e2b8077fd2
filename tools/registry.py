"""What each check builds and runs."""
WRAPPED = ["create", "copy", "destroy", "optimize", "set_min_objective", "set_max_objective", "remove_inequality_constraints",
           "remove_equality_constraints", "add_inequality_constraint", "add_equality_constraint", "add_inequality_mconstraint",
           "add_equality_mconstraint"]
WRAP = "-Wl," + ",".join("--wrap=nlopt_" + w for w in WRAPPED)
COMMON = ["-std=c++20", "-D_GLIBCXX_ASSERTIONS", "-DEIGEN_STACK_ALLOCATION_LIMIT=0", "-DSHOW_STACKTRACE=0",
          "-I@HARNESS@", "-I@REPO@/include", "-isystem", "/usr/include/eigen3", "-w"]
VALGRIND = ["valgrind", "-q", "--error-exitcode=97", "--exit-on-first-error=yes", "--leak-check=full", "--errors-for-leak-kinds=definite"]
VARIANTS = {
    "plain": {"cxx": "g++", "cxxflags": COMMON + ["-O1", "-g0"], "ldflags": []},
    "asan": {"cxx": "g++", "cxxflags": COMMON + ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined",
                                                 "-fno-sanitize-recover=all", "-D_GLIBCXX_SANITIZE_VECTOR"],
             "ldflags": ["-fsanitize=address,undefined"],
             "preload": ["libasan.so", "libubsan.so", "libstdc++.so"],
             "env": {"ASAN_OPTIONS": "detect_leaks=1:abort_on_error=0:exitcode=98:detect_stack_use_after_return=1:malloc_fill_byte=170:max_malloc_fill_size=1048576",
                     "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1"}},
    "tsan": {"cxx": "g++", "cxxflags": COMMON + ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=thread", "-DVERIF_THREADS"], "ldflags": ["-fsanitize=thread", "-pthread"],
             "env": {"TSAN_OPTIONS": "halt_on_error=1:exitcode=96:second_deadlock_stack=1"}},
}
NL_BASE = ["main.cpp", "nlopt_spy.cpp", "nl_scn.cpp", "nl_factory.cpp", "nl_dyn.cpp"]
LM_BASE = ["main.cpp", "osqp_spy.cpp", "lm_scn.cpp", "lm_factory.cpp", "lm_dyn.cpp", "lm_static1.cpp", "lm_static2.cpp"]
BINARIES = {
    "nl1": {"sources": NL_BASE + ["nl_static1.cpp", "nl_static3.cpp", "nl_checks1.cpp"], "ldflags": [WRAP, "-lnlopt_cxx"]},
    "nl2": {"sources": NL_BASE + ["nl_static1.cpp", "nl_static3.cpp", "nl_checks2.cpp"], "ldflags": [WRAP, "-lnlopt_cxx"]},
    "nl4": {"sources": NL_BASE + ["nl_static1.cpp", "nl_static2.cpp", "nl_static3.cpp", "nl_static4.cpp", "nl_checks4.cpp"], "ldflags": [WRAP, "-lnlopt_cxx"]},
    "ut": {"sources": ["main.cpp", "fake_clock.cpp", "ut_checks.cpp"]},
    "utl": {"sources": ["main.cpp", "ut_lti.cpp"]},
    "utn": {"sources": NL_BASE + ["nl_static1.cpp", "nl_static3.cpp", "fake_clock.cpp", "ut_nl.cpp"], "ldflags": [WRAP, "-lnlopt_cxx"]},
    "lm1": {"sources": LM_BASE + ["lm_checks1.cpp"]},
    "lm2": {"sources": LM_BASE + ["lm_checks2.cpp"]},
    "lm3": {"sources": LM_BASE + ["lm_checks3.cpp"]},
    "nlthr": {"sources": ["main.cpp", "nl_scn.cpp", "nl_factory.cpp", "nl_dyn.cpp", "nl_static3.cpp", "nl_thr.cpp"], "ldflags": ["-lnlopt_cxx"]},
    "lmthr": {"sources": ["main.cpp", "osqp_spy.cpp", "lm_scn.cpp", "lm_factory.cpp", "lm_dyn.cpp", "lm_static1.cpp", "lm_thr.cpp"]},
    "nl3": {"sources": NL_BASE + ["nl_static1.cpp", "nl_static3.cpp", "nl_checks3.cpp"], "ldflags": [WRAP, "-lnlopt_cxx"]},
}
PYFLAGS = ["-fPIC", "-I@VERIF@/third_party/pybind11", "-I/usr/include/python3.12"]
BINARIES["py"] = {
    "driver": "py_drive.py",
    "libraries": [
        {"name": "libvspy.so", "sources": ["nlopt_spy.cpp", "osqp_spy.cpp", "fake_clock.cpp"], "cxxflags": ["-fPIC"], "ldflags": [WRAP, "-lnlopt_cxx"]},
        {"name": "pympcxx.cpython-312-x86_64-linux-gnu.so", "sources": ["@REPO@/python/pybind_export.cpp"], "cxxflags": PYFLAGS + ["-fvisibility=hidden"], "ldflags": [WRAP, "-lvspy", "-lnlopt_cxx"]},
        {"name": "verif_ref.cpython-312-x86_64-linux-gnu.so", "sources": ["py_ref.cpp", "nl_scn.cpp", "nl_factory.cpp", "nl_dyn.cpp", "lm_dyn.cpp"], "cxxflags": PYFLAGS + ["-fvisibility=hidden"],
         "ldflags": [WRAP, "-lvspy", "-lnlopt_cxx"]},
    ],
}


def one(pid, binary, q, t, rule, **kw):
    d = {"runs": [{"name": pid, "binary": binary, "cases": [pid], "n": {"quick": q, "thorough": t}}], "rule": rule}
    d.update(kw)
    return d


CHECKS = {
    "C01": one("C01", "nl1", 19200, 115200, "random controllers, solver answers at random feasible-layout points or real solves; non-trivial: a successful solve whose sequence, command and cost were compared", need=["sequences_checked"]),
    "C02": one("C02", "nl1", 9600, 60000, "random discrete/continuous models, equality constraints evaluated on random and exact trajectories; non-trivial: at least one trajectory compared", need=["trajectories_checked"]),
    "C03": one("C03", "nl1", 38400, 230400, "random controllers and points; all gradient entries compared with 4th order differences of the values; non-trivial: at least one point differentiated", need=["derivatives_compared"]),
    "C04": one("C04", "nl1", 38400, 230400, "random sequences of bound settings (valid and invalid slices, matrices) with solves in between; non-trivial: at least one setting before a solve", need=["bounds_compared", "invalid_settings", "sequences_checked"]),
    "C05": one("C05", "nl1", 48000, 288000, "random constraints, tolerances and stop points incl. values on, next to and far from the tolerance, NaN and infinities; non-trivial: the controller has user constraints", need=["feasible_results", "infeasible_results"]),
    "C06": one("C06", "nl2", 9600, 60000, "histories of successful and failing calls (failure codes, exceptions of nine types at random callback invocations, during the solve, the feasibility check or the evaluation of the delivered outputs); a twin controller skips the failing calls; non-trivial: a fault was reached", level="fault_enumeration", need=["failure_codes", "callback_exceptions_in_solver", "callback_exceptions_in_feasibility", "late_output_exceptions", "solves_after_failure_compared"]),
    "C07": one("C07", "nl2", 38400, 230400, "sequences of solver codes -5..7 and real solves with statistics read and reset; every case is non-trivial", need=["code_-1", "code_5", "code_6", "code_7", "code_0"]),
    "C08": one("C08", "nl2", 9600, 60000, "random order of settings with scalings given once or repeatedly, twin controller without scaling; non-trivial: a solve compared", need=["trajectories_compared", "converged_pairs", "bounds_compared"]),
    "C09": one("C09", "nl2", 19200, 115200, "histories of solves, failures, parameter, bound and scaling changes; non-trivial: a second or later solve compared", need=["warm_guesses", "cold_guesses", "fresh_controllers_compared"]),
    "C13": one("C13", "nl3", 9600, 60000, "random histories of settings and real solves, every callback invocation observed; non-trivial: a solve evaluated the objective", need=["trajectories_seen", "state_calls", "output_calls"]),
    "C14": one("C14", "nl3", 28800, 172800, "settings in random order with garbage values (marked ~) before the final ones and solves in between, compared with the canonical configuration; non-trivial: something was replaced or solved before", need=["problems_compared", "replaced_settings", "interleaved_solves"]),
    "C15": one("C15", "nl3", 19200, 115200, "random strictly convex linear-quadratic problems with bounds and linear constraints, closed loop; oracle: condensed QP solved by a certified interior point method; non-trivial: an optimum was compared", need=["optima_compared", "commands_compared"]),
    "C16": one("C16", "nl3", 28800, 172800, "histories of parameter settings and solves; non-trivial: parameters set more than once", need=["hard_solves", "soft_solves", "soft_solves_moving_slack"]),
    "C10": {
        "runs": [{"name": "nonlinear", "binary": "nl4", "cases": ["C10"], "n": {"quick": 800, "thorough": 40000}},
                 {"name": "linear", "binary": "lm3", "cases": ["C10L"], "n": {"quick": 1600, "thorough": 60000}},
                 {"name": "threads", "binary": "nlthr", "variant": "tsan", "cases": ["C10T"], "n": {"quick": 200, "thorough": 10000}},
                 {"name": "linear threads", "binary": "lmthr", "variant": "tsan", "cases": ["C10TL"], "n": {"quick": 400, "thorough": 20000}}],
        "rule": "2-4 controllers with scripted lives run alone and interleaved by a random schedule (also nested inside callbacks and inside the solver), and on threads of their own under ThreadSanitizer; non-trivial: a schedule longer than 4 steps, or steps that overlapped",
        "need": ["transcripts_compared", "nested_steps", "linear_transcripts_compared", "linear_nested_steps", "threads_compared", "overlapping_steps", "linear_threads_compared", "linear_overlapping_steps"],
    },
    "C11": {
        "runs": [{"name": "nonlinear", "binary": "nl4", "cases": ["C11"], "n": {"quick": 6400, "thorough": 60000}},
                 {"name": "linear", "binary": "lm3", "cases": ["C11L"], "n": {"quick": 6400, "thorough": 60000}}],
        "rule": "static and dynamic twin with the same random history of settings, solves and failures; non-trivial: a problem was compared",
        "need": ["points_compared", "real_solves_followed", "visited_points_compared", "programs_compared", "scripted_solves_equal"],
        "modes": [["nl_static", "nl_dyn"], ["nl_dyn", "nl_static"], ["lm_static", "lm_dyn"], ["lm_dyn", "lm_static"]],
    },
    "C12": {
        "runs": [
            {"name": "asan", "binary": "nl4", "variant": "asan", "cases": ["C12"], "n": {"quick": 800, "thorough": 30000}},
            {"name": "asan10", "binary": "nl4", "variant": "asan", "cases": ["C10", "C11"], "n": {"quick": 48, "thorough": 1500}},
            {"name": "asan1", "binary": "nl1", "variant": "asan", "cases": ["C01", "C02", "C03", "C04", "C05"], "n": {"quick": 64, "thorough": 2000}},
            {"name": "asan2", "binary": "nl2", "variant": "asan", "cases": ["C06", "C07", "C08", "C09"], "n": {"quick": 64, "thorough": 2000}},
            {"name": "asan3", "binary": "nl3", "variant": "asan", "cases": ["C13", "C14", "C15", "C16"], "n": {"quick": 64, "thorough": 2000}},
            {"name": "valgrind", "binary": "nl4", "cases": ["C12"], "n": {"quick": 48, "thorough": 600}, "wrapper": VALGRIND, "timeout": 400},
            {"name": "fill1", "binary": "nl4", "cases": ["C12"], "n": {"quick": 800, "thorough": 30000}, "env": {"MALLOC_PERTURB_": "85"}},
            {"name": "fill2", "binary": "nl4", "cases": ["C12"], "n": {"quick": 800, "thorough": 30000}, "env": {"MALLOC_PERTURB_": "191"}},
        ],
        "same": [["fill1", "fill2"]],
        "only_keys": ["^crash", "^hang", "^solver-object-leak", "^uninitialised"],
        "rule": "random histories of every operation (incl. faults, early reads, re-creation) and the workloads of the other properties under ASan+UBSan+LSan, memcheck, and with different heap fill patterns; non-trivial: at least one solve",
        "need": ["solves", "faulty_solves"],
    },
    "C20": one("C20", "lm1", 144000, 864000, "random models, disturbances and changes of them; every recorded program is evaluated on model trajectories and on trajectories leaving the model; every case is non-trivial", need=["replaced_configurations", "trajectories_admitted", "directions_checked", "controllers", "direct_builders"]),
    "C21": one("C21", "lm1", 192000, 1152000, "random weights, references and disturbances per step; the cost of random trajectories under the recorded program against the documented sum; every case is non-trivial", need=["replaced_configurations", "costs_compared"]),
    "C22": one("C22", "lm1", 96000, 600000, "random limits per step; trajectories inside and just outside each limit against the recorded program; every case is non-trivial", need=["replaced_configurations", "limits_found", "points_inside", "points_outside"]),
    "C23": one("C23", "lm1", 144000, 864000, "random horizons; null space of the recorded program and optimal sequences; every case is non-trivial", need=["replaced_configurations", "horizons_checked", "sequences_checked", "moves_seen", "shorter_control_horizons"]),
    "C24": one("C24", "lm1", 144000, 864000, "random sequences of settings (valid and invalid slices, indices, matrices) with solves in between; the recorded program against the settings in force; every case is non-trivial", need=["valid_settings", "invalid_settings", "limits_found", "costs_compared", "single_step_constraints", "refused_settings"]),
    "C25": one("C25", "lm2", 6400, 300000, "sequences of solver answers (all status values, set-up and solve error codes, NaN solutions, crossed limits, infeasible problems); a twin controller skips the failing calls; non-trivial: at least one delivered solution", level="fault_enumeration", need=["sequences_decoded", "setup_errors", "solve_errors", "no_finite_solution", "solves_after_failure_compared", "crossed_limits", "infeasible_problems"]),
    "C26": {
        "runs": [
            {"name": "asan", "binary": "lm3", "variant": "asan", "cases": ["C26"], "n": {"quick": 1600, "thorough": 60000}},
            {"name": "asan10", "binary": "lm3", "variant": "asan", "cases": ["C10L", "C11L"], "n": {"quick": 160, "thorough": 6000}},
            {"name": "asan1", "binary": "lm1", "variant": "asan", "cases": ["C20", "C21", "C22", "C23", "C24"], "n": {"quick": 100, "thorough": 4000}},
            {"name": "asan2", "binary": "lm2", "variant": "asan", "cases": ["C25", "C27", "C28", "C29"], "n": {"quick": 100, "thorough": 4000}},
            {"name": "valgrind", "binary": "lm3", "cases": ["C26"], "n": {"quick": 64, "thorough": 1200}, "wrapper": VALGRIND, "timeout": 400},
            {"name": "fill1", "binary": "lm3", "cases": ["C26"], "n": {"quick": 1600, "thorough": 60000}, "env": {"MALLOC_PERTURB_": "85"}},
            {"name": "fill2", "binary": "lm3", "cases": ["C26"], "n": {"quick": 1600, "thorough": 60000}, "env": {"MALLOC_PERTURB_": "191"}},
        ],
        "same": [["fill1", "fill2"]],
        "only_keys": ["^crash", "^hang", "^solver-object-leak", "^uninitialised", "^protocol", "^malformed"],
        "rule": "random histories of every operation on up to three linear controllers (incl. solver faults, early reads, destruction before a solve, re-creation) and the workloads of the other properties under ASan+UBSan+LSan, memcheck, and with different heap fill patterns; non-trivial: at least one solve",
        "need": ["solves", "setup_faults", "solve_faults", "destroyed_unused", "reads"],
    },
    "C27": one("C27", "lm2", 12800, 300000, "histories of solves, failures, parameters, warm-start vectors read and set; non-trivial: a second or later solve compared", need=["warm_starts_compared", "cold_starts", "vectors_read", "fresh_controllers_compared"]),
    "C28": one("C28", "lm2", 192000, 1152000, "random problems with zero, tiny, huge coefficients and empty columns; the program given to the solver against a problem builder with the same settings; every case is non-trivial", need=["programs_compared", "coefficients"]),
    "C29": one("C29", "lm2", 12800, 300000, "random strictly convex problems in closed loop with changing references, disturbances, limits, weights; oracle: the documented problem condensed to the inputs, solved with certificate; non-trivial: an optimum was compared", need=["optima_at_limits", "optima_inside", "infeasible_compared"]),
    "C30": one("C30", "utl", 256000, 1536000, "random, singular, nilpotent, stiff, non-normal, stable and unstable matrices and sampling times (including zero and negative), eight dimension sets, all overloads; oracle: own extended precision matrix exponential; every case is non-trivial", need=["discretizations_compared"]),
    "C31": one("C31", "ut", 48000, 288000, "random time-varying, autonomous and polynomial dynamics, start times, step sizes and counts; every stage evaluation is recorded; non-trivial: at least one step", need=["stage_evaluations", "polynomials", "orders_measured"]),
    "C32": {
        "runs": [{"name": "profiler", "binary": "ut", "cases": ["C32"], "n": {"quick": 128000, "thorough": 400000}},
                 {"name": "controller", "binary": "utn", "cases": ["C32N"], "n": {"quick": 24000, "thorough": 100000}}],
        "rule": "random sequences of durations (equal, nearly equal, very different, zero), statuses and resets on a simulated clock, directly and through controllers; non-trivial: at least one duration recorded",
        "need": ["durations", "prints", "resets", "solves"],
    },
    "C33": {
        "runs": [{"name": "logger", "binary": "ut", "cases": ["C33"], "n": {"quick": 128000, "thorough": 400000}},
                 {"name": "controller", "binary": "utn", "cases": ["C33N"], "n": {"quick": 9600, "thorough": 30000}}],
        "rule": "random scripts of messages, levels, prefixes, streams and resets against a model of the text; complete controller runs at all four levels compared bit by bit; non-trivial: messages written and suppressed",
        "need": ["messages_written", "messages_suppressed", "runs_compared", "messages_deep"],
    },
    "C34": {
        "runs": [{"name": "sizes", "binary": "ut", "cases": ["C34"], "n": {"quick": 1600, "thorough": 20000}},
                 {"name": "controller", "binary": "utn", "cases": ["C34N"], "n": {"quick": 25600, "thorough": 60000}}],
        "rule": "all pairs of operands up to 12 (compile time and run time), random larger pairs and expressions, and the sizes of every matrix of random controllers; every case is non-trivial",
        "need": ["pairs_exhaustive", "expressions", "sizes_compared", "problems_compared"],
    },
    "C40": {
        "runs": [{"name": "nonlinear", "binary": "py", "cases": ["C40N"], "n": {"quick": 2400, "thorough": 100000}},
                 {"name": "linear", "binary": "py", "cases": ["C40L"], "n": {"quick": 8000, "thorough": 400000}},
                 {"name": "asan", "binary": "py", "variant": "asan", "cases": ["C40N", "C40L"], "n": {"quick": 96, "thorough": 6000}, "env": {"ASAN_OPTIONS": "detect_leaks=0:exitcode=98:malloc_fill_byte=170:max_malloc_fill_size=65536"}},
                 {"name": "surface", "binary": "py", "cases": ["C40S"], "n": {"quick": 64, "thorough": 2000}}],
        "rule": "random scripts of every exported call on a controller of the Python module and on its C++ counterpart, array arguments in nine representations, Python functions of several kinds (raising, keeping or overwriting their arguments); non-trivial: a solve compared",
        "need": ["solves", "settings", "callback_calls", "python_exceptions", "sequences_compared", "stats_compared", "warm_vectors", "functions_released", "refused_calls", "enumerators", "log_texts"],
    },
}
