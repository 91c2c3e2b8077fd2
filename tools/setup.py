#!/usr/bin/env python3
"""Checks that what the monitors need is installed; the checks build their own binaries from /repo's tree."""
import shutil, sys, os
missing = [t for t in ("g++", "valgrind") if not shutil.which(t)]
missing += [f for f in ("/usr/include/eigen3/Eigen/Dense", "/usr/include/nlopt.hpp", "/usr/include/python3.12/Python.h") if not os.path.exists(f)]
print("missing: " + ", ".join(missing) if missing else "ok")
sys.exit(1 if missing else 0)
