#!/usr/bin/env python3
"""Nothing to install: checks compile their harness from /repo themselves. Verifies that the tools are there."""
import shutil, subprocess, sys
for t in ("g++", "python3"):
    if not shutil.which(t):
        sys.exit("missing " + t)
p = subprocess.run(["g++", "-std=gnu++17", "-fopenmp", "-fsyntax-only", "-xc++", "-"], input=b"#include <boost/multiprecision/cpp_int.hpp>\n#include <omp.h>\nint main(){}\n")
sys.exit(p.returncode)
