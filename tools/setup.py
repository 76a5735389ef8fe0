#!/usr/bin/env python3
"""Checks that the compilers are there and compiles the framework's own objects. Every check builds /repo's tree itself."""
import os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/lib")
import build
L = V + "/lib/"
hdrs = [L + h for h in ("bridge.h", "explore.hpp", "model.hpp", "prims.hpp", "gen.hpp", "dyad.hpp", "vm.hpp", "fault.h", "fault.hpp")]
cxx = ["g++", "-std=c++20", "-O2", "-g1", "-w", f"-I{V}/lib", f"-I{build.REPO}/include"]
for s in ("prims.cpp", "explore.cpp"):
    build.cached_obj(cxx, L + s, hdrs)
print("ok")
