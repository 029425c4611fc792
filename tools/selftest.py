#!/usr/bin/env python3
"""setup: nothing to build; verifies that the compiler the checks use is there"""
import os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "engine")); sys.dont_write_bytecode = True
import build, llir
ps = build.compile_all(build.library_sources())
p = llir.Program(ps)
print("%d units, %d functions" % (len(ps), sum(1 for f in p.funcs.values() if f.blocks)))
