"""Checks that the tools are there and the engine compiles (nothing is needed from a previous run)."""
import os, sys, tempfile
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, harness
b = build.Builder(os.path.join(build.VERIF, "build"))
for l in harness.ENGINE:
    b.obj(os.path.join(build.VERIF, "lib", l), (), False)
print("ok")
