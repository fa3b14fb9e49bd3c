"""Setup: verifies the toolchain, compiles the IEEE module for TLC. Checks build
everything they need from /repo themselves."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import mbv
ck = mbv.Check("setup")
import shutil
shutil.rmtree(ck.work, ignore_errors=True)
print("setup: ok")
