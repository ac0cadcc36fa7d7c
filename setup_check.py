#!/usr/bin/env python3
"""setup: nothing is kept between runs; only checks that the tools are there"""
import shutil, sys
bad = [t for t in ("g++", "clang++", "verus", "valgrind", "mpicxx") if not shutil.which(t)]
if bad: print("missing tools:", bad); sys.exit(1)
print("ok")
