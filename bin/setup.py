#!/usr/bin/env python3
"""Checks that the tools the checks need are present (each check builds what it needs from /repo itself)."""
import shutil, sys
missing = [t for t in ("clang++", "ninja", "valgrind", "ar") if not shutil.which(t)]
print("missing tools: %s" % missing if missing else "tools present")
sys.exit(1 if missing else 0)
