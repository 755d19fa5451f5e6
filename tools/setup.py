#!/usr/bin/env python3
"""Checks that the tools are there; every check builds what it needs itself."""
import shutil, sys
missing = [t for t in ("java", "javac", "clang++") if not shutil.which(t)]
sys.exit("missing: %s" % missing if missing else 0)
