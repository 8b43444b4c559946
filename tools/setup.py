#!/usr/bin/env python3
"""Checks that the tools are there. Every check builds what it needs from /repo."""
import shutil, sys
missing = [t for t in ("clang++",) if not shutil.which(t)]
if missing:
    print("missing: " + " ".join(missing))
    sys.exit(1)
print("ready")
