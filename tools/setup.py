#!/usr/bin/env python3
"""Checks that the tools the checks need are present. Every check builds its own harness from /repo's tree."""
import shutil, sys
missing = [t for t in ("clang++", "g++", "python3", "strace") if not shutil.which(t)]
print("setup: missing tools: %s" % ", ".join(missing) if missing else "setup: tools present")
sys.exit(1 if missing else 0)
