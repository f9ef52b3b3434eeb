#!/usr/bin/env python3-vt
"""Nothing to build: verify that the tools the checks call are present."""
import shutil
import sys

missing = [t for t in ("clang", "gcc") if not shutil.which(t)]
import z3  # noqa
if missing:
    print("missing tools:", missing)
    sys.exit(1)
print("ready, z3", z3.get_version_string())
