#!/usr/bin/env python3
"""Checks that the tools are there; every check builds what it needs itself,
from /repo's working tree, so nothing has to be prepared."""
import shutil
import sys

missing = [t for t in ("clang++-18", "protoc", "java") if shutil.which(t) is None]
if missing:
    print("missing tools: " + " ".join(missing))
    sys.exit(1)
print("ready")
