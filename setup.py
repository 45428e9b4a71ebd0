#!/usr/bin/env python3
"""Checks that the tools that the checks need are there.

Every check builds what it needs from /repo's current tree, so there is nothing to prepare.
"""
import shutil
import sys

missing = [t for t in ("cargo", "cargo-kani", "verus") if shutil.which(t) is None and
           shutil.which(t, path="/root/.cargo/bin:/usr/local/bin:/usr/bin") is None]
if missing:
    print("missing tools: %s" % ", ".join(missing))
    sys.exit(1)
print("ready")
