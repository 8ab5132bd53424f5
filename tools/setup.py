#!/usr/bin/env python3
"""Nothing to prebuild: every check builds from /repo's working tree. Checks that the
toolchain the checks rely on is there."""
import os, shutil, sys
for t in ("gcc", "python3", "openssl"):
    if not shutil.which(t):
        sys.exit("missing tool: " + t)
os.makedirs(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "evidence"), exist_ok=True)
print("setup ok")
