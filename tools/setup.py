#!/usr/bin/env python3
"""Checks that the tools every check needs are present. Checks build everything else themselves."""
import shutil, subprocess, sys, os
ok = True
for t in ("cargo", "verus"):
    if not shutil.which(t): print("missing", t); ok = False
e = {k: v for k, v in os.environ.items() if k != "RUSTUP_TOOLCHAIN"}
for c in (["cargo", "kani", "--version"], ["cargo", "+nightly-2023-11-04", "--version"]):
    r = subprocess.run(c, capture_output=True, text=True, env=e)
    print(" ".join(c), "->", (r.stdout or r.stderr).strip())
    ok &= r.returncode == 0
sys.exit(0 if ok else 1)
