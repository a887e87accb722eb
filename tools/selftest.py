#!/usr/bin/env python3
"""setup_cmd: verifies that the tool chain the checks need is present (each check builds what it needs itself)."""
import os, shutil, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
missing = [t for t in ("g++", "ninja", "ar") if not shutil.which(t)]
import build
if not os.path.isdir(build.REPO + "/src") or not os.path.isdir(build.SQUISH):
    missing.append("sources")
print("setup ok" if not missing else f"missing: {missing}")
sys.exit(1 if missing else 0)
