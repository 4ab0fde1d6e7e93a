#!/usr/bin/env python3
"""Warms the build cache (optional: every check builds what it needs)."""
import os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from check import ENV, REPO
r = subprocess.run(["go", "build", "./..."], cwd=REPO, env=ENV)
sys.exit(r.returncode)
