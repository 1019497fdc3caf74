#!/usr/bin/env python3
"""Checks that the tools the checks need are here; every check builds its own harness from /repo's tree."""
import subprocess, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.makedirs(V + "/build", exist_ok=True); os.makedirs(V + "/evidence", exist_ok=True)
sys.exit(subprocess.run(["g++", "--version"]).returncode)
