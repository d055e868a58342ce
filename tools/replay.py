#!/usr/bin/env python3
"""Replay a violation file against /repo's current tree (exit 1: reproduced)."""
import json, os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check
f = sys.argv[1]
binary, _ = check.build(json.load(open(f)).get("variant") == "single-weight")
sys.exit(subprocess.call([binary, "replay", f] + sys.argv[2:]))
