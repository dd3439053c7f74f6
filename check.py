#!/usr/bin/env python3
"""Entry point of every check: check.py P01 [--tier quick|thorough] [--replay FILE]"""
import argparse, os, sys
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, "vlib"))
sys.path.insert(0, os.path.join(V, "checks"))
sys.dont_write_bytecode = True
import core
ap = argparse.ArgumentParser()
ap.add_argument("id")
ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
ap.add_argument("--replay")
a = ap.parse_args()
sys.stdout.reconfigure(line_buffering=True)
sys.exit(core.run_check(a.id.lower(), a.tier, int(os.environ.get("VERIF_SEED", "1")), a.replay))
