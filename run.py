#!/usr/bin/env python3
"python3 /verif/run.py C01 [--tier quick|thorough] [--replay FILE]"
import argparse
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mc import core

ap = argparse.ArgumentParser()
ap.add_argument('property')
ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick', choices=('quick', 'thorough'))
ap.add_argument('--replay')
a = ap.parse_args()
sys.stdout.reconfigure(errors='backslashreplace')
sys.exit(core.run_check(a.property, a.tier, a.replay))
