#!/opt/venv/bin/python
"""check.py <property> [--tier quick|thorough] [--replay FILE]: decide one property on /repo's working tree."""
import argparse
import os
import sys

if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import runner

ap = argparse.ArgumentParser()
ap.add_argument('property')
ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick', choices=['quick', 'thorough'])
ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED') or 1))
ap.add_argument('--replay')
a = ap.parse_args()
sys.exit(runner.main(a.property, a.tier, a.seed, a.replay))
