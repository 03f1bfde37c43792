#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough] [--replay FILE] [--family REGEX]"""
import argparse
import importlib
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mc import env  # noqa: E402

env.reexec_if_needed()
ap = argparse.ArgumentParser()
ap.add_argument('id')
ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
ap.add_argument('--replay')
ap.add_argument('--family')
a = ap.parse_args()
env.setup()
from mc import core  # noqa: E402
from mc.props import PROPS  # noqa: E402

mod = importlib.import_module('mc.checks.' + a.id.lower())
if a.replay:
    sys.exit(core.replay(mod.FAMILIES, a.replay))
sys.stdout.reconfigure(line_buffering=True)
sys.exit(core.run_check(a.id, PROPS[a.id]['title'], mod.FAMILIES, a.tier, int(os.environ.get('VERIF_SEED', '1')),
                        rule=mod.RULE, assumptions=getattr(mod, 'ASSUMPTIONS', ()), only_family=a.family))
