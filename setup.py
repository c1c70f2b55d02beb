#!/usr/bin/env python3
"""Builds the drivers of all properties, so that the checks find most object files."""
import json, os, subprocess, sys
here = os.path.dirname(os.path.abspath(__file__))
bad = 0
for p in json.load(open(os.path.join(here, 'drivers', 'drivers.json'))):
    rc = subprocess.call([sys.executable, os.path.join(here, 'check.py'), p, '--build-only'])
    if rc:
        print('building %s: exit %d' % (p, rc))
        bad = 1
sys.exit(bad)
