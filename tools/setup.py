#!/usr/bin/env python3
"""Build every group once (checks rebuild whatever changed)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check, props, simbuild
try:
    for g in props.GROUPS: print(g, check.build(g)[0])
except simbuild.BuildError as e:
    print('BUILD ERROR: %s' % e); sys.exit(2)
