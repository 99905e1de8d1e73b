#!/usr/bin/env python3
"""usage: python3-vt check.py <property id>   (VERIF_TIER=quick|thorough, VERIF_SEED)"""
import sys, os, importlib
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from vt import framework, build
def main():
    prop = sys.argv[1].upper()
    if len(sys.argv) > 2: os.environ['VERIF_TIER'] = framework.TIER = sys.argv[2]
    mod = importlib.import_module('checks.' + prop.lower())
    ck = framework.Check(prop, getattr(mod, 'LEVEL', 'proof'))
    try:
        mod.run(ck, framework.TIER)
    except build.BuildError as e:
        print('BUILD-ERROR', e); sys.exit(2)
    sys.exit(ck.finish())
main()
