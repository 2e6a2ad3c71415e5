#!/usr/bin/env python3
"""Runs the check of one property: check.py C01.  Exit 0 held, 1 violated, 2 no verdict."""
import importlib, os, sys
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [HERE, os.path.join(HERE, 'lib')]
if __name__ == '__main__':
    import vlib
    if sys.argv[1] == 'setup':
        print('engine', vlib.build_engine())
        sys.exit(0)
    try:
        sys.exit(importlib.import_module('checks.' + sys.argv[1].lower()).main())
    except vlib.BuildError as e:
        print('BUILD-ERROR %s' % e)
        sys.exit(2)
