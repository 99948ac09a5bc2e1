#!/usr/bin/env python3
"""check.py <property id> [--thorough]"""
import importlib, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(ROOT, 'lib'), os.path.join(ROOT, 'checks'), os.path.join(ROOT, 'harness')]
sys.dont_write_bytecode = True
import check
pid = sys.argv[1]
sys.exit(check.main(pid, importlib.import_module(pid.lower()).run))
