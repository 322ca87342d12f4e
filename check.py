#!/usr/bin/env python3-vt
"""check.py PROPERTY [quick|thorough]"""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
if os.environ.get('PYTHONHASHSEED') != '0': os.environ['PYTHONHASHSEED'] = '0'; os.execv(sys.executable, [sys.executable] + sys.argv)      # the order of facts is the same in every run
pid = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
if pid in ('P01', 'P02', 'P03', 'P04', 'P05', 'P15'):
    from lib import alg_check; sys.exit(alg_check.main(pid, tier))
import importlib
sys.exit(importlib.import_module('lib.check_' + pid.lower()).main(pid, tier))
