#!/usr/bin/env python3
"""check.py <PROPERTY> [quick|thorough]"""
import importlib
import os
import sys
import threading

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True


def run():
    from checker.harness import main
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    mod = importlib.import_module('checker.rules.' + pid.lower())
    rc[0] = main(pid, tier, mod.check, None if hasattr(mod, 'guard') else 1)


rc = [2]
sys.setrecursionlimit(60000)
threading.stack_size(512 * 1024 * 1024)
t = threading.Thread(target=run)
t.start()
t.join()
sys.stdout.flush()
os._exit(rc[0])
