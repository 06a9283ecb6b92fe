#!/usr/bin/env python3
"""run.py <property id> [quick|thorough]: decide one property statically from /repo's current sources"""
import os
import sys
if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
import importlib
from sa.ctx import Ctx, finish
from sa.build import AnalysisError


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    mod = importlib.import_module('checks.' + pid.lower())
    ctx = Ctx(pid, tier, int(os.environ.get('VERIF_SEED', '1') or 1))
    try:
        mod.check(ctx)
    except AnalysisError as e:
        print('ANALYSIS-ERROR %s: %s' % (pid, e))
        return 2
    return finish(ctx)


if __name__ == '__main__':
    sys.exit(main())
