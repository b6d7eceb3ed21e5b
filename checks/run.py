#!/usr/bin/env python3
"""python3 checks/run.py <ID> [quick|thorough]"""
import glob
import importlib
import os
import sys
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
os.environ.setdefault('PYTHONDONTWRITEBYTECODE', '1')
sys.dont_write_bytecode = True


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    import lib
    ms = glob.glob(os.path.join(HERE, pid.lower() + '_*.py'))
    if len(ms) != 1:
        print('no check for ' + pid)
        return 2
    mod = importlib.import_module(os.path.basename(ms[0])[:-3])
    c = lib.Check(pid, tier)
    c.level = getattr(mod, 'LEVEL', 'proof')
    c.rule = ' '.join((mod.__doc__ or '').split())
    c.assumptions = list(getattr(mod, 'ASSUME', []))
    try:
        c.load()
        mod.run(c)
    except lib.AnalysisBroken as e:
        print('ANALYSIS-BROKEN %s: %s' % (pid, e))
        return 3
    except Exception:
        traceback.print_exc()
        return 3
    return c.finish()


if __name__ == '__main__':
    sys.exit(main())
