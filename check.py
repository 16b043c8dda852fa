#!/usr/bin/env python3
"""check.py <property id>: run the rules of one property on /repo's current tree"""
import importlib
import os
import sys
import traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from po.program import Program, Broken
from po.check import Check
from po import registry


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED') or 1)
    try:
        mod, fn = registry.RULES[pid]
        prog = Program()
        ck = Check(pid, prog)
        ck.tier = tier
        f = getattr(importlib.import_module('po.' + mod), fn)
        try:
            f(ck)
        except Broken as x:
            # a construct the rules are anchored at is gone: the rest is undecided, not violated
            ck.ob('analysis', None, pid, 'cannot be checked: %s' % x)
        except Exception as x:
            traceback.print_exc()
            ck.ob('analysis', None, pid, 'the analysis does not understand this code: %s' % type(x).__name__)
        return ck.finish(tier, seed)
    except Broken as x:
        print('%s: cannot be checked: %s' % (pid, x))
        return 2
    except Exception:
        traceback.print_exc()
        return 2


if __name__ == '__main__':
    sys.exit(main())
