#!/usr/bin/env python3
"""python3 check.py <property id>: decides one property (see DESIGN.md). Tier and seed: VERIF_TIER, VERIF_SEED."""
import os, sys, time, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
from runner import Check, MachineryError
import registry


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    tier = tier if tier in ('quick', 'thorough') else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1'))
    c = Check(pid, tier, seed)
    t0 = time.time()
    try:
        registry.CHECKS[pid](c)
        rc = c.finish(t0)
    except MachineryError as ex:
        print('MACHINERY-ERROR property=%s %s' % (pid, ex))
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 3
    finally:
        c.cleanup()
    return rc


sys.exit(main())
