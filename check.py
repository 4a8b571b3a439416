#!/usr/bin/env python3
'''
Decides one property:  check.py <property> [--replay FILE] [--tier TIER]
Exit 0: the property held on everything explored. Exit 1: VIOLATION line(s).
Anything else: the check itself failed.
'''
import argparse
import json
import os
import sys
import traceback

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import core, registry  # noqa: E402


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int,
                    default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--replay')
    a = ap.parse_args()
    run = core.Run(a.prop, 'thorough' if a.tier == 'thorough' else 'quick',
                   a.seed)
    try:
        check, clauses = registry.CHECKS[a.prop]
        if a.replay:
            with open(a.replay) as f:
                r = json.load(f)
            run.validate(r['driver'], r['module'], [r['case']])
        else:
            check(run)
        return run.finish(clauses)
    except core.CheckError as ex:
        print('CHECK-ERROR property=%s %s' % (a.prop, ex))
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        run.close()


if __name__ == '__main__':
    sys.exit(main())
