#!/usr/bin/env python3
"""check.py <property> [--repo DIR] [--tier quick|thorough]

Decides one property of tensorflow_transform statically, from the current source.
Exit 0: holds on everything analysed.  Exit 1: VIOLATION line(s).  Exit 2: the
analysis itself could not be carried out (never a verdict).
"""
import argparse
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)

from rules import engine  # noqa: E402


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--repo', default=os.environ.get('TFT_REPO', '/repo'))
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
    ap.add_argument('--no-evidence', action='store_true')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    try:
        res = engine.decide(a.property, a.repo, a.tier, seed)
    except engine.AnalysisError as e:
        print('ANALYSIS-ERROR property=%s %s' % (a.property, e))
        return 2
    except Exception:
        traceback.print_exc()
        print('ANALYSIS-ERROR property=%s internal error' % a.property)
        return 2
    res['wall_s'] = round(time.time() - t0, 3)
    known, viol = res.pop('known'), res.pop('violation_list')
    for line in res.pop('report'):
        print(line)
    if a.v:
        for u in res.pop('undecided_list'):
            print('undecided', u)
    else:
        res.pop('undecided_list')
    for k in known:
        print('KNOWN-FINDING: property=%s %s' % (a.property, k))
    if not a.no_evidence:
        d = os.path.join(HERE, 'evidence')
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, a.property + '.json'), 'w') as f:
            json.dump(res, f, indent=1)
        rp = os.path.join(d, a.property + '.violations.json')
        if viol:
            with open(rp, 'w') as f:
                json.dump(viol, f, indent=1)
        elif os.path.exists(rp):
            os.unlink(rp)
    for v in viol:
        print('  %s: [%s] %s: %s' % (v['location'], v['rule'], v['construct'], v['text']))
        print('VIOLATION property=%s replay=%s' % (a.property, 'evidence/%s.violations.json' % a.property))
    return 1 if viol else 0


if __name__ == '__main__':
    sys.exit(main())
