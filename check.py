#!/usr/bin/env python3
"""
check.py ID [--tier quick|thorough] [--seed N]    decide one property
check.py --replay FILE                            judge a recorded violation again
"""
import argparse
import json
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'harness'))

import plan                                                    # noqa: E402


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick', choices=['quick', 'thorough'])
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED') or 1))
    ap.add_argument('--replay')
    ap.add_argument('--scale', type=float, default=1.6, help='multiply the number of programs of the quick part')
    a = ap.parse_args()
    if a.replay:
        return plan.replay(a.replay)
    if a.property not in plan.PLAN:
        ap.error('unknown property %r' % a.property)
    return plan.decide(a.property, a.tier, a.seed, a.scale)


if __name__ == '__main__':
    sys.exit(main())
