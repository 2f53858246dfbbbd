#!/usr/bin/env python3
"""Runs the static check of one property: check.py <ID> [tier]"""

import importlib
import os
import sys
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

from pyslint.repo import Repo   # noqa
from pyslint.report import Report, finish   # noqa


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    try:
        rule = importlib.import_module('pyslint.rules.' + prop.lower())
        rep = Report(prop, tier)
        repo = Repo()
        rule.run(repo, rep)
        return finish(rep)
    except Exception as e:
        traceback.print_exc()
        print("ANALYSIS-ERROR property=%s %s" % (prop, e))
        return 2


if __name__ == '__main__':
    sys.exit(main())
