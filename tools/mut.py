#!/usr/bin/env python3
"""Development tool: run one check on edited copies of the package

usage: mut.py PROP SPEC.py ; SPEC defines MUTS, a list of (label, expect,
file, old, new), expect 1 for a violation and 0 for silence; old may be a
(text, n) pair to pick the n-th occurrence; file None means a list of edits
(file, old, new)."""
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

CHECK = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(
    __file__))), 'check.py')


def sub(t, old, new):
    if isinstance(old, tuple):
        old, n = old
        i = -1
        for _ in range(n):
            i = t.index(old, i + 1)
        return t[:i] + new + t[i + len(old):]
    if t.count(old) != 1:
        raise ValueError("%i matches: %r" % (t.count(old), old[:60]))
    return t.replace(old, new)


def one(prop, m):
    label, expect, f, old, new = (tuple(m) + (None,))[:5]
    d = tempfile.mkdtemp(prefix='mut_', dir='/tmp')
    try:
        shutil.copytree(os.environ.get('MUT_REPO', '/repo') + '/pyslet', d + '/pyslet',
                        ignore=shutil.ignore_patterns('__pycache__'))
        edits = [(f, old, new)] if f else old
        try:
            for f, old, new in edits:
                p = d + '/pyslet/' + f
                t = open(p, encoding='utf-8').read()
                t = sub(t, old, new)
                compile(t, p, 'exec')
                open(p, 'w', encoding='utf-8').write(t)
        except Exception as e:
            return label, 'EDIT ' + repr(e), ''
        r = subprocess.run(
            [sys.executable, CHECK, prop],
            env=dict(os.environ, PYSLINT_REPO=d, PYSLINT_EVID=d + '/ev'),
            stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        out = r.stdout.decode()
        fl = [x[:170] for x in out.splitlines() if x.startswith('FINDING')
              or 'ANALYSIS-ERROR' in x]
        ok = r.returncode == expect
        return label, ('ok ' if ok else '** WRONG (%i) ' % r.returncode), \
            '; '.join(fl[:2])
    finally:
        shutil.rmtree(d, ignore_errors=True)


ns = {}
exec(open(sys.argv[2]).read(), ns)
with ThreadPoolExecutor(8) as ex:
    for r in ex.map(lambda m: one(sys.argv[1], m), ns['MUTS']):
        print('%-32s %s %s' % r)
