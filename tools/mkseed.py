#!/usr/bin/env python3
"""Development tool: record and confirm planted bugs

usage: mkseed.py SPEC.py [--notest]

SPEC defines SEEDS, a list of dicts with id, property, edits [(file, old,
new)], demo (python source), needs, breaks.  Each is applied in a scratch
copy of /repo, demonstrated with and without the patch, and the stable
tests are run on it."""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

BASE = json.load(open('/opt/vp/BASELINE.json'))['stable']
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.path.join(HERE, 'seeded')
SRC = os.environ.get('SEED_REPO', '/repo')


def sh(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, **k)


def one(s, test=True):
    d = os.path.join(OUT, s['id'])
    wt = tempfile.mkdtemp(prefix='wt_', dir='/tmp')
    repo = wt + '/repo'
    try:
        subprocess.check_call(['cp', '-a', SRC, repo])
        for f, old, new in s['edits']:
            p = os.path.join(repo, 'pyslet', f)
            t = open(p, encoding='utf-8').read()
            if t.count(old) != 1:
                return s['id'], 'EDIT matches %i times: %r' % (
                    t.count(old), old[:60])
            open(p, 'w', encoding='utf-8').write(t.replace(old, new))
        diff = sh(['git', 'diff'], repo).stdout
        os.makedirs(d, exist_ok=True)
        open(d + '/patch.diff', 'wb').write(diff)
        open(d + '/demo.py', 'w').write(s['demo'])
        open(d + '/demo.sh', 'w').write(
            '#!/bin/bash\n# run in /repo\nexec env PYTHONPATH="$PWD" '
            'PYTHONDONTWRITEBYTECODE=1 timeout 120 /opt/venv/bin/python '
            '-W ignore "$(dirname "$0")/demo.py"\n')
        os.chmod(d + '/demo.sh', 0o755)
        json.dump({'property': s['property'], 'needs': s['needs'],
                   'what_it_breaks': s['breaks']},
                  open(d + '/meta.json', 'w'), indent=1)
        a = sh([d + '/demo.sh'], SRC)
        b = sh([d + '/demo.sh'], repo)
        if a.returncode != 0:
            return s['id'], 'DEMO fails unpatched: ' + a.stdout.decode()[-800:]
        if b.returncode == 0:
            return s['id'], 'DEMO passes patched: ' + b.stdout.decode()[-400:]
        if test:
            env = dict(os.environ, HOME='/root', TZ='UTC', PYTHONHASHSEED='0',
                       PYTHONDONTWRITEBYTECODE='1', PYTHONPATH='/opt/vp')
            cmd = ('ip link set lo up; exec timeout -k 10 840 '
                   '/opt/venv/bin/python -m pytest -q -p pyslet_plugin -p '
                   'no:cacheprovider --timeout=120 --tb=short '
                   '--continue-on-collection-errors '
                   '--ignore=unittests/test_mysqldbds.py '
                   '--deselect=unittests/test_http_client.py::SecureTests '
                   '--deselect=unittests/test_http_cookie.py::'
                   'test_publicsuffix -o junit_family=xunit2 '
                   '--junitxml=%s/junit.xml unittests' % wt)
            sh(['unshare', '-Urn', 'bash', '-c', cmd], repo, env=env)
            sh(['/opt/venv/bin/python', '/opt/vp/results.py',
                wt + '/o.json', 'junit:%s/junit.xml' % wt], wt)
            got = set(json.load(open(wt + '/o.json'))['passed'])
            miss = [t for t in BASE if t not in got]
            if miss:
                shutil.rmtree(d)
                return s['id'], 'TESTS fail: %s' % miss[:5]
        c = sh([HERE + '/check.py', s['property']], HERE,
               env=dict(os.environ, PYSLINT_REPO=repo, PYSLINT_EVID=wt))
        v = c.stdout.decode()
        return s['id'], 'ok %s %s' % (
            'CAUGHT' if c.returncode == 1 and 'VIOLATION' in v else
            'MISSED(%i)' % c.returncode,
            ' | '.join(x[:140] for x in v.splitlines()
                       if x.startswith('FINDING'))[:400])
    finally:
        shutil.rmtree(wt)


if __name__ == '__main__':
    g = {}
    exec(open(sys.argv[1]).read(), g)
    test = '--notest' not in sys.argv
    only = [a for a in sys.argv[2:] if not a.startswith('-')]
    seeds = [s for s in g['SEEDS'] if not only or s['id'] in only]
    with ThreadPoolExecutor(4) as ex:
        for r in ex.map(lambda s: one(s, test), seeds):
            print(*r, flush=True)
