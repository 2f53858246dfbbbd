"""Collecting obligations, findings and evidence"""

import fnmatch
import json
import os
import sys
import time

from .repo import AnalysisError

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Report(object):

    def __init__(self, prop, tier):
        self.prop = prop
        self.tier = tier
        self.t0 = time.time()
        self.oblig = {}      # rule -> {instance: ok?}
        self.minimum = {}
        self.rules = {}
        self.findings = {}   # key -> (msg, where, trace)
        self.funcs = set()
        self.notes = []
        self.stats = {}
        self.samples = []
        self.undecided = []

    def part(self, fn, *args):
        """Runs one part of a check

        A part that meets code it cannot follow is reported as undecided,
        it does not keep the others from being decided"""
        try:
            return fn(*args)
        except Exception as e:
            if os.environ.get('PYSLINT_STRICT'):
                raise
            self.give_up(fn.__name__, e)

    def give_up(self, what, e):
        self.undecided.append("%s: %s %s" % (what, type(e).__name__, e))

    def rule(self, name, text, minimum=1):
        """Declares a rule and the confirmed minimum of its instances"""
        self.rules[name] = text
        self.minimum[name] = minimum
        self.oblig.setdefault(name, {})

    def ok(self, rule, inst):
        self.oblig[rule].setdefault(inst, True)

    def bad(self, rule, inst, msg, where='', trace=()):
        """Records a violation; inst must not contain line numbers"""
        self.oblig[rule][inst] = False
        key = "%s|%s" % (rule, inst)
        if key not in self.findings:
            self.findings[key] = (msg, where, list(trace))

    def check(self, cond, rule, inst, msg, where='', trace=()):
        if cond:
            self.ok(rule, inst)
        else:
            self.bad(rule, inst, msg, where, trace)
        return cond

    def require(self, cond, msg):
        if not cond:
            raise AnalysisError(msg)


def load_known(prop):
    known = {}
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        with open(p) as f:
            for line in f:
                line = line.strip()
                if not line.startswith('finding:'):
                    continue
                head, _, desc = line.partition(' :: ')
                parts = head.split(None, 2)
                if len(parts) < 3 or parts[1] != 'property=' + prop:
                    continue
                if parts[2].startswith('key='):
                    known[parts[2][4:].strip()] = desc.strip()
    return known


def finish(rep):
    """Writes evidence, prints the verdict and returns the exit status"""
    for r, n in sorted(rep.minimum.items()):
        have = len(rep.oblig[r])
        if rep.undecided:
            continue
        if have < (n + 2) // 3 and not rep.findings:
            raise AnalysisError(
                "rule %s matched %i instances, confirmed minimum is %i" %
                (r, have, n))
    known = load_known(rep.prop)
    new = {}
    old = {}
    for k, v in rep.findings.items():
        m = k in known or any('*' in x and fnmatch.fnmatchcase(k, x)
                              for x in known)
        (old if m else new)[k] = v
    total = sum(len(v) for v in rep.oblig.values())
    if rep.undecided and not rep.findings and total < sum(
            rep.minimum.values()) / 3.0:
        raise AnalysisError("most of the code could not be followed: " +
                            '; '.join(rep.undecided))
    good = sum(1 for v in rep.oblig.values() for x in v.values() if x)
    evdir = os.environ.get('PYSLINT_EVID') or os.path.join(
        HERE, 'evidence')
    if not os.path.isdir(evdir):
        os.makedirs(evdir)
    samples = list(rep.samples)
    for r in sorted(rep.oblig):
        for i in sorted(rep.oblig[r])[:4]:
            samples.append("%s: %s [%s]" % (
                r, i, "holds" if rep.oblig[r][i] else "violated"))
    ev = {
        'property': rep.prop,
        'tier': rep.tier,
        'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
        'level': 'other',
        'coverage': {
            'explanation':
                'Static analysis of the current /repo/pyslet source: '
                'each rule instance below is an obligation decided on '
                'every path/site of the analysed functions. ' +
                ' '.join(rep.notes),
            'obligations': total,
            'discharged': good,
            'rules': {r: {'text': rep.rules[r],
                          'instances': len(rep.oblig[r]),
                          'minimum': rep.minimum[r]}
                      for r in sorted(rep.rules)},
            'functions_analysed': len(rep.funcs),
            'functions': sorted(rep.funcs)[:400],
            'stats': rep.stats,
            'samples': samples[:60],
            'known_findings': sorted(old),
            'undecided': rep.undecided,
        },
        'violations': len(new),
        'wall_s': round(time.time() - rep.t0, 2),
    }
    path = os.path.join(evdir, rep.prop + '.json')
    with open(path, 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True)
        f.write('\n')
    print("property %s: %i obligations, %i discharged, %i rules, "
          "%i functions analysed, %.1fs" %
          (rep.prop, total, good, len(rep.rules), len(rep.funcs),
           time.time() - rep.t0))
    for r in sorted(rep.rules):
        print("  rule %s: %i instances (min %i)" % (
            r, len(rep.oblig[r]), rep.minimum[r]))
    for u in rep.undecided:
        print("UNDECIDED property=%s %s" % (rep.prop, u))
    for k in sorted(old):
        print("KNOWN-FINDING: property=%s %s %s" % (
            rep.prop, k, old[k][0]))
    if not new:
        return 0
    vpath = os.path.join(evdir, rep.prop + '.violations.txt')
    with open(vpath, 'w') as f:
        for k in sorted(new):
            msg, where, trace = new[k]
            f.write("%s\n  %s\n  at %s\n" % (k, msg, where))
            for t in trace:
                f.write("    %s\n" % (t,))
    for k in sorted(new):
        msg, where, trace = new[k]
        print("FINDING %s: %s (%s)" % (k, msg, where))
        for t in trace[-12:]:
            print("      %s" % (t,))
    print("VIOLATION property=%s replay=%s" % (rep.prop, vpath))
    sys.stdout.flush()
    return 1
