"""Common base of the path rules"""

from .interp import Budget, Check, Interp
from .lockset import baseline
from .repo import AnalysisError, Class, Func


class RuleCheck(Check):

    """Collects good and bad instances, inlines helpers added since the
    rules were written"""

    inline_new = True
    keep_inline = ()      # short names of functions always inlined

    def __init__(self, rep):
        self.rep = rep
        self.base = baseline()
        self.good = {}
        self.bad = {}
        self.func = None

    def note(self, rule, inst, ok, msg='', where='', trace=()):
        if ok:
            self.good.setdefault((rule, inst), True)
        elif (rule, inst) not in self.bad:
            self.bad[(rule, inst)] = (msg, where, trace)

    def start(self, it, st, func):
        self.func = func
        return st

    def is_new(self, f):
        q = f.qual
        return q not in self.base or q.endswith('<lambda>')

    def inline(self, it, ci, f):
        if f.short in self.keep_inline:
            return True
        if self.inline_new and isinstance(f, Func) and self.is_new(f):
            return True
        return False

    def flush(self):
        for (rule, inst) in self.good:
            if (rule, inst) not in self.bad:
                self.rep.ok(rule, inst)
        for (rule, inst), (msg, where, trace) in self.bad.items():
            self.rep.bad(rule, inst, msg, where, trace)


def run_func(repo, chk, f, cls=None, budget=150000, interp=Interp,
             caps=(64, 24, 8), **kw):
    good, bad = dict(chk.good), dict(chk.bad)
    for cap in caps:
        it = interp(repo, chk, budget=budget)
        try:
            chk.cap = cap
            chk.good, chk.bad = dict(good), dict(bad)
            r = it.run(f, cls, **kw)
            chk.rep.funcs.add(f.short)
            chk.rep.stats['paths'] = chk.rep.stats.get('paths', 0) + len(r)
            return r
        except Budget:
            continue
        except AnalysisError as e:
            chk.good, chk.bad = good, bad
            chk.rep.give_up(f.short, e)
            return []
    chk.good, chk.bad = good, bad
    chk.rep.give_up(f.short, AnalysisError("budget exceeded"))
    return []


def where_of(fr, node):
    return "%s:%s" % (fr.module.rel, node.lineno)


def helpers_only(repo, chk, f):
    """True for a helper that was added since the rules were written and
    is only reached through its callers"""
    from .lockset import callers
    return chk.is_new(f) and callers(repo, f)
