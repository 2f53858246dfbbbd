"""C12: visits and permissions are only reachable from their own session"""

import ast

from ..guards import (EventCheck, facts_eq, family, flows, has, is_attr,
                      is_call, knows, parts, strip, unver)
from ..interp import NONE, T, is_const
from ..repo import AnalysisError, Class, Ext, Func, walk_own
from ..rulebase import helpers_only, run_func, where_of

MOD = 'imsbltiv1p0'
PLAINF = 'Session eq :'


def visits(t):
    """t is the collection of visits"""
    return has(t, lambda x: x.op == 'sub' and is_const(
        x.args[1], 'Visits'))


def ses(t, base=None):
    """t is the identifier of a session in a context or of a session"""
    t = strip(t)
    if t.op == 'kill' and t.args[0] == 'sid':
        # a method of the session has changed it
        return base is None or base(t.args[1])
    return is_attr(t, 'sid') and (
        base is None or base(t.args[0]))


def own(t):
    """the session of the request context"""
    return is_attr(t, 'session') and t.args[0].op == 'param' and \
        t.args[0].args[0] == 'context'


def merged(t):
    return t.op == 'param' and t.args[0] == 'merge_session'


def visit_of(t):
    """The collection of which t is an element, or None"""
    t = unver(t)
    if t.op in ('elem', 'elemof'):
        return t.args[0]
    if t.op == 'sub':
        return t.args[0]
    return None


class Visits(EventCheck):

    """Which visits a function sees, and what it does to them"""

    def __init__(self, rep, repo):
        EventCheck.__init__(self, rep)
        self.repo = repo

    # ---- the value of a query parameter ------------------------------
    def after_call(self, it, st, ci, term):
        if ci.name == 'set_from_value' and ci.recv is not None and ci.args:
            if ci.recv.op == 'call' and ci.recv.args[0] in (
                    'from_type', 'EDMValue'):
                st = st.with_auto(frozenset(
                    e for e in st.auto if not (
                        e[0] == 'val' and e[1] is ci.recv)) | {
                            ('val', ci.recv, ci.args[0])})
        if ci.name == 'set_filter' and ci.recv is not None and \
                visits(ci.recv):
            st = st.with_auto(frozenset(
                e for e in st.auto if not (
                    e[0] in ('filter', 'fixed') and e[1] is ci.recv)))
            a = ci.args[0] if ci.args else NONE
            v = None
            if is_call(a, 'from_str') and len(a.args[3]) > 1:
                v = self.filtered(st, a)
            st = self.put(st, ('filter', ci.recv, v))
        if ci.name in ('values', 'itervalues', 'items', 'iteritems') and \
                ci.recv is not None and visits(ci.recv):
            f = [e[2] for e in self.events(st, 'filter')
                 if e[1] is ci.recv]
            v = None
            if f and f[0] is not None:
                v = self.value(st, f[0])
            # the query is built, with its parameters, when it is first
            # used: only a new filter changes them
            old = [e[2] for e in self.events(st, 'fixed')
                   if e[1] is ci.recv]
            if old:
                v = old[0] if len(old) == 1 else None
            else:
                st = self.put(st, ('fixed', ci.recv, v))
            st = self.put(st, ('list', term, v))
            self.note('own', "%s:%s" % (self.func.short, ci.name),
                      v is not None and ses(v), "visits are listed that "
                      "need not belong to the session", ci.where, st.trace)
        if ci.name == 'establish' and ci.recv is not None and own(ci.recv):
            st = self.put(st, ('did', 'establish'))
        if ci.name == 'new_entity':
            st = self.put(st, ('new', term))
        if ci.name == 'new_visit':
            st = self.put(st, ('did', 'new_visit'))
        return st

    def filtered(self, st, a):
        """The parameter that Session is compared with, if only that"""
        text = a.args[3][0]
        if text.op != 'const' or not isinstance(text.args[0], str):
            return None
        words = text.args[0].split()
        ps = a.args[3][1]
        if len(words) < 3 or words[0] != 'Session' or words[1] != 'eq' or \
                not words[2].startswith(':') or 'or' in words or \
                'not' in words:
            return None
        if ps.op == 'dict':
            for k, v in zip(ps.args[0], ps.args[1]):
                if is_const(k, words[2][1:]):
                    return v
        return None

    def value(self, st, param):
        vs = [e[2] for e in self.events(st, 'val') if e[1] is param]
        return vs[-1] if len(vs) == 1 else None

    # ---- what is linked to which session ------------------------------
    def call(self, it, st, ci):
        if ci.name == 'set_from_value' and ci.recv is not None and \
                ci.recv.op == 'sub' and is_const(
                    ci.recv.args[1], 'Session') and ci.args:
            self.link(it, st, ci, ci.recv.args[0], ci.args[0])
        if ci.name == 'new_visit' and self.func.name != 'lti_launch' and \
                self.func.name != 'new_visit':
            self.note('link', "%s:new_visit" % self.func.short, False,
                      "a visit is created outside a launch", ci.where)
        return None

    def link(self, it, st, ci, visit, value):
        f = self.func
        inst = "%s:%s" % (f.short, 'Session')
        if value is NONE:
            self.note('link', inst + ':drop', True)
            return
        ok = ses(value, own)
        self.note('link', inst, ok, "a visit is linked to a session that "
                  "is not the session of the request", ci.where, st.trace)
        if any(e[1] is unver(visit) for e in self.events(st, 'new')):
            self.note('link', inst + ':new', f.name in (
                'new_visit',), "a visit is created outside a launch",
                ci.where)
            return
        src = visit_of(visit)
        lists = [e for e in self.events(st, 'list')
                 if src is not None and unver(src) is e[1]]
        if f.name == 'establish_session':
            # the identifier that the session had before
            ok = bool(lists) and all(
                e[2] is not None and is_attr(strip(e[2]), 'sid') and
                ses(e[2], own) for e in lists)
            self.note('link', inst + ':source', ok, "visits other than "
                      "those of the unestablished session are moved to "
                      "the established one", ci.where, st.trace)
            self.note('link', inst + ':after', (
                'did', 'establish') in st.auto, "visits are moved before "
                "the session has its new identifier", ci.where, st.trace)
            # the list is taken before the identifier changes
        elif f.name == 'merge_session':
            ok = bool(lists) and all(e[2] is not None and ses(e[2], merged)
                                     for e in lists)
            self.note('link', inst + ':source', ok, "visits other than "
                      "those of the merged session are moved",
                      ci.where, st.trace)
        else:
            self.note('link', inst + ':where', False, "a visit is linked "
                      "to a session outside a launch, an establishment or "
                      "a merge", ci.where)

    def func_exit(self, it, st, func, kind, payload, fr):
        if kind == 'raise':
            return
        w = "%s:%s" % (func.module.rel, func.node.lineno)
        if func.name == 'find_visit':
            if payload is None or payload is NONE:
                return
            src = visit_of(payload)
            lists = [e for e in self.events(st, 'list')
                     if src is not None and unver(src) is e[1]]
            ok = bool(lists) and all(
                e[2] is not None and ses(e[2], own) for e in lists)
            self.note('find', func.short + ':session', ok, "a visit is "
                      "found that need not belong to the session of the "
                      "request", w, st.trace)
            rid = T('param', func.params()[2])
            v = unver(payload)

            def reskey(t):
                return is_call(t, 'key') and t.args[2] is not None and has(
                    t.args[2], lambda x: x.op == 'sub' and is_const(
                        x.args[1], 'Resource') and unver(x.args[0]) is v)
            ok = any((a is rid and reskey(b)) or (b is rid and reskey(a))
                     for a, b in facts_eq(st))
            self.note('find', func.short + ':resource', ok, "a visit to "
                      "another resource is found", w, st.trace)


class Load(EventCheck):

    """load_visit"""

    ATTRS = {'permissions': ('Permissions',), 'resource': ('Resource',),
             'user': ('User',), 'group': ('Resource', 'Context'),
             'consumer': ('Resource', 'Consumer')}

    def path(self, t):
        """Names followed from the visit to t, None if not from it"""
        out = []
        while True:
            t = unver(t)
            if is_attr(t, 'visit') and t.args[0].op == 'param' or \
                    is_call(t, 'find_visit'):
                return tuple(reversed(out))
            if is_attr(t, 'value'):
                t = t.args[0]
            elif is_attr(t, 'resource') and t.args[0].op == 'param':
                return ('Resource',) + tuple(reversed(out))
            elif t.op == 'call' and t.args[2] is not None and \
                    t.args[0] in ('get_entity', 'get_value'):
                t = t.args[2]
            elif t.op == 'new' and t.args[1]:
                t = t.args[1][0]
            elif t.op == 'call' and t.args[0] == 'ToolConsumer' and \
                    t.args[3]:
                t = t.args[3][0]
            elif t.op == 'sub' and t.args[1].op == 'const':
                out.append(t.args[1].args[0])
                t = t.args[0]
            else:
                return None

    def call(self, it, st, ci):
        if ci.name == 'find_visit':
            a = ci.arg(1, 'resource_id')
            ok = a is not None and has(a, lambda x: x.op == 'sub' and
                                       is_const(x.args[1], 'PATH_INFO'))
            self.note('load', self.func.short + ':path', ok, "the visit "
                      "looked for is not the one of the resource in the "
                      "path", ci.where)
        return None

    def attr_store(self, it, st, base, attr, value, node, fr):
        f = self.func
        w = where_of(fr, node)
        if base.op != 'param' or base.args[0] != 'context':
            return st
        if attr == 'visit':
            self.note('load', f.short + ':visit',
                      is_call(strip(value), 'find_visit'),
                      "the visit does not come from find_visit", w)
        elif attr in self.ATTRS:
            ok = self.path(value) == self.ATTRS[attr]
            self.note('load', f.short + ':' + attr, bool(ok), "the %s of "
                      "the request is not taken from the visit" % attr, w)
            none = False
            for t, p in st.facts.items():
                if t.op == 'cmp' and t.args[0] == 'is' and \
                        t.args[2] is NONE and p is False and (
                            is_attr(t.args[1], 'visit') or
                            is_call(t.args[1], 'find_visit')):
                    none = True
                if p is True and (is_attr(t, 'visit') or
                                  is_call(t, 'find_visit')):
                    none = True
            self.note('load', f.short + ':required', none, "the request "
                      "is served without a visit", w, st.trace)
        return st

    def func_exit(self, it, st, func, kind, payload, fr):
        if kind == 'raise':
            return
        w = "%s:%s" % (func.module.rel, func.node.lineno)
        new = [v for (b, a), v in st.heap.items() if a == 'visit']
        if not new:
            # an earlier visit: only when there was one
            ok = any(t.op == 'cmp' and t.args[0] == 'is' and
                     t.args[2] is NONE and is_attr(t.args[1], 'visit') and
                     p is False for t, p in st.facts.items()) or any(
                is_attr(t, 'visit') and p is True
                for t, p in st.facts.items())
            self.note('load', func.short + ':exit', ok, "load_visit "
                      "returns without a visit", w, st.trace)
            return
        v = strip(new[0])
        ok = st.facts.get(T('cmp', 'is', v, NONE)) is False or \
            st.facts.get(v) is True
        self.note('load', func.short + ':exit', ok, "load_visit returns "
                  "although no visit was found", w, st.trace)


class New(Visits):

    """What new_visit and merge_session drop, what new_visit creates"""

    def note(self, rule, *args, **kwargs):
        if rule in ('replace', 'made'):
            Visits.note(self, rule, *args, **kwargs)

    def after_call(self, it, st, ci, term):
        st = Visits.after_call(self, it, st, ci, term)
        if ci.recv is None or not ci.args:
            return st
        r = unver(ci.recv)
        if ci.name in ('set_from_value', 'bind_entity') and \
                r.op == 'sub' and r.args[1].op == 'const':
            v, n = unver(r.args[0]), r.args[1].args[0]
            if n == 'Session' and ci.args[0] is NONE:
                st = self.put(st, ('drop', v))
            if ('new', v) in st.auto:
                st = self.put(st, ('field', v, n, strip(ci.args[0])))
        elif ci.name == 'update_entity':
            v = unver(ci.args[0])
            if ('drop', v) in st.auto:
                st = self.put(st, ('saved', v))
        return st

    def call(self, it, st, ci):
        f = self.func
        if ci.name == 'insert_entity' and ci.args:
            v = unver(ci.args[0])
            if ('new', v) in st.auto:
                self.made(st, ci, v)
        if ci.name == 'set_from_value' and ci.recv is not None and \
                ci.recv.op == 'sub' and is_const(
                    ci.recv.args[1], 'Session') and ci.args and \
                ci.args[0] is not NONE:
            looked = any(e[2] is not None and ses(e[2], own)
                         for e in self.events(st, 'list'))
            self.note('replace', f.short + ':looked', looked, "a visit is "
                      "linked to the session without looking at the "
                      "visits of the session", ci.where, st.trace)
        return None

    def made(self, st, ci, v):
        f = self.func
        got = {}
        for e in self.events(st, 'field'):
            if e[1] is v:
                got.setdefault(e[2], []).append(e[3])

        def ctx(name):
            return lambda t: is_attr(t, name) and \
                t.args[0].op == 'param' and t.args[0].args[0] == 'context'
        nouser = any(
            (t.op == 'cmp' and t.args[0] == 'is' and t.args[2] is NONE and
             ctx('user')(t.args[1]) and p is True) or
            (ctx('user')(t) and p is False) for t, p in st.facts.items())
        for n, pred in (('Permissions', ctx('permissions')),
                        ('Session', lambda t: ses(t, own)),
                        ('Resource', ctx('resource')),
                        ('User', ctx('user'))):
            if n == 'User' and nouser and n not in got:
                continue
            vals = got.get(n, [])
            self.note('made', "%s:%s" % (f.short, n), len(vals) == 1 and
                      pred(vals[0]), "a new visit is stored whose %s is "
                      "not the one of the launch" % n, ci.where, st.trace)

    def loop_back(self, it, st, node, fr):
        f = self.func
        v = None
        tg = getattr(node, 'target', None)
        if isinstance(tg, ast.Name):
            v = st.env.get(tg.id)
        if v is None:
            return st
        v = unver(v)
        src = visit_of(v)
        lists = [e for e in self.events(st, 'list')
                 if src is not None and unver(src) is e[1]]
        if not lists or not all(e[2] is not None and ses(e[2], own)
                                for e in lists):
            return st
        d = {}
        for t, p in st.facts.items():
            if t.op != 'cmp' or t.args[0] != '==':
                continue
            ks = set()
            mine = 0
            for x in t.args[1:]:
                k = self.kind(x.args[2] if is_call(x, 'key') and
                              x.args[2] is not None else x)
                ks.add(k)
                mine += has(x, lambda y: y is v)
            if len(ks) == 1 and mine == 1:
                d[ks.pop()] = p
        saved = ('saved', v) in st.auto
        w = "%s:%s" % (f.module.rel, node.lineno)
        self.note('replace', f.short + ':resource', saved or
                  d.get('resource') is False,
                  "an earlier visit to the same resource stays in "
                  "the session", w, st.trace)
        self.note('replace', f.short + ':user', saved or
                  d.get('consumer') is False or d.get('user') is True or
                  self.anonymous(st),
                  "the visit of another user of the same consumer "
                  "stays in the session", w, st.trace)
        if saved:
            ok = d.get('resource') is True or (
                d.get('consumer') is True and d.get('user') is False)
            self.note('replace', f.short + ':only', ok,
                      "a visit is dropped that the new one does not "
                      "replace", w, st.trace)
        elif ('drop', v) in st.auto:
            self.note('replace', f.short + ':saved', False, "a visit is "
                      "dropped without being stored", w, st.trace)
        # forget the visit of this iteration
        return st.with_auto(frozenset(
            e for e in (st.auto or ()) if e[0] not in ('drop', 'saved') or
            e[1] is not v))

    def anonymous(self, st):
        """neither visit has a user"""
        none = [t.args[1] for t, p in st.facts.items()
                if t.op == 'cmp' and t.args[0] == 'is' and
                t.args[2] is NONE and p is True]
        none += [t for t, p in st.facts.items() if p is False]
        got = {has(t, lambda x: x.op == 'sub' and is_const(
            x.args[1], 'User')) for t in none if self.kind(t) == 'user'}
        return len(got) == 2

    def func_exit(self, it, st, func, kind, payload, fr):
        if kind == 'raise' or func.name != 'new_visit':
            return
        new = [v for (b, a), v in st.heap.items() if a == 'visit' and
               b.op == 'param' and b.args[0] == 'context']
        ok = bool(new) and ('new', unver(new[0])) in st.auto
        self.note('made', func.short + ':context', ok, "new_visit leaves "
                  "another visit in the context",
                  "%s:%s" % (func.module.rel, func.node.lineno), st.trace)

    def kind(self, t):
        """'resource', 'consumer' or 'user', whichever t leads to"""
        t = unver(t)
        while True:
            if t.op == 'call' and t.args[2] is not None and t.args[0] in (
                    'get_entity', 'key', 'get_value'):
                t = unver(t.args[2])
            elif is_attr(t, 'entity'):
                t = unver(t.args[0])
            else:
                break
        if t.op == 'sub' and t.args[1].op == 'const' and t.args[1].args[
                0] in ('Resource', 'Consumer', 'User'):
            return t.args[1].args[0].lower()
        if is_attr(t, 'resource', 'consumer', 'user'):
            return t.args[1]
        return None

    def relevant(self, t):
        return t.op == 'cmp' and t.args[0] == '=='


def run(repo, rep):
    rep.rule('own', 'visits are only listed through a filter that makes '
             'them visits of one session', 3)
    rep.rule('find', 'find_visit only returns a visit of the session of '
             'the request to the resource asked for', 2)
    rep.rule('load', 'load_visit takes everything from the visit found, '
             'and never returns without one', 6)
    rep.rule('link', 'a visit is only linked to the session of the '
             'request, in a launch, when that session is established or '
             'when another is merged into it, and only from the old one',
             4)
    rep.rule('replace', 'a new visit drops the earlier visits to the same '
             'resource and of other users of the same consumer', 2)
    rep.rule('made', 'a new visit is stored with the permissions, resource '
             'and user of the launch and the session of the request, and '
             'is the visit of the context', 4)
    app = family(repo, MOD + '.ToolProviderApp')
    chk = Visits(rep, repo)
    for f in sorted(repo.funcs.values(), key=lambda f: f.qual):
        if f.module.name != 'pyslet.' + MOD and f.cls not in app:
            continue
        if isinstance(f.node, ast.Lambda) or f.outer is not None or \
                helpers_only(repo, chk, f):
            continue
        names = {x.value for x in walk_own(f.node)
                 if isinstance(x, ast.Constant)} | {
            x.attr for x in walk_own(f.node)
            if isinstance(x, ast.Attribute)}
        if names & {'Visits', 'Session', 'new_visit', 'find_visit'} or \
                f.cls in app and f.name in (
                    'merge_session', 'establish_session', 'new_visit',
                    'find_visit'):
            run_func(repo, chk, f)
    chk.flush()
    ld = Load(rep)
    nw = New(rep, repo)
    for c in app:
        for n, k in (('load_visit', ld), ('new_visit', nw),
                     ('merge_session', nw)):
            f = c.methods.get(n)
            if f is not None:
                run_func(repo, k, f)
            elif c is app[0]:
                raise AnalysisError("%s not found" % n)
    ld.flush()
    nw.flush()
