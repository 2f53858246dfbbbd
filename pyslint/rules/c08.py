"""C08: form posts need their session's token, sessions a fresh identifier"""

import ast

from ..guards import (EventCheck, facts_eq, family, has, is_attr, is_call,
                      knows, knows_eq, parts, strip)
from ..interp import NONE, T, is_const
from ..repo import AnalysisError, Class, Ext, Func, walk_own
from ..rulebase import helpers_only, run_func, where_of
from .c07 import Session, raw_cookie, scope

REQ = 'REQUEST_METHOD'


def method_term(t):
    t = strip(t, {'upper', 'str', 'strip', 'decode', 'to_text'})
    return (t.op == 'sub' and is_const(t.args[1], REQ)) or (
        is_call(t, 'get') and t.args[3] and is_const(t.args[3][0], REQ))


def query_term(name):
    def pred(t):
        t = strip(t)
        return (t.op == 'sub' and is_const(t.args[1], name) and
                has(t.args[0], lambda x: is_call(x, 'get_query'))) or (
            is_call(t, 'get') and t.args[3] and
            is_const(t.args[3][0], name) and t.args[2] is not None and
            has(t.args[2], lambda x: is_call(x, 'get_query')))
    return pred


def agent(t):
    t = strip(t)
    return (is_call(t, 'get') and t.args[3] and
            is_const(t.args[3][0], 'HTTP_USER_AGENT')) or (
        t.op == 'sub' and is_const(t.args[1], 'HTTP_USER_AGENT'))


class Csrf(Session):

    """Reuses the signature events of C07"""

    def call(self, it, st, ci):
        f = self.func
        name = ci.name
        if f.name == 'session_wrapper' and self.protected(ci):
            self.post(it, st, ci)
        if f.name == 'session_page' and ci.fterm is not None and \
                strip(ci.fterm) is T('param', 'page_method'):
            ok = knows(st, lambda t: t.op == 'cmp' and t.args[0] == 'in' and
                       is_attr(t.args[1], '_test_cookie'), True)
            self.note('test', "%s:page" % f.short, ok, "the protected "
                      "handler runs although the browser has not returned "
                      "the test cookie", ci.where, st.trace)
        if f.name in ('ctest', 'wlaunch') and name in (
                'set_session', 'merge_session', 'set_session_cookie',
                'establish_session'):
            self.exchange(it, st, ci)
        if self.source(ci) is not None or name in (
                'check_signature', 'decode'):
            Session.call(self, it, st, ci)
        return None

    def note(self, rule, *a, **k):
        if rule in ('verified', 'raw', 'store', 'no-error', 'fresh'):
            return
        Session.note(self, rule, *a, **k)

    def protected(self, ci):
        if ci.name == 'session_page':
            return True
        return ci.fterm is not None and \
            strip(ci.fterm) is T('param', 'page_method')

    def post(self, it, st, ci):
        inst = "%s:%s" % (self.func.short, 'page')
        # a session put in the context earlier in the same request
        if any(p is False and t.op == 'cmp' and t.args[0] == 'is' and
               is_attr(t.args[1], 'session') and t.args[2] is NONE
               for t, p in st.facts.items()) and not any(
                   k[1] == 'session' for k in st.heap):
            return
        if any((method_term(a) and is_const(b, 'POST')) or
               (method_term(b) and is_const(a, 'POST'))
               for a, b in facts_eq(st, False)):
            self.note('csrf', inst + ':other', True)
            return
        ok = False
        for a, b in facts_eq(st):
            for tok, sid in ((strip(a), strip(b)), (strip(b), strip(a))):
                if is_call(tok, 'get_form_string') and tok.args[3] and \
                        is_attr(tok.args[3][0], 'csrf_token') and \
                        is_attr(sid, 'sid'):
                    s = sid.args[0]
                    if (self.issession(s) or is_call(s, 'SessionClass')):
                        src = s.args[1] if self.issession(s) else s.args[3]
                        if src and self.verified(st, src[0]) and has(
                                src[0], lambda x: raw_cookie(x)):
                            ok = True
        self.note('csrf', inst, ok, "a form post reaches the protected "
                  "handler on a path where its token did not have to "
                  "equal the identifier of the session in the verified "
                  "cookie", ci.where, st.trace)

    def exchange(self, it, st, ci):
        f = self.func
        inst = "%s:%s" % (f.short, ci.name)
        q = [s for _, s, m in self.events(st, 'sig')
             if m is not NONE and query_term('sig')(s) and
             self.covers(m, ('s', 'return')) and any(
                 agent(x) for x in parts(m))]
        self.note('exchange', inst + ':signature', bool(q),
                  "the session in the query is acted on although the "
                  "signature over it, the return address and the user "
                  "agent was not checked", ci.where, st.trace)
        self.note('exchange', inst + ':unestablished',
                  self.unest(st, query_term('s')),
                  "an established session in the query is acted on",
                  ci.where, st.trace)
        red = any(p is True and is_call(t, 'check_redirect') and
                  len(t.args[3]) > 1 and query_term('return')(t.args[3][1])
                  for t, p in st.facts.items())
        self.note('exchange', inst + ':return', red,
                  "the request is acted on although the return address "
                  "has not been checked", ci.where, st.trace)
        if f.name == 'ctest':
            c = [s for _, s, m in self.events(st, 'sig') if raw_cookie(s)]
            self.note('exchange', inst + ':cookie', bool(c) and self.unest(
                st, raw_cookie, True), "the session cookie is not checked "
                "to hold a signed, unestablished session", ci.where,
                st.trace)
            same = knows_eq(
                st, lambda t: is_attr(t, 'sid') and self.src(
                    t.args[0], query_term('s')),
                lambda t: is_attr(t, 'sid') and self.src(
                    t.args[0], raw_cookie))
            self.note('exchange', inst + ':same', same,
                      "the session in the cookie does not have to be the "
                      "one in the query", ci.where, st.trace)

    def covers(self, m, names):
        ps = parts(m)
        return all(any(query_term(n)(x) for x in ps) for n in names)

    def src(self, s, pred):
        src = None
        if self.issession(s):
            src = s.args[1]
        elif is_call(s, 'SessionClass'):
            src = s.args[3]
        return bool(src) and has(src[0], pred)

    def unest(self, st, pred, deep=False):
        return any(p is False and is_attr(t, 'established') and
                   self.src(t.args[0], pred)
                   for t, p in st.facts.items())

    def func_exit(self, it, st, func, kind, payload, fr):
        return None


class Establish(EventCheck):

    """establish() of the session classes"""

    def __init__(self, rep, repo):
        EventCheck.__init__(self, rep)
        self.repo = repo

    def func_exit(self, it, st, func, kind, payload, fr):
        if kind == 'raise':
            return
        w = "%s:%s" % (func.module.rel, func.node.lineno)
        me = T('param', func.params()[0])
        sid = st.heap.get((me, 'sid'))
        est = st.heap.get((me, 'established'))
        if any(e[1] == 'super' for e in self.events(st, 'did')):
            self.note('fresh', func.short, True)
            return
        ok = sid is not None and has(sid, lambda t: is_call(
            t, 'generate_key'))
        self.note('fresh', func.short, ok, "a session is established "
                  "without a newly generated identifier", w, st.trace)
        self.note('fresh', func.short + ':flag',
                  est is not None and is_const(est, True),
                  "a session is established without being marked so", w,
                  st.trace)
        before = any(p is False and t.op == 'attr' and
                     t.args[1] == 'established' for t, p in
                     st.facts.items())
        self.note('fresh', func.short + ':once', before,
                  "a session that is already established is established "
                  "again", w, st.trace)

    def after_call(self, it, st, ci, term):
        if ci.name == 'establish' and (ci.fterm is None or ci.recv is None or
                                       ci.recv.op == 'super' or
                                       it.is_root_self(ci.recv, ci.fr)):
            return self.put(st, ('did', 'super'))
        return st


class EstablishSession(EventCheck):

    """establish_session of the applications"""

    def call(self, it, st, ci):
        return None

    def after_call(self, it, st, ci, term):
        if ci.name == 'establish' and ci.recv is not None and \
                is_attr(ci.recv, 'session'):
            return self.put(st, ('did', 'establish'))
        if ci.name == 'establish_session':
            return self.put(st, ('did', 'establish'))
        return st

    def func_exit(self, it, st, func, kind, payload, fr):
        if kind != 'raise':
            self.note('fresh', func.short,
                      bool(self.events(st, 'did')),
                      "a session is reported as established on a path that "
                      "does not establish it",
                      "%s:%s" % (func.module.rel, func.node.lineno),
                      st.trace)


def decorator(repo, rep):
    """session_decorator hands every call to session_wrapper"""
    f = repo.func('wsgi.session_decorator')
    inner = [g for g in repo.funcs.values() if g.outer is f and
             not isinstance(g.node, ast.Lambda)]
    page = f.params()[0]
    good = False
    for g in inner:
        calls = [n for n in walk_own(g.node) if isinstance(n, ast.Call)]
        names = [n.func.attr if isinstance(n.func, ast.Attribute) else
                 getattr(n.func, 'id', '?') for n in calls]
        direct = [n for n in calls if isinstance(n.func, ast.Name) and
                  n.func.id == page]
        rep.check(not direct, 'decorator', g.short, "the protected handler "
                  "is called without going through session_wrapper",
                  "%s:%s" % (f.module.rel, g.node.lineno))
        if 'session_wrapper' in names:
            good = True
    for n in walk_own(f.node):
        if isinstance(n, ast.Return):
            ok = not (isinstance(n.value, ast.Name) and n.value.id == page)
            rep.check(ok, 'decorator', f.short, "the handler is returned "
                      "without protection", "%s:%s" % (
                          f.module.rel, n.lineno))
    rep.check(good, 'decorator', f.short + ':wrapper', "the decorated "
              "handler never calls session_wrapper",
              "%s:%s" % (f.module.rel, f.node.lineno))


def run(repo, rep):
    rep.rule('csrf', 'session_wrapper lets a POST through to the handler '
             'only when the form token equals the identifier of the '
             'session in the cookie whose signature was verified', 1)
    rep.rule('test', 'session_page runs the handler only when the browser '
             'returned the test cookie', 1)
    rep.rule('exchange', 'the cookie test pages act on a session only '
             'after the query signature, the return address and the '
             'unestablished state of the session were checked, and the '
             'cookie test only for the session in the cookie', 6)
    rep.rule('fresh', 'establishing a session gives it a newly generated '
             'identifier and marks it, and can happen once', 3)
    rep.rule('decorator', 'the session decorator reaches the handler only '
             'through session_wrapper', 2)
    sclasses = family(repo, 'wsgi.CookieSession')
    apps = family(repo, 'wsgi.SessionApp')
    chk = Csrf(rep, repo, sclasses)
    for f in scope(repo, chk, apps):
        if f.name in ('session_wrapper', 'session_page', 'ctest',
                      'wlaunch') and f.cls in apps:
            run_func(repo, chk, f)
    chk.flush()
    e = Establish(rep, repo)
    for c in sclasses:
        f = c.methods.get('establish')
        if f is not None:
            run_func(repo, e, f)
    e.flush()
    e = EstablishSession(rep)
    for c in apps:
        f = c.methods.get('establish_session')
        if f is not None:
            run_func(repo, e, f)
    e.flush()
    rep.part(decorator, repo, rep)
