"""C15: only safe and idempotent requests are repeated automatically"""

import ast

from ..guards import (EventCheck, consistent, family, has, heap_of, is_attr,
                      is_call, knows, one, unver)
from ..interp import NONE, T, is_const
from ..peval import Hooks, Obj, PEval, Sym
from ..repo import AnalysisError, Func, walk_own
from ..rulebase import helpers_only, run_func, where_of

SAFE = ('GET', 'HEAD')
IDEMPOTENT = ('GET', 'HEAD', 'PUT', 'DELETE', 'OPTIONS', 'TRACE')
METHODS = IDEMPOTENT + ('POST', 'CONNECT', 'PATCH', 'X-OTHER')
ASK = (301, 302, 307, 308)


ME = T('param', 'self')


def current(st, base, attr):
    """The value an attribute has now"""
    v = heap_of(st, base, attr)
    return T('attr', base, attr) if v is None else v


def falsy(it, st, t):
    return it.truth(st, it.cont(st, t)) is False or \
        it.truth(st, t) is False


class Finished(EventCheck):

    """What a completed request does next"""

    def __init__(self, rep, cls):
        EventCheck.__init__(self, rep)
        self.cls = cls

    def call(self, it, st, ci):
        f = self.func.short
        if ci.name in ('resend', 'queue_request') and (
                ci.name == 'queue_request' or
                ci.recv is not None and ci.recv.op in ('param', 'self')):
            url = ci.arg(0, 'url') if ci.name == 'resend' else NONE
            if url is not None and url is not NONE:
                self.redirect(it, st, ci)
            else:
                self.again(it, st, ci)
            return [(self.put(st, ('sent',)), T('call', ci.name, '', ci.recv,
                                                tuple(ci.args), ()))]
        if ci.name == 'set_authorization' and ci.args and \
                ci.args[0] is not NONE:
            return [(self.put(st, ('auth', ci.args[0])), NONE)]
        if ci.name == 'remove_credentials':
            return [(self.put(st, ('removed', ci.args[0])), NONE)]
        return None

    def redirect(self, it, st, ci):
        f = self.func.short
        me = ci.recv
        old = T('attr', me, 'method')
        status = T('attr', me, 'status')
        now = heap_of(st, me, 'method')
        bad = None
        for s in range(100, 600):
            for m in METHODS:
                def bind(t, s=s, m=m):
                    if t == status:
                        return s
                    if t == old:
                        return m
                    if is_attr(t, 'auto_redirect') and t.args[0] == me:
                        return True
                    return NotImplemented
                if not consistent(st, bind):
                    continue
                new = m
                if now is not None and now != old:
                    new = now.args[0] if now.op == 'const' else None
                if not 300 <= s <= 399:
                    bad = "status %i is followed like a redirect" % s
                elif m not in SAFE and s in ASK:
                    bad = "a %s request is redirected after status %i" % (m, s)
                elif new not in IDEMPOTENT:
                    bad = "a %s request is repeated after status %i" % (m, s)
            if bad:
                break
        self.note('redirect', f, bad is None,
                  "%s without asking the user" % bad, ci.where, st.trace)
        self.note('redirect', f + ':auto_redirect',
                  knows(st, lambda t: is_attr(t, 'auto_redirect'), True),
                  "a redirect is followed although the request was made "
                  "with auto_redirect off", ci.where, st.trace)

    def again(self, it, st, ci):
        f = self.func.short
        me = ci.recv
        status = T('attr', me, 'status')
        bad = [s for s in range(0, 600)
               if consistent(st, lambda t, s=s: s if t == status
                             else NotImplemented)]
        self.note('challenge', f + ':status', set(bad) <= {401},
                  "a request is sent again after a status that is not 401 "
                  "(for example %s)" % [s for s in bad if s != 401][:3],
                  ci.where, st.trace)
        auth = [e[1] for e in self.events(st, 'auth')]
        self.note('challenge', f + ':credentials',
                  any(it.truth(st, a) is True for a in auth),
                  "a request is sent again without new credentials",
                  ci.where, st.trace)
        self.note('challenge', f + ':once',
                  not self.events(st, 'sent'),
                  "the request may be sent more than once in answer to one "
                  "response", ci.where, st.trace)
        tried = heap_of(st, me, 'tried_credentials')
        self.note('challenge', f + ':tried',
                  tried is not None and any(a == tried for a in auth),
                  "the credentials sent are not kept in tried_credentials: "
                  "the server may refuse them for ever", ci.where, st.trace)

    def func_exit(self, it, st, func, kind, payload, fr):
        if func is not self.func or kind != 'return':
            return
        self.refused(it, st, func.where)

    def attr_store(self, it, st, base, attr, v, node, fr):
        if attr == 'tried_credentials':
            self.refused(it, st, where_of(fr, node))
        return st

    def refused(self, it, st, where):
        tried = [t for t, p in st.facts.items() if p is False and
                 t.op == 'cmp' and t.args[0] == 'is' and
                 is_attr(t.args[1], 'tried_credentials') and
                 t.args[2] is NONE] + \
                [t for t, p in st.facts.items() if p is True and
                 is_attr(t, 'tried_credentials')]
        if tried and knows(st, lambda t: t.op == 'cmp' and
                           t.args[0] == '==' and
                           any(is_attr(x, 'status') for x in t.args[1:]) and
                           any(is_const(x) and x.args[0] == 401
                               for x in t.args[1:]), True):
            self.note('challenge', self.func.short + ':removed',
                      bool(self.events(st, 'removed')),
                      "credentials that were refused stay in the client and "
                      "will be tried again for ever", where, st.trace)


def redirects(repo, rep):
    n = 0
    base = one(repo, 'http.client.ClientRequest.finished')
    seen = set()
    for c in family(repo, 'http.client.ClientRequest'):
        f = c.methods.get('finished')
        if isinstance(f, Func) and f not in seen:
            seen.add(f)
            chk = Finished(rep, c)
            run_func(repo, chk, f, c)
            chk.flush()
            n += 1
    rep.require('redirect', base.short)


# who may put a request in a queue
QUEUERS = ('http.client.Connection.close',
           'http.client.Connection.switch_protocols',
           'http.client.Client.queue_request',
           'http.client.Client.process_request',
           'http.client.ClientRequest.resend',
           'http.client.ClientRequest.finished',
           'odata2.client.EntityStream',
           'rfc5023.Client.queue_request',
           'odata2.client.Client.queue_request')


def callers_of(repo, rep, base):
    """resend and queue_request are only called from known places"""
    req = family(repo, 'http.client.ClientRequest')
    for f in list(repo.funcs.values()):
        if not isinstance(f, Func):
            continue
        for n in walk_own(f.node):
            if isinstance(n, ast.Call) and isinstance(
                    n.func, ast.Attribute) and n.func.attr == 'resend' and (
                    isinstance(n.func.value, ast.Name) and
                    f.cls is not None and f.cls in req):
                ok = f.name in ('finished', 'resend') or \
                    f.qual not in base
                rep.check(ok, 'callers', f.short,
                          "requests are sent again from a place that is not "
                          "the end of their response", where=f.where)


class Close(EventCheck):

    """What happens to requests when a connection breaks"""

    def __init__(self, rep, repo):
        EventCheck.__init__(self, rep)
        self.repo = repo
        self.conn = family(repo, 'http.client.Connection')

    def me(self, t):
        return t is not None and t.op == 'param' and t.args[0] == 'self'

    def mine(self, st, t, attr):
        if t is None:
            return False
        t = unver(t)
        return is_attr(t, attr) or t == unver(current(st, ME, attr))

    def call(self, it, st, ci):
        f = self.func.short
        if ci.name == 'disconnect' and ci.args:
            # the request is told how far the connection has got
            self.note('position', f + ':disconnect',
                      ci.args[0] == current(st, ME, 'sent_bytes'),
                      "a request is disconnected with a position that is "
                      "not the number of bytes sent so far", ci.where,
                      st.trace)
            return [(self.put(st, ('gone', ci.recv)), NONE)]
        if ci.name == 'connect' and len(ci.args) == 2 and \
                self.func.cls in self.conn and not is_attr(
                    ci.recv, 'socket'):
            self.note('position', f + ':connect',
                      ci.args[1] == current(st, ME, 'buffered_bytes') and
                      not self.events(st, 'buffered'),
                      "a request is connected with a position that is not "
                      "the number of bytes buffered before it", ci.where,
                      st.trace)
        if ci.name == 'queue_request' and self.me(ci.recv):
            r = ci.args[0]
            self.requeue(it, st, ci, r)
        return None

    def requeue(self, it, st, ci, r):
        f = self.func.short
        self.note('retry', f + ':may',
                  knows(st, lambda t: is_call(t, 'can_retry') and
                        t.args[2] == r, True),
                  "a request is queued again although it may have been "
                  "acted on: its can_retry was not asked", ci.where,
                  st.trace)
        resp = r.args[0] if is_attr(r, 'request') else None
        failed = knows(st, lambda t: t.op == 'param' and
                       t.args[0] == 'err', True) or \
            resp is not None and knows(
                st, lambda t: t.op == 'cmp' and t.args[0] == 'is' and
                is_attr(t.args[1], 'status') and t.args[1].args[0] == resp
                and t.args[2] is NONE, True)
        self.note('retry', f + ':failed', failed,
                  "a request is queued again although its response had "
                  "already begun", ci.where, st.trace)
        me = ci.recv
        cur = T('attr', me, 'request')
        told = any(e[1] == cur for e in self.events(st, 'gone')) or \
            it.truth(st, cur) is False or \
            knows(st, lambda t: t.op == 'cmp' and t.args[0] == 'is' and
                  t.args[1] == cur and t.args[2] is NONE, True)
        self.note('retry', f + ':told', told,
                  "requests are queued again before the one that was being "
                  "sent has been told how much of it was sent", ci.where,
                  st.trace)

    def after_call(self, it, st, ci, term):
        if ci.name == 'send' and self.mine(st, ci.recv, 'socket') and \
                self.func.cls in self.conn:
            return self.put(st, ('sent', term))
        if ci.name == 'append' and self.mine(st, ci.recv, 'send_buffer'):
            st = self.put(st, ('buffered',))
            early = ('counted', ci.args[0])
            if early in st.auto:
                return st.with_auto(st.auto - {early})
            return self.put(st, ('grown', ci.args[0]))
        return st

    def attr_store(self, it, st, base, attr, v, node, fr):
        f = self.func.short
        if not self.me(base):
            return st
        if attr in ('sent_bytes', 'buffered_bytes'):
            if is_const(v):
                kind = 'zero' + attr
                return self.put(st, (kind,))
            old = current(st, base, attr)
            prev = has(v, lambda x: x == old)
            if attr == 'sent_bytes':
                hit = [e for e in self.events(st, 'sent')
                       if prev and has(v, lambda x, e=e: x == e[1])]
            else:
                hit = [e for e in self.events(st, 'grown')
                       if prev and has(
                           v, lambda x, e=e: is_call(x, 'len') and
                           x.args[3][0] == e[1])]
            ok = bool(hit) and v.op == 'bin' and v.args[0] == 'Add'
            if not hit and attr == 'buffered_bytes' and prev and \
                    v.op == 'bin' and v.args[0] == 'Add' and \
                    is_call(v.args[2], 'len'):
                # counted before it is added
                return self.put(st, ('counted', v.args[2].args[3][0]))
            self.note('position', '%s:%s' % (f, attr), ok,
                      "%s is not moved on by the number of bytes just %s"
                      % (attr, 'sent' if attr == 'sent_bytes'
                         else 'buffered'), where_of(fr, node), st.trace)
            return st.with_auto(st.auto - set(hit))
        if attr == 'request' and v is NONE and self.func.name != '__init__':
            cur = heap_of(st, base, 'request') or T('attr', base, 'request')
            told = any(e[1] == cur for e in self.events(st, 'gone')) or \
                it.truth(st, cur) is False or any(
                    e[0] == 'gone' and is_attr(e[1], 'request')
                    for e in st.auto or ())
            self.note('retry', f + ':forget', told,
                      "the connection forgets the request it was sending "
                      "without telling it how much of it was sent",
                      where_of(fr, node), st.trace)
        return st

    def check_open(self, st, node, fr):
        f = self.func.short
        if self.func.cls not in self.conn:
            return
        for e in self.events(st, 'sent'):
            self.note('position', f + ':sent_bytes', False,
                      "bytes are sent without being counted in sent_bytes",
                      where_of(fr, node), st.trace)
        for e in self.events(st, 'counted'):
            self.note('position', f + ':buffered_bytes', False,
                      "bytes are counted in buffered_bytes that were not "
                      "added to the send buffer", where_of(fr, node),
                      st.trace)
        for e in self.events(st, 'grown'):
            self.note('position', f + ':buffered_bytes', False,
                      "data is added to the send buffer without being "
                      "counted in buffered_bytes", where_of(fr, node),
                      st.trace)

    def loop_back(self, it, st, node, fr):
        self.check_open(st, node, fr)
        return st

    def func_exit(self, it, st, func, kind, payload, fr):
        if func is not self.func or kind != 'return':
            return
        self.check_open(st, func.node, fr)
        z = bool(self.events(st, 'zerosent_bytes')), \
            bool(self.events(st, 'zerobuffered_bytes'))
        if any(z):
            self.note('position', self.func.short + ':reset', all(z),
                      "only one of the two byte counts is set back",
                      func.where, st.trace)


def connections(repo, rep):
    chk = Close(rep, repo)
    for c in chk.conn:
        for f in c.methods.values():
            if not isinstance(f, Func) or f.cls is not c or \
                    helpers_only(repo, chk, f):
                continue
            src = ast.dump(f.node)
            if any(k in src for k in (
                    "'queue_request'", "'disconnect'", "'connect'",
                    "'sent_bytes'", "'buffered_bytes'", "'send_buffer'",
                    "'request'")):
                run_func(repo, chk, f, c)
    chk.flush()


class Pipeline(EventCheck):

    """When the next request may be started"""

    def me(self, t):
        return t is not None and t.op == 'param' and t.args[0] == 'self'

    def call(self, it, st, ci):
        f = self.func.short
        if ci.name != '_start_request' or not self.me(ci.recv):
            return None
        r, me = ci.args[0], ci.recv
        idem = knows(st, lambda t: is_call(t, 'is_idempotent') and
                     t.args[2] == r, True)
        resp = current(st, me, 'response')
        quiet = (it.truth(st, resp) is False or knows(
            st, lambda t: t.op == 'cmp' and t.args[0] == 'is' and
            t.args[1] == resp and t.args[2] is NONE, True)) and \
            falsy(it, st, current(st, me, 'send_buffer'))
        self.note('pipeline', f + ':order', idem or quiet,
                  "a request that is not idempotent may be sent while "
                  "earlier requests on the connection have not been "
                  "answered", ci.where, st.trace)
        mode = current(st, me, 'request_mode')
        self.note('pipeline', f + ':ready', any(
            p is True and t.op == 'cmp' and t.args[0] == '==' and
            mode in t.args[1:] and any(
                is_const(x) and x.args[0] == 0 for x in t.args[1:])
            for t, p in st.facts.items()),
            "a request is started while another one is being sent",
            ci.where, st.trace)
        self.note('pipeline', f + ':time', any(
            t.op == 'cmp' and t.args[0] in ('<', '==') and
            has(t, lambda x: is_attr(x, 'retry_time'))
            for t in st.facts),
            "a request is started before its retry time", ci.where,
            st.trace)
        st = self.put(st, ('started', r))
        if heap_of(st, me, 'request_queue') is not None:
            st = self.put(st, ('popped',))
        return None

    def after_call(self, it, st, ci, term):
        if ci.name == '_start_request' and self.me(ci.recv):
            gone = heap_of(st, ci.recv, 'request_queue') is not None or \
                bool(self.events(st, 'popped'))
            return self.put(st, ('open',)) if not gone else st
        if ci.name in ('pop', 'popleft') and ci.recv is not None and (
                is_attr(unver(ci.recv), 'request_queue') or
                unver(ci.recv) == unver(current(st, ME, 'request_queue'))):
            return self.closed(st)
        return st

    def closed(self, st):
        return st.with_auto(frozenset(
            e for e in st.auto if e[0] != 'open') | {('popped',)})

    def attr_store(self, it, st, base, attr, v, node, fr):
        if attr == 'request_queue' and self.me(base):
            return self.closed(st)
        return st

    def sub_del(self, it, st, base, idx, node, fr):
        if is_attr(unver(base), 'request_queue') or \
                unver(base) == unver(current(st, ME, 'request_queue')):
            return self.closed(st)
        return st

    def check_open(self, st, node, fr):
        if self.events(st, 'started') or self.events(st, 'open'):
            pass
        self.note('pipeline', self.func.short + ':queue',
                  not self.events(st, 'open'),
                  "a request that was started stays in the queue and will "
                  "be sent again", where_of(fr, node), st.trace)

    def loop_back(self, it, st, node, fr):
        self.check_open(st, node, fr)
        return st.with_auto(frozenset())

    def func_exit(self, it, st, func, kind, payload, fr):
        if func is self.func:
            self.check_open(st, func.node, fr)


def pipelining(repo, rep):
    chk = Pipeline(rep)
    for c in family(repo, 'http.client.Connection'):
        for f in c.methods.values():
            if isinstance(f, Func) and f.cls is c and any(
                    isinstance(n, ast.Call) and
                    isinstance(n.func, ast.Attribute) and
                    n.func.attr == '_start_request'
                    for n in walk_own(f.node)) and \
                    not helpers_only(repo, chk, f):
                run_func(repo, chk, f, c)
    chk.flush()


# ---- retry budget ----------------------------------------------------
class H(Hooks):

    def inline(self, ev, f, recv, args, kw):
        return f.name not in ('is_idempotent', 'finished', 'get_start')

    def call(self, ev, name, fn, recv, args, kw, node, fr):
        if name == 'is_idempotent':
            return Sym('idempotent')
        if name in ('finished', 'time', 'random', 'get_start', 'error',
                    'warning', 'debug', 'info'):
            return Sym('x', name)
        return NotImplemented


def budget(repo, rep):
    ev = PEval(repo, H())
    seen = set()
    for c in family(repo, 'http.client.ClientRequest'):
        d, r = repo.find_method(c, 'disconnect'), \
            repo.find_method(c, 'can_retry')
        if not isinstance(d, Func) or not isinstance(r, Func):
            raise AnalysisError("disconnect or can_retry has gone")
        if (d, r) in seen:
            continue
        seen.add((d, r))
        for nretries in (0, 1, 2, 3):
            def thunk(e, c=c, nretries=nretries):
                me = Obj(c, {
                    'nretries': nretries, 'max_retries': 3, 'status': 0,
                    '_send_pos': 100, 'retry_time': 0, '_rt1': 0,
                    '_rt2': 5, 'connection': Sym('conn'),
                    'method': Sym('method')})
                pos = (100, 101)[e.choose(2)]
                e.event('pos', pos)
                e.func(d, [pos], recv=me)
                return e.func(r, [], recv=me)
            for p in ev.paths(thunk):
                pos = p.events[0][1]
                idem = dict(p.facts).get(Sym('idempotent'))
                inst = '%s:%i:%s:%s' % (d.cls.short, nretries,
                                        'sent' if pos > 100 else 'unsent',
                                        idem)
                if p.kind != 'return':
                    rep.bad('budget', inst, "disconnect or can_retry fails "
                            "with %s" % p.value, d.where)
                    continue
                may = p.value
                if pos > 100 and idem is not True:
                    ok = may is False
                    msg = "a request that is not idempotent and may have " \
                        "reached the server is retried"
                elif nretries >= 3:
                    ok = may is False
                    msg = "the number of retries has no limit"
                else:
                    ok, msg = True, ''
                rep.check(ok, 'budget', inst, msg, where=r.where)


def methods(repo, rep):
    ev = PEval(repo)
    seen = set()
    for c in family(repo, 'http.messages.Request'):
        f = repo.find_method(c, 'is_idempotent')
        if not isinstance(f, Func):
            raise AnalysisError("is_idempotent has gone")
        t = repo.member(c, 'IDEMPOTENT') if hasattr(repo, 'member') else None
        for m in METHODS + ('get', ''):
            if (f, m, repr(t)) in seen:
                continue
            seen.add((f, m, repr(t)))

            def me(e, c=c, m=m):
                return Obj(c, {'method': m})
            for p in ev.run(f, [], recv=me):
                if p.kind != 'return':
                    rep.bad('methods', '%s:%s' % (f.short, m),
                            "is_idempotent fails with %s" % p.value, f.where)
                    continue
                try:
                    v = ev.truth(p.value)
                except Exception:
                    v = True
                want = m in IDEMPOTENT
                rep.check(want or not v, 'methods', '%s:%s' % (f.short, m),
                          "the method %s counts as idempotent" % (m or
                          "''"), where=f.where)
                if want:
                    rep.check(v, 'methods', '%s:%s' % (f.short, m),
                              "the method %s does not count as idempotent: "
                              "a broken connection loses the request" % m,
                              where=f.where)


def run(repo, rep):
    rep.rule('redirect', "a redirect is only followed automatically for "
             "the methods its status allows", 1)
    rep.rule('challenge', "a request is sent again after a 401 only with "
             "credentials, once per response, and refused credentials are "
             "given up", 2)
    rep.rule('callers', "requests are only sent again at the end of their "
             "response", 1)
    rep.rule('retry', "a request is queued again after a failure only if "
             "it can be retried and had no response", 1)
    rep.rule('position', "the byte counts that decide whether a request "
             "was sent follow the buffer and the socket", 2)
    rep.rule('pipeline', "requests that are not idempotent wait for all "
             "earlier responses", 1)
    rep.rule('budget', "after a disconnect a request that was sent and is "
             "not idempotent cannot be retried, others only within the "
             "limit", 4)
    rep.rule('methods', "exactly the methods defined as such count as "
             "idempotent", 4)
    from ..lockset import baseline
    rep.part(redirects, repo, rep)
    callers_of(repo, rep, baseline())
    rep.part(connections, repo, rep)
    rep.part(pipelining, repo, rep)
    rep.part(budget, repo, rep)
    rep.part(methods, repo, rep)
