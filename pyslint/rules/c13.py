"""C13: credentials are sent only to the protection space they belong to"""

import ast

from ..guards import (EventCheck, consistent, family, has, heap_of, is_attr,
                      is_call, one, unver)
from ..interp import NONE, T
from ..peval import (Hooks, Obj, PDict, PEval, PList, Str, Sym,
                     Unsupported)
from ..repo import AnalysisError, Func, walk_own
from ..rulebase import helpers_only, run_func, where_of

ME = T('param', 'self')


def current(st, base, attr):
    v = heap_of(st, base, attr)
    return T('attr', base, attr) if v is None else v


def args_of(ci, i, name):
    return ci.arg(i, name)


# ---- where the headers are set ---------------------------------------
class Sites(EventCheck):

    """Credentials put in a request, cookies and resending"""

    def me(self, t):
        return t is not None and unver(t) == ME

    def url_now(self, st, t):
        return t is not None and t == current(st, ME, 'url')

    def after_call(self, it, st, ci, term):
        if ci.name == 'find_credentials_by_url':
            return self.put(st, ('byurl', term, ci.arg(0, 'url') or NONE,
                                 current(st, ME, 'url')))
        if ci.name == 'find_credentials':
            c = ci.arg(0, 'challenge')
            space = None
            if c is not None:
                space = heap_of(st, c, 'protectionSpace')
            return self.put(st, ('bychallenge', term, space or NONE))
        if ci.name == 'get_canonical_root':
            return self.put(st, ('root', term, ci.recv or NONE))
        if ci.name == 'search' and is_attr(ci.recv, 'cookie_store'):
            return self.put(st, ('cookies', term, ci.arg(0, 'url') or NONE))
        return st

    def call(self, it, st, ci):
        f = self.func.short
        if ci.name == 'set_authorization' and ci.recv is not None:
            v = ci.arg(0, 'credentials')
            if v is not None and v is not NONE:
                self.credentials(it, st, ci, v)
                return None
            if self.me(ci.recv):
                return [(self.put(st, ('dropped',)), NONE)]
        if ci.name in ('set_header', 'add_header') and ci.args and \
                ci.args[0].op == 'const' and str(
                    ci.args[0].args[0]).lower() == 'authorization' and \
                self.func.name != 'set_authorization':
            self.note('source', f + ':header', False,
                      "an Authorization header is set without looking for "
                      "credentials of the protection space", ci.where,
                      st.trace)
        if ci.name == 'set_cookie' and ci.recv is not None and \
                self.me(ci.recv):
            v = ci.arg(0, 'cookie_list')
            if v is None or v is NONE:
                return [(self.put(st, ('nocookie',)), NONE)]
            ok = any(v == e[1] and self.url_now(st, e[2])
                     for e in self.events(st, 'cookies'))
            self.note('cookies', f + ':search', ok,
                      "the cookies sent with a request are not those found "
                      "for its own URL", ci.where, st.trace)
        if ci.name == 'set_cookie' and ci.recv is not None and \
                is_attr(ci.recv, 'cookie_store'):
            u = ci.arg(0, 'url')
            self.note('cookies', f + ':store', self.url_now(st, u),
                      "cookies are stored for a URL that is not that of "
                      "the request they answer", ci.where, st.trace)
        if ci.name == 'set_url' and ci.recv is not None and \
                self.me(ci.recv) and self.func.name != '__init__':
            old = current(st, ME, 'url')
            new = ci.arg(0, 'url')
            ok = bool(self.events(st, 'dropped')) or \
                self.same_root(st, old, new)
            self.note('redirect', f + ':origin', ok,
                      "the URL of a request is changed without dropping its "
                      "Authorization header or knowing that both URLs have "
                      "the same origin", ci.where, st.trace)
            return [(self.put(st, ('moved',)), NONE)]
        if ci.name == 'queue_request' and self.func.name != 'queue_request' \
                and ci.args and self.me(ci.args[0]):
            self.note('cookies', f + ':resend',
                      bool(self.events(st, 'nocookie')),
                      "a request is sent again with the cookies chosen for "
                      "an earlier URL or time", ci.where, st.trace)
        if ci.name == 'add_success_path':
            self.success(it, st, ci)
        if ci.name == 'resend' and ci.recv is not None and self.me(ci.recv):
            return [(self.put(st, ('resent',)), NONE)]
        return None

    def same_root(self, st, a, b):
        roots = self.events(st, 'root')

        def root(x, of):
            return any(e[1] == x and unver(e[2]) == unver(of)
                       for e in roots)
        for t, p in st.facts.items():
            if p is True and t.op == 'cmp' and t.args[0] == '==':
                x, y = t.args[1:]
                if root(x, a) and root(y, b) or root(x, b) and root(y, a):
                    return True
        return False

    def credentials(self, it, st, ci, v):
        f = self.func.short
        for e in self.events(st, 'byurl'):
            if e[1] == v:
                self.note('source', f + ':byurl', self.url_now(st, e[2]),
                          "credentials are chosen by a URL that is not the "
                          "one the request is for", ci.where, st.trace)
                return
        for e in self.events(st, 'bychallenge'):
            if e[1] == v:
                ok = any(r[1] == e[2] and self.url_now(st, r[2])
                         for r in self.events(st, 'root'))
                self.note('source', f + ':bychallenge', ok,
                          "credentials are chosen for a challenge whose "
                          "protection space is not the origin of the URL "
                          "that was requested", ci.where, st.trace)
                return
        self.note('source', f + ':other', False,
                  "credentials are sent that were not found for the "
                  "protection space of the request", ci.where, st.trace)

    def success(self, it, st, ci):
        f = self.func.short
        path = ci.arg(0, 'path')
        self.note('success', f + ':path', path is not None and
                  is_attr(path, 'abs_path') and
                  self.url_now(st, path.args[0]),
                  "credentials are marked as good for a path that is not "
                  "the one they were sent to", ci.where, st.trace)
        self.note('success', f + ':before', not (
            self.events(st, 'resent') or self.events(st, 'moved')),
            "credentials are marked as good for the next URL",
            ci.where, st.trace)
        status = T('attr', ME, 'status')
        bad = []
        for s in (0, 200, 401, 404):
            def bind(t, s=s):
                return s if t == status else NotImplemented
            if consistent(st, bind):
                bad.append(s)
        self.note('success', f + ':status', 401 not in bad,
                  "credentials that were refused are marked as good",
                  ci.where, st.trace)
        self.note('success', f + ':who', is_attr(
            ci.recv, 'tried_credentials') or
            unver(ci.recv) == unver(current(st, ME, 'tried_credentials')),
            "other credentials than those tried are marked as good",
            ci.where, st.trace)


WORDS = ("'set_authorization'", "'set_cookie'", "'queue_request'",
         "'add_success_path'", "'set_url'", "'Authorization'")


def sites(repo, rep):
    chk = Sites(rep)
    for c in family(repo, 'http.messages.Request'):
        for f in c.methods.values():
            if not isinstance(f, Func) or f.cls is not c:
                continue
            if f.name in ('set_authorization', 'set_cookie', '__init__') \
                    or helpers_only(repo, chk, f):
                continue
            src = ast.dump(f.node)
            if any(k in src for k in WORDS):
                run_func(repo, chk, f, c)
    chk.flush()
    # everything else that may set the header
    own = set(family(repo, 'http.messages.Request'))
    for f in repo.funcs.values():
        if not isinstance(f, Func) or f.cls in own:
            continue
        for n in walk_own(f.node):
            if isinstance(n, ast.Call) and isinstance(
                    n.func, ast.Attribute) and \
                    n.func.attr == 'set_authorization':
                rep.check(False, 'source', f.short, "credentials are set "
                          "outside the request that knows its URL",
                          where=f.where)


# ---- partial evaluation ----------------------------------------------
class H(Hooks):

    max_loop = 6

    def __init__(self, stop=()):
        self.stop = stop

    def inline(self, ev, f, recv, args, kw):
        return f.name not in self.stop

    def call(self, ev, name, fn, recv, args, kw, node, fr):
        if name in self.stop:
            a = list(args) + [v for _, v in sorted(kw.items())]
            if name == 'normalize_segments':
                ev.event('normal', a[0])
                return None
            if name == 'is_prefix':
                return Sym('is_prefix', *a)
            return Sym(name, recv, *a)
        if name in ('debug', 'info', 'warning'):
            return None
        return NotImplemented


def evaluated(ev, thunk):
    """Paths whose value was tested, so that it becomes part of the facts"""
    def run(e):
        return e.truth(thunk(e))
    return ev.paths(run)


def eq_fact(facts, a, b, ev=None):
    """facts say a == b"""
    for k, v in facts:
        if not isinstance(k, Sym):
            continue
        if k.op == 'cmp' and set(k.args[1:]) == {a, b}:
            if k.args[0] in ('==', 'is') and v or \
                    k.args[0] in ('!=', 'is not') and not v:
                return True
    return False


def is_prefix(repo, rep):
    f = one(repo, 'http.auth.BasicCredentials.is_prefix')
    ev = PEval(repo, H())
    n = 0
    for np in range(0, 4):
        for nq in range(0, 5):
            for empty in (False, True):
                if empty and not np:
                    continue
                pre = [Sym('p', i) for i in range(np)]
                if empty:
                    pre[-1] = ''
                path = [Sym('q', i) for i in range(nq)]

                def thunk(e):
                    return e.func(f, [PList(list(pre)), PList(list(path))],
                                  recv=Sym('self'))
                n += 1
                inst = '%i/%i%s' % (np, nq, '/' if empty else '')
                bad = None
                hit = False
                for p in evaluated(ev, thunk):
                    if p.kind == 'raise':
                        bad = "the comparison of a prefix of %i segments " \
                            "with a path of %i fails" % (np, nq)
                        break
                    if p.kind != 'return' or not p.value:
                        continue
                    hit = True
                    if np > nq:
                        bad = "a prefix longer than the path matches it"
                    for i in range(min(np, nq)):
                        if pre[i] == '' and i == np - 1:
                            continue
                        # an empty segment of the prefix that is not known
                        # to be the last one must be compared too
                        if not eq_fact(p.facts, pre[i], path[i]) and not (
                                i == np - 1 and dict(p.facts).get(
                                    pre[i]) is False):
                            bad = "segment %i of a prefix of %i is not " \
                                "compared" % (i + 1, np)
                if np <= nq and not hit and bad is None:
                    bad = "a prefix of the path is not recognised"
                rep.check(bad is None, 'prefix', inst, bad or '',
                          where=f.where)


def test_path(repo, rep):
    for c in family(repo, 'http.auth.Credentials'):
        f = c.methods.get('test_path')
        if not isinstance(f, Func) or f.cls is not c:
            continue
        ev = PEval(repo, H(('is_prefix', 'split_path',
                            'normalize_segments', 'split_abs_path')))
        for n in range(3):
            def thunk(e, n=n):
                me = Obj(c, {'path_prefixes': PList(
                    [Sym('prefix', i) for i in range(n)])})
                return e.func(f, [Sym('path')], recv=me)
            bad = None
            hits = set()
            for p in evaluated(ev, thunk):
                if p.kind == 'raise':
                    bad = "the test fails with %s" % p.value
                if p.kind != 'return' or not p.value:
                    continue
                good = None
                for k, v in p.facts:
                    if isinstance(k, Sym) and k.op == 'is_prefix' and v:
                        a = [x for x in k.args if isinstance(x, Sym)]
                        if len(a) == 2 and a[0].op == 'prefix' and \
                                a[1].op in ('split_path',
                                            'split_abs_path') and \
                                Sym('path') in a[1].args:
                            good = a
                            hits.add(a[0].args[0])
                if good is None:
                    bad = "a path is accepted that no prefix matches"
                elif not any(e[0] == 'normal' and e[1] == good[1]
                             for e in p.events):
                    bad = "a path is compared before '..' segments are " \
                        "removed"
            if bad is None and hits != set(range(n)):
                bad = "not all of %i prefixes are tried" % n
            rep.check(bad is None, 'prefix', '%s:%i' % (f.short, n),
                      bad or '', where=f.where)


def test_url(repo, rep):
    for c in family(repo, 'http.auth.Credentials'):
        f = c.methods.get('test_url')
        if not isinstance(f, Func) or f.cls is not c:
            continue
        ev = PEval(repo, H(('get_canonical_root', 'test_path',
                            'is_absolute')))

        def thunk(e):
            me = Obj(c, {'protectionSpace': Sym('space')})
            return e.func(f, [Sym('url')], recv=me)
        bad = None
        url = Sym('url')
        for p in evaluated(ev, thunk):
            if p.kind != 'return' or not p.value:
                continue
            if not eq_fact(p.facts, Sym('space'),
                           Sym('get_canonical_root', url)):
                bad = "credentials are used for a URL outside their " \
                    "protection space"
            elif not any(isinstance(k, Sym) and k.op == 'test_path' and v
                         and k.args[1:] == (Sym('attr', url, 'abs_path'),)
                         for k, v in p.facts):
                bad = "credentials are used for a URL whose path they are " \
                    "not known to be good for"
        rep.check(bad is None, 'match', f.short, bad or '', where=f.where)


def match_challenge(repo, rep):
    seen = set()
    for c in family(repo, 'http.auth.Credentials'):
        f = repo.find_method(c, 'match_challenge')
        if not isinstance(f, Func) or f in seen:
            continue
        seen.add(f)
        ev = PEval(repo, H(('bstr',)))
        for realm in (None, 'r'):
            ch = Sym('challenge')

            def thunk(e, realm=realm):
                me = Obj(c, {'protectionSpace': Sym('space'),
                             'scheme': Sym('scheme'),
                             'realm': None if realm is None else
                             Sym('realm')})
                return e.func(f, [ch], recv=me)
            bad = None
            hit = False
            for p in evaluated(ev, thunk):
                if p.kind == 'raise':
                    bad = "the comparison fails with %s" % p.value
                if p.kind != 'return' or not p.value:
                    continue
                hit = True
                if not eq_fact(p.facts, Sym('scheme'),
                               Sym('attr', ch, 'scheme')):
                    bad = "credentials answer a challenge of another scheme"
                elif not eq_fact(p.facts, Sym('space'),
                                 Sym('attr', ch, 'protectionSpace')):
                    bad = "credentials answer a challenge from another " \
                        "protection space"
                elif realm and dict(p.facts).get(Sym('realm')) is not False \
                        and not any(
                            isinstance(k, Sym) and k.op == 'cmp' and
                            (v if k.args[0] == '==' else not v) and
                            k.args[0] in ('==', '!=') and
                            'realm' in repr(k.args[1]) and
                            'realm' in repr(k.args[2])
                            for k, v in p.facts):
                    bad = "credentials answer a challenge for another realm"
            if bad is None and not hit:
                bad = "no challenge is ever answered"
            rep.check(bad is None, 'match', '%s:%s' % (
                f.short, 'realm' if realm else 'any realm'), bad or '',
                where=f.where)


def finders(repo, rep):
    """The client returns only credentials that passed the test"""
    for name, tests in (('find_credentials', ('match_challenge', 'match')),
                        ('find_credentials_by_url', ('test_url', 'match'))):
        seen = set()
        for c in family(repo, 'http.client.Client'):
            f = repo.find_method(c, name)
            if not isinstance(f, Func) or f in seen:
                continue
            seen.add(f)
            ev = PEval(repo, H(tests))
            for n in range(3):
                def thunk(e, n=n):
                    me = Obj(c, {'credentials': PList(
                        [Sym('cred', i) for i in range(n)]),
                        'managerLock': Sym('lock')})
                    return e.func(f, [Sym('what')], recv=me)
                bad = None
                hits = set()
                for p in ev.paths(thunk):
                    if p.kind == 'raise':
                        bad = "the search fails with %s" % p.value
                    if p.kind != 'return' or p.value is None:
                        continue
                    if isinstance(p.value, Sym) and p.value.op == 'cred':
                        hits.add(p.value.args[0])
                    if not any(isinstance(k, Sym) and k.op in tests and v
                               and k.args[0] == p.value and
                               Sym('what') in k.args[1:]
                               for k, v in p.facts):
                        bad = "credentials are returned that were not " \
                            "tested against the %s" % (
                                'URL' if 'url' in name else 'challenge')
                if bad is None and hits != set(range(n)):
                    bad = "not all credentials are considered"
                rep.check(bad is None, 'match', '%s:%i' % (f.short, n),
                          bad or '', where=f.where)


# ---- origins ---------------------------------------------------------
class OH(Hooks):

    def inline(self, ev, f, recv, args, kw):
        return f.name in ('canonicalize', 'get_canonical_root') or \
            f.module.name.endswith('py2') is False and f.name not in (
                'canonicalize_data', 'from_octets', 'is_absolute')

    def call(self, ev, name, fn, recv, args, kw, node, fr):
        if name == 'from_octets':
            return Sym('uri', args[0])
        if name == 'canonicalize_data':
            return Sym('canonical', args[0])
        if name == 'is_absolute':
            return True
        if name == 'lower' and isinstance(recv, Sym):
            return Sym('lower', recv)
        return NotImplemented

    def compare(self, ev, op, a, b, fr):
        if b is None and a in (
                Sym('authority'), Sym('path'), Sym('scheme')):
            return {'Is': False, 'Eq': False, 'IsNot': True,
                    'NotEq': True}.get(type(op).__name__, NotImplemented)
        return NotImplemented

    def cond(self, ev, v, fr):
        return True if v == Sym('authority') else None


def flat(v):
    if isinstance(v, Str):
        return list(v.parts)
    return [v]


def origins(repo, rep):
    """canonicalize keeps scheme, host and port; the root is cut from it"""
    base = one(repo, 'rfc2396.URI.get_canonical_root')
    classes = [c for c in family(repo, 'http.params.HTTPURL')]
    if not classes:
        raise AnalysisError("HTTPURL has gone")
    for c in classes:
        f = repo.find_method(c, 'canonicalize')
        ev = PEval(repo, OH())
        try:
            default = ev.class_attr(c, 'DEFAULT_PORT', None)
            if isinstance(default, tuple):
                default = default[0]
        except Unsupported:
            default = None
        want = 443 if c.name == 'HTTPSURL' else 80
        rep.check(default == want, 'origin', c.short + ':DEFAULT_PORT',
                  "the default port of %s is %r" % (c.name, default),
                  where=c.where if hasattr(c, 'where') else f.where)
        for port in (None, '', '80', '443', '8080'):
            def thunk(e, c=c, port=port):
                me = Obj(c, {
                    'scheme': Sym('scheme'), 'authority': Sym('authority'),
                    'userinfo': None, 'host': Sym('host'), 'port': port,
                    'abs_path': Sym('path'), 'rel_path': None,
                    'query': None, 'fragment': None})
                return e.func(f, [], recv=me)
            bad = None
            try:
                ps = ev.paths(thunk)
            except Unsupported as e:
                raise AnalysisError("canonicalize: %s" % e)
            for p in ps:
                if p.kind != 'return':
                    bad = "canonicalize fails with %s" % p.value
                    continue
                v = p.value
                if not (isinstance(v, Sym) and v.op == 'uri'):
                    bad = "the canonical form is not a new URI"
                    continue
                got = flat(v.args[0])
                tail = ''
                if port and int(port) != want:
                    tail = ':' + port
                text = ''.join('<%s>' % x.op + (
                    repr(x.args[0]) if x.op == 'lower' else '')
                    if isinstance(x, Sym) else str(x) for x in got)
                head = '<lower>%r://<lower>%r%s' % (
                    Sym('scheme'), Sym('host'), tail)
                rest = text[len(head):]
                if not text.startswith(head) or rest[:1] not in ('', '/', '<'):
                    bad = "the canonical form of a URL with port %r is " \
                        "%s" % (port, text)
            rep.check(bad is None, 'origin', '%s:%r' % (c.short, port),
                      bad or '', where=f.where)
    seen = set()
    for c in classes:
        f = repo.find_method(c, 'get_canonical_root')
        if f in seen:
            continue
        seen.add(f)

        class RH(OH):

            def inline(self, ev, f, recv, args, kw):
                return f.name not in ('canonicalize', 'from_octets',
                                      'is_absolute')

            def call(self, ev, name, fn, recv, args, kw, node, fr):
                if name == 'canonicalize':
                    return Sym('can')
                return OH.call(self, ev, name, fn, recv, args, kw, node, fr)
        ev = PEval(repo, RH())
        bad = None
        can = Sym('can')
        for p in ev.run(f, [], recv=lambda e, c=c: Obj(c, {})):
            if p.kind != 'return':
                bad = "get_canonical_root fails with %s" % p.value
                continue
            v = p.value
            got = flat(v.args[0]) if isinstance(v, Sym) and \
                v.op == 'uri' else None
            if got is None:
                bad = "the root is not a new URI"
                continue
            if dict((repr(k), x) for k, x in p.facts).get(
                    repr(Sym('cmp', 'is', Sym('attr', can, 'authority'),
                             None))) is True:
                continue
            if Sym('attr', can, 'scheme') not in got or \
                    Sym('attr', can, 'authority') not in got:
                bad = "the origin of a URL is made of %r" % (got,)
        rep.check(bad is None, 'origin', f.short, bad or '', where=f.where)


# ---- from URL to connection ------------------------------------------
class Target(EventCheck):

    def attr_store(self, it, st, base, attr, v, node, fr):
        if unver(base) != ME or attr not in ('scheme', 'hostname', 'port'):
            return st
        f = self.func.short
        url = current(st, ME, 'url')
        if attr == 'scheme':
            if v.op != 'const':
                ok = False
            else:
                https = [p for t, p in st.facts.items()
                         if is_call(t, 'isinstance') and
                         t.args[3][0] == url and 'HTTPSURL' in repr(
                             t.args[3][1])]
                ok = v.args[0] == ('https' if True in https else 'http') \
                    and bool(https)
            msg = "the scheme of the request does not follow from the " \
                "class of its URL: https requests may be sent in the clear"
        elif attr == 'hostname':
            ok = v == T('attr', url, 'host')
            msg = "the request is sent to a host that is not that of its URL"
        else:
            port = T('attr', url, 'port')
            if is_call(v, 'int'):
                ok = v.args[3][0] == port
            else:
                ok = v == T('attr', url, 'DEFAULT_PORT') and \
                    it.truth(st, port) is False
            msg = "the request is sent to a port that is not that of its URL"
        self.note('target', f + ':' + attr, ok, msg, where_of(fr, node),
                  st.trace)
        return self.put(st, ('set', attr))

    def func_exit(self, it, st, func, kind, payload, fr):
        if func is not self.func or kind != 'return':
            return
        done = {e[1] for e in self.events(st, 'set')}
        self.note('target', self.func.short + ':all',
                  done >= {'scheme', 'hostname', 'port'},
                  "the URL is changed but the connection is chosen by the "
                  "old %s" % ', '.join(
                      sorted({'scheme', 'hostname', 'port'} - done)),
                  func.where, st.trace)


class Choose(EventCheck):

    """The connection a request is given to"""

    def wanted(self, t, r):
        """(…, scheme, host, port) of the request"""
        if t is None or t.op != 'tuple':
            return False
        a = t.args[0]
        return len(a) >= 3 and list(a[-3:]) == [
            T('attr', r, 'scheme'), T('attr', r, 'hostname'),
            T('attr', r, 'port')]

    def after_call(self, it, st, ci, term):
        if ci.name == '_new_connection':
            return self.put(st, ('new', term, ci.arg(0, 'target') or NONE))
        return st

    def call(self, it, st, ci):
        f = self.func.short
        if ci.name == 'queue_request' and ci.recv is not None and \
                unver(ci.recv) != ME and ci.args and not is_call(
                    ci.recv, 'super') and self.func.name == 'queue_request':
            r = ci.args[0]
            ok = any(e[1] == ci.recv and self.wanted(e[2], r)
                     for e in self.events(st, 'new')) or \
                has(ci.recv, lambda t: self.wanted(t, r))
            self.note('target', f + ':connection', ok,
                      "a request is given to a connection that was not "
                      "looked up by the scheme, host and port of the "
                      "request", ci.where, st.trace)
        return None


class Create(EventCheck):

    """Class of a new connection"""

    def __init__(self, rep, repo):
        EventCheck.__init__(self, rep)
        self.conn = set(family(repo, 'http.client.Connection'))
        self.secure = set(family(repo, 'http.client.SecureConnection'))

    def call(self, it, st, ci):
        kinds = {('https' if t in self.secure else 'http')
                 for t in ci.targets if t in self.conn}
        if not kinds or len(ci.args) < 4:
            return None
        want = kinds.pop() if len(kinds) == 1 else 'no'
        scheme = ci.args[1]
        may = [x for x in ('http', 'https', 'ftp') if consistent(
            st, lambda t: x if t == scheme else NotImplemented)]
        target = T('param', 'target')
        self.note('target', '%s:%s' % (self.func.short, want),
                  may == [want],
                  "a %s connection is made for requests of scheme %s" % (
                      'secure' if want == 'https' else 'plain',
                      ' or '.join(may)), ci.where, st.trace)
        self.note('target', self.func.short + ':address', len(ci.args) >= 4
                  and all(has(a, lambda x: x == target)
                          for a in ci.args[1:4]) and
                  len(set(ci.args[1:4])) == 3,
                  "a connection is made to an address that is not its "
                  "target", ci.where, st.trace)
        return None


def targets(repo, rep):
    chk = Target(rep)
    for c in family(repo, 'http.client.ClientRequest'):
        f = c.methods.get('set_url')
        if isinstance(f, Func) and f.cls is c:
            run_func(repo, chk, f, c)
    chk.flush()
    chk = Choose(rep)
    chk2 = Create(rep, repo)
    for c in family(repo, 'http.client.Client'):
        f = c.methods.get('queue_request')
        if isinstance(f, Func) and f.cls is c:
            run_func(repo, chk, f, c)
        f = c.methods.get('_new_connection')
        if isinstance(f, Func) and f.cls is c:
            run_func(repo, chk2, f, c)
    chk.flush()
    chk2.flush()


def success_path(repo, rep):
    """The prefix stored is the directory of the path"""
    for c in family(repo, 'http.auth.Credentials'):
        f = c.methods.get('add_success_path')
        if not isinstance(f, Func) or f.cls is not c:
            continue

        class SH(H):

            def call(self, ev, name, fn, recv, args, kw, node, fr):
                if name in ('split_path', 'split_abs_path'):
                    return PList([Sym('s', 0), Sym('s', 1)])
                if name == 'is_prefix':
                    return Sym('is_prefix', repr(args[0]), repr(args[1]))
                return H.call(self, ev, name, fn, recv, args, kw, node, fr)
        ev = PEval(repo, SH(('normalize_segments', 'is_prefix')))
        boxes = []

        def thunk(e):
            box = PList([])
            me = Obj(c, {'path_prefixes': box})
            e.event('box', me)
            return e.func(f, [Sym('path')], recv=me)
        bad = None
        for p in ev.paths(thunk):
            if p.kind != 'return':
                bad = "add_success_path fails with %s" % p.value
                continue
            box = p.events[0][1].attrs.get('path_prefixes')
            for x in box.items:
                it = getattr(x, 'items', None)
                if not isinstance(it, list):
                    bad = "what is stored is not a list of segments"
                    continue
                last = it[-1]
                if not (last == '' or isinstance(last, Sym) and (
                        dict(p.facts).get(last) is False or
                        eq_fact(p.facts, last, ''))) or \
                        it[:-1] != [Sym('s', 0)]:
                    bad = "after success at /s0/s1 the credentials are " \
                        "used for %r" % (it,)
            if not box.items:
                bad = "success is not remembered"
        rep.check(bad is None, 'prefix', f.short, bad or '', where=f.where)


class RH(Hooks):

    def inline(self, ev, f, recv, args, kw):
        return f.name.startswith('set_') or f.name.startswith('_') or \
            f.name in ('force_bytes', 'force_text', 'to_text', 'is_text',
                       'is_unicode', 'is_string')

    def call(self, ev, name, fn, recv, args, kw, node, fr):
        if name == 'force_bytes' and args:
            x = args[0]
            return x.encode('latin-1') if isinstance(x, str) else x
        return NotImplemented


def removal(repo, rep):
    """Setting one of the headers to None removes it"""
    for name, head in (('set_authorization', 'Authorization'),
                       ('set_cookie', 'Cookie')):
        f = None
        for k in family(repo, 'http.messages.Message'):
            f = k.methods.get(name)
            if not isinstance(f, Func):
                continue
            ev = PEval(repo, RH())

            def thunk(e):
                h = PDict([(x, PList([y, y])) for x, y in (
                    (head.lower(), head), (head.lower().encode('ascii'),
                                           head.encode('ascii')))])
                e.event('headers', h)
                e.func(f, [None], recv=Obj(k, {
                    'headers': h, 'lock': Sym('lock')}))
            bad = None
            for p in ev.paths(thunk):
                h = p.events[0][1]
                if p.kind != 'return':
                    bad = "%s(None) fails with %s" % (name, p.value)
                elif len(h.items) != 1 or not isinstance(
                        h.items[0][0], str):
                    bad = "%s(None) does not remove the %s header" % (
                        name, head)
            rep.check(bad is None, 'removal', f.short, bad or '',
                      where=f.where)


def run(repo, rep):
    rep.rule('source', "an Authorization header is only made from "
             "credentials found for the URL or the challenge of the "
             "request itself", 2)
    rep.rule('redirect', "a request that moves to another origin loses its "
             "Authorization header", 1)
    rep.rule('cookies', "the cookies of each request are looked up and "
             "stored under its own URL, and dropped before it is sent "
             "again", 2)
    rep.rule('success', "credentials are only marked as good for the path "
             "that accepted them", 2)
    rep.rule('match', "credentials only match within their scheme, "
             "protection space, realm and known paths", 5)
    rep.rule('prefix', "a path prefix matches only paths at or below it", 5)
    rep.rule('origin', "the origin of a URL is its scheme, host and port",
             4)
    rep.rule('target', "requests only go to a connection made for the "
             "scheme, host and port of their URL", 4)
    rep.rule('removal', "a header that is set to None is not sent", 2)
    rep.part(removal, repo, rep)
    rep.part(sites, repo, rep)
    rep.part(is_prefix, repo, rep)
    rep.part(test_path, repo, rep)
    rep.part(test_url, repo, rep)
    rep.part(match_challenge, repo, rep)
    rep.part(finders, repo, rep)
    rep.part(success_path, repo, rep)
    rep.part(origins, repo, rep)
    rep.part(targets, repo, rep)
