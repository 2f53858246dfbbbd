"""C14: cookies are stored and returned only within their declared scope"""

import ast

from ..guards import family, one
from ..peval import Hooks, Obj, PEval, PDict, PList, Raised, Str, Sym
from ..repo import AnalysisError, Class, Func
from ..symval import Unknown, satisfiable, sval

URL = Sym('url')
HOST = Sym('attr', URL, 'host')
PATH = Sym('attr', URL, 'abs_path')


def flag(facts, k):
    return dict((a, b) for a, b in facts if isinstance(a, Sym)).get(k)


class H(Hooks):

    max_paths = 60000
    max_loop = 2

    def __init__(self, domain=None, host=('l1', 'l0')):
        self.domain = domain
        self.host = host

    def inline(self, ev, f, recv, args, kw):
        return f.module.name.endswith('cookie')

    def compare(self, ev, op, a, b, fr):
        return given(op, a, b)

    def call(self, ev, name, fn, recv, args, kw, node, fr):
        if name == 'split_domain':
            if args[0] == HOST:
                k = Sym('splits', 'host')
                if not ev.decide(k):
                    raise Raised('builtins.ValueError', (), node)
                return PList(list(self.host))
            if args[0] == Sym('domain'):
                if not ev.decide(Sym('splits', 'domain')):
                    raise Raised('builtins.ValueError', (), node)
                return PList(list(self.domain))
            return NotImplemented
        if name == 'match' and args == [HOST]:
            return Sym('ip')
        if name == 'domain_in_domain':
            if isinstance(args[1], PList) and args[1].items == [HOST] and \
                    isinstance(args[0], PList) and HOST not in args[0].items:
                # no label of a domain name is an IP address
                return False
            return Sym('within', repr(args[0]), repr(args[1]))
        if name == 'expired' and isinstance(recv, Obj):
            return Sym('expired', recv.attrs['name'])
        if name == 'time':
            return Sym('now')
        if name in ('touch', 'info', 'debug', 'warning', 'error'):
            return None
        if name == 'dict_values' and args and isinstance(args[0], PDict):
            return PList([v for k, v in args[0].items])
        return NotImplemented


def given(op, a, b):
    """Values that stand for a path, a time or an age are not None"""
    if b is None and isinstance(a, Sym) and (a == Sym('domain') or a.op in (
            'path', 'exp', 'age', 'et')) and isinstance(op, (
                ast.Is, ast.IsNot, ast.Eq, ast.NotEq)):
        return isinstance(op, (ast.IsNot, ast.NotEq))
    return NotImplemented


def cookie(c, n, domain, path=None):
    return Obj(c, {
        'name': Sym('name', n), 'value': Sym('value', n),
        'path': Sym('path', n) if path is None else path[0],
        'domain': domain, 'secure': Sym('secure', n),
        'http_only': Sym('http_only', n), 'creation_time': Sym('ct', n),
        'access_time': Sym('at', n), 'expires_time': Sym('et', n),
        'max_age': None, 'expires': None, 'extensions': None})


def node(c, name, cookies, nodes):
    return Obj(c, {'name': name, 'public': Sym('public', name),
                   'private': Sym('private', name),
                   'public_depth': Sym('depth', name),
                   'cookies': PDict(cookies), 'nodes': PDict(nodes)})


def key(c):
    return (c.attrs['name'], c.attrs['path'])


# pairs (request path, cookie path) that do not match
OUTSIDE = (('/ab', '/a'), ('/b', '/a'), ('/', '/a'), ('/a', '/a/'),
           ('/x/a', '/a'), ('/A/b', '/a'), ('/a.b', '/a'), ('/ab/c', '/a'),
           ('/b/', '/a/'), ('/aa/', '/a/'))
INSIDE = (('/a/b', '/a'), ('/a/b', '/a/'), ('/a/b', '/'), ('/', '/'))


def is_url_class(k, name):
    return isinstance(k, Sym) and k.op == 'isinstance' and \
        k.args[0] == URL and isinstance(k.args[1], Class) and \
        k.args[1].name == name


def over(facts, name):
    """What a path knows about isinstance(url, name)"""
    for k, v in facts:
        if is_url_class(k, name):
            return v
    return None


def http(facts):
    return over(facts, 'HTTPURL') is True or \
        over(facts, 'HTTPSURL') is True


def search(repo, rep):
    store = one(repo, 'http.cookie.CookieStore.search')
    ccls = repo.cls('http.cookie.Cookie')
    ncls = repo.cls('http.cookie.CookieDNode')
    ev = PEval(repo, H(host=('l2', 'l1', 'l0')))

    def args(which):
        def thunk(e):
            c = {}
            tree = {}
            for n, d in (('parent', Sym('domain', 'parent')),
                         ('middle', Sym('domain', 'middle')),
                         ('host', Sym('domain', 'host')),
                         ('ip', Sym('domain', 'ip'))):
                c[n] = cookie(ccls, n, d)
                tree[n] = node(ncls, n, [(key(c[n]), c[n])]
                               if n in which else [], [])
            tree['parent'].attrs['nodes'].put('l1', tree['middle'])
            tree['middle'].attrs['nodes'].put('l2', tree['host'])
            me = Obj(store.cls, {
                'lock': Sym('lock'), 'public_depth': Sym('depth'),
                'nodes': PDict([('l0', tree['parent']),
                                (HOST, tree['ip'])])})
            r = e.func(store, [URL], recv=me)
            e.event('cookies', c)
            return r
        return thunk
    got = set()
    bad = {}
    n = 0
    for which in ('parent', 'middle', 'host', 'ip'):
        for p in ev.paths(args((which,))):
            if p.kind == 'cut':
                continue
            n += 1
            if p.kind == 'raise':
                if p.value.endswith('IndexError'):
                    continue
                bad.setdefault('fails', "search fails with %s" % p.value)
                continue
            if not isinstance(p.value, PList):
                raise AnalysisError("search does not return a list")
            cs = [e[1] for e in p.events if e[0] == 'cookies'][0]
            names = {id(v): k for k, v in cs.items()}
            seen = [names.get(id(x)) for x in p.value.items]
            if len(set(seen)) != len(seen):
                bad.setdefault('twice', "a cookie is returned twice")
            for s in seen:
                if s is None:
                    bad.setdefault('foreign', "something is returned that "
                                   "is not a cookie of the store")
                    continue
                got.add(s)
                f = p.facts
                if flag(f, Sym('expired', Sym('name', s))) is not False:
                    bad.setdefault('expired', "a cookie is returned "
                                   "without a test that it has not expired")
                ip = flag(f, Sym('ip')) is True or \
                    flag(f, Sym('splits', 'host')) is False
                if s == 'ip' and not ip:
                    bad.setdefault('ip', "a host name is looked up whole")
                if s != 'ip' and ip:
                    bad.setdefault('ip', "an IP address is taken apart: "
                                   "it has no parent domains")
                if s in ('parent', 'middle'):
                    d = Sym('domain', s)
                    if satisfiable(f, lambda t: None if t == d
                                   else NotImplemented):
                        bad.setdefault('host-only', "a host-only cookie of "
                                       "a parent domain is returned")
                sec = Sym('secure', s)
                if flag(f, sec) is not False and \
                        over(f, 'HTTPSURL') is not True:
                    bad.setdefault('secure', "a secure cookie is returned "
                                   "for a URL that is not https")
                ho = Sym('http_only', s)
                if flag(f, ho) is not False and not http(f):
                    bad.setdefault('http-only', "an http-only cookie is "
                                   "returned for a URL that is not HTTP(S)")
                cp = Sym('path', s)
                for a, b in OUTSIDE:
                    if satisfiable(f, lambda t: a if t == PATH else
                                   b if t == cp else NotImplemented):
                        bad.setdefault('path', "a cookie with path %s is "
                                       "returned for %s" % (b, a))
                        break
    for k, text in (('fails', ''), ('twice', ''), ('foreign', ''),
                    ('expired', ''), ('ip', ''), ('host-only', ''),
                    ('secure', ''), ('http-only', ''), ('path', '')):
        rep.check(k not in bad, 'return', k, bad.get(k, ''),
                  where=store.where)
    rep.check(got == {'parent', 'middle', 'host', 'ip'}, 'return',
              'reachable',
              "cookies of the %s are never returned" % ', '.join(
                  sorted({'parent', 'middle', 'host', 'ip'} - got)),
              where=store.where)
    rep.stats['search paths'] = n


def set_cookie(repo, rep):
    f = one(repo, 'http.cookie.CookieStore.set_cookie')
    ccls = repo.cls('http.cookie.Cookie')
    ncls = repo.cls('http.cookie.CookieDNode')
    bad = {}
    got = set()
    n = 0
    for kind, labels in (('none', None), ('parent', ['l0']),
                         ('same', ['l1', 'l0'])):
        for old in (False, True):
            ev = PEval(repo, H(labels))

            def thunk(e, kind=kind, old=old):
                c = cookie(ccls, 'c', None if kind == 'none'
                           else Sym('domain'))
                t = {x: node(ncls, x, [], [])
                     for x in ('parent', 'host', 'ip')}
                if old:
                    o = cookie(ccls, 'c', Sym('olddomain'))
                    for x in t.values():
                        x.attrs['cookies'].put(key(o), o)
                t['parent'].attrs['nodes'].put('l1', t['host'])
                me = Obj(f.cls, {
                    'lock': Sym('lock'), 'public_depth': Sym('depth'),
                    'nodes': PDict([('l0', t['parent']),
                                    (HOST, t['ip'])])})
                e.event('start', c, t)
                e.func(f, [URL, c], recv=me)

            for p in ev.paths(thunk):
                if p.kind == 'cut':
                    continue
                n += 1
                if p.kind == 'raise':
                    if not p.value.endswith('CookieError') and \
                            not p.value.endswith('IndexError'):
                        bad.setdefault(
                            'refusal', "a cookie is refused with %s, not "
                            "with CookieError" % p.value)
                    continue
                c, t = p.events[0][1:]
                where = [x for x in t if any(
                    v is c for k, v in t[x].attrs['cookies'].items)]
                fa = p.facts
                dom = Sym('domain')
                ip = flag(fa, Sym('ip')) is True or \
                    flag(fa, Sym('splits', 'host')) is False
                exact = kind == 'none' or any(
                    isinstance(k, Sym) and k.op == 'cmp' and
                    k.args[0] == '==' and set(k.args[1:]) == {dom, HOST}
                    and v for k, v in fa)
                if flag(fa, Sym('http_only', 'c')) is not False and \
                        not http(fa) and where:
                    bad.setdefault('http-only', "an http-only cookie is "
                                   "accepted from a URL that is not "
                                   "HTTP(S)")
                if not where:
                    if flag(fa, Sym('expired', Sym('name', 'c'))) is True:
                        if old and not all(
                                not x.attrs['cookies'].items
                                for k, x in t.items()
                                if k == ('ip' if ip and exact else
                                         'parent' if kind == 'parent'
                                         and not exact else 'host')):
                            bad.setdefault('expire', "an expired cookie "
                                           "does not remove the one it "
                                           "replaces")
                        continue
                    bad.setdefault('lost', "a cookie is neither stored nor "
                                   "refused")
                    continue
                if len(where) > 1:
                    bad.setdefault('twice', "a cookie is stored in two "
                                   "domains")
                w = where[0]
                got.add((kind, w))
                if flag(fa, Sym('expired', Sym('name', 'c'))) is not False:
                    bad.setdefault('expire', "a cookie is stored without a "
                                   "test that it has not expired")
                if exact:
                    if w != ('ip' if ip else 'host'):
                        bad.setdefault('place', "a cookie of the host is "
                                       "stored in another domain")
                else:
                    host = repr(PList([HOST])) if ip else \
                        repr(PList(['l0', 'l1']))
                    mine = repr(PList(list(reversed(labels))))
                    if flag(fa, Sym('within', mine, host)) is not True:
                        bad.setdefault('origin', "a cookie is accepted for "
                                       "a domain that is not known to "
                                       "contain its origin")
                    if w != ('parent' if kind == 'parent' else 'host'):
                        bad.setdefault('place', "a cookie is stored under "
                                       "another domain than its own")
                pub = flag(fa, Sym('public', w))
                host_only = c.attrs['domain'] is None
                if pub is not False and w == 'parent':
                    bad.setdefault('public', "a cookie is stored for a "
                                   "public domain")
                if pub is not False and not host_only:
                    bad.setdefault('public', "a cookie of a public domain "
                                   "is not made host-only")
                if kind == 'none' and not host_only:
                    bad.setdefault('widen', "a host-only cookie is given a "
                                   "domain")
                if not host_only and c.attrs['domain'] != dom:
                    bad.setdefault('widen', "the domain of a cookie is "
                                   "changed")
                for a in ('secure', 'http_only'):
                    if c.attrs[a] != Sym(a, 'c'):
                        bad.setdefault('flags', "the %s flag of a cookie "
                                       "is changed" % a)
    for k in ('refusal', 'http-only', 'expire', 'lost', 'twice', 'place',
              'origin', 'public', 'widen', 'flags'):
        rep.check(k not in bad, 'accept', k, bad.get(k, ''), where=f.where)
    rep.check({('none', 'host'), ('none', 'ip'), ('parent', 'parent'),
               ('same', 'host')} <= got, 'accept', 'reachable',
              "some cookies are never stored", where=f.where)
    rep.stats['set_cookie paths'] = n


DIRS = (('/a/b/c', '/a/b'), ('/a', '/'), ('/a/', '/a'), ('/', '/'),
        ('', '/'))


def default_path(repo, rep):
    """The path of a cookie without one is the directory of the URL"""
    f = one(repo, 'http.cookie.CookieStore.set_cookie')
    ccls = repo.cls('http.cookie.Cookie')
    ncls = repo.cls('http.cookie.CookieDNode')
    ev = PEval(repo, H())

    def thunk(e):
        c = cookie(ccls, 'c', None, (None,))
        t = node(ncls, 'parent', [], [('l1', node(ncls, 'host', [], []))])
        me = Obj(f.cls, {'lock': Sym('lock'), 'public_depth': Sym('depth'),
                         'nodes': PDict([('l0', t), (HOST, t)])})
        e.event('start', c)
        e.func(f, [URL, c], recv=me)
    ps = [p for p in ev.paths(thunk) if p.kind == 'return']
    for url, want in DIRS:
        bad = None

        def bind(t):
            return url if t == PATH else NotImplemented
        for p in ps:
            if not satisfiable(p.facts, bind):
                continue
            got = p.events[0][1].attrs['path']
            try:
                v = sval(got, bind)
            except Unknown:
                bad = "the path given to a cookie without one is not " \
                    "made from the request path"
                continue
            if v != want and not (v == '/' and want == '/'):
                if v is None or len(v) < len(want) or \
                        not v.startswith(want):
                    bad = "a cookie without a path set by %s gets the " \
                        "path %s" % (url or 'an empty path', v)
        rep.check(bad is None, 'default', url or 'empty', bad or '',
                  where=f.where)


def in_domain(repo, rep):
    f = one(repo, 'http.cookie.domain_in_domain')
    ev = PEval(repo, Hooks())
    for n in range(0, 4):
        for m in range(0, 4):
            sub = [Sym('s', i) for i in range(n)]
            dom = [Sym('d', i) for i in range(m)]

            def thunk(e):
                return e.truth(e.func(f, [PList(sub), PList(dom)]))
            bad = None
            for p in ev.paths(thunk):
                if p.kind == 'raise':
                    bad = "the test fails with %s" % p.value
                if p.kind != 'return' or p.value is not True:
                    continue
                if n > m:
                    bad = "a domain lies within a shorter one"
                    continue
                for a, b in zip(sub, dom):
                    if not any(isinstance(k, Sym) and k.op == 'cmp' and
                               k.args[0] == '==' and v and
                               set(k.args[1:]) == {a, b}
                               for k, v in p.facts):
                        bad = "label %i is not compared" % a.args[0]
            rep.check(bad is None, 'within', '%i/%i' % (n, m), bad or '',
                      where=f.where)


# ---- expiry ----------------------------------------------------------
def expiry(repo, rep):
    c = repo.cls('http.cookie.Cookie')
    seen = set()
    for k in family(repo, 'http.cookie.Cookie'):
        f = repo.find_method(k, 'expired')
        if not isinstance(f, Func) or f in seen:
            continue
        seen.add(f)
        bad = None
        ev = PEval(repo, H2())
        for t, now, want in ((None, 10, False), (5, 10, True),
                             (15, 10, False), (0, 10, True)):
            et = None if t is None else Sym('et')
            for given in (True, False):
                def thunk(e):
                    return e.truth(e.func(
                        f, [Sym('now')] if given else [],
                        recv=Obj(k, {'expires_time': et})))

                def bind(x):
                    return t if x == et and et is not None else \
                        now if x == Sym('now') else NotImplemented
                for p in ev.paths(thunk):
                    if not satisfiable(p.facts, bind):
                        continue
                    if p.kind != 'return':
                        bad = "expired fails with %s" % p.value
                    elif p.value is not want:
                        bad = "a cookie that expires at %s is%s expired " \
                            "at %s" % (t, '' if p.value else ' not', now)
        rep.check(bad is None, 'expiry', f.short, bad or '', where=f.where)
    f = repo.find_method(c, '__init__')
    ev = PEval(repo, H2())
    for age in (None, 'age'):
        for exp in (None, 'exp'):
            a = None if age is None else Sym('age')
            x = None if exp is None else Sym('exp')
            bad = None
            for v in (-5, 0, 5):
                def bind(t):
                    if t == Sym('age'):
                        return v
                    if t == Sym('now'):
                        return 100
                    if isinstance(t, Sym) and t.op == 'call' and \
                            t.args[:2] == ('get_unixtime', Sym('exp')):
                        return 7000
                    return NotImplemented

                def thunk(e):
                    o = Obj(c)
                    e.event('o', o)
                    e.func(f, [Sym('n'), Sym('v')], {
                        'max_age': a, 'expires': x,
                        'secure': Sym('sec'), 'http_only': Sym('ho'),
                        'path': Sym('p')}, recv=o)
                for p in ev.paths(thunk):
                    if p.kind != 'return' or not satisfiable(p.facts,
                                                             bind):
                        continue
                    o = p.events[0][1].attrs
                    try:
                        t = sval(o.get('expires_time'), bind)
                    except Unknown:
                        bad = "the expiry time is not made from Max-Age " \
                            "or Expires"
                        continue
                    if age:
                        ok = t is not None and (
                            t == 100 + v if v > 0 else t <= 100)
                    else:
                        ok = t == (7000 if exp else None)
                    if not ok:
                        bad = "a cookie with%s expires at %s when it is " \
                            "100" % (
                                (' Max-Age %s' % v if age else '') +
                                (' Expires 7000' if exp else ''), t)
                    if o.get('secure') != Sym('sec') or \
                            o.get('http_only') != Sym('ho') or \
                            o.get('path') != Sym('p'):
                        bad = "the path, secure or http-only value of a " \
                            "new cookie is lost"
            rep.check(bad is None, 'expiry', 'Cookie(%s)' % ', '.join(
                ([] if age is None else ['max_age']) +
                ([] if exp is None else ['expires'])), bad or '',
                where=f.where)


class H2(Hooks):

    max_paths = 20000

    def inline(self, ev, f, recv, args, kw):
        return f.module.name.endswith('cookie') and f.name not in (
            'bstr', 'cstr')

    def compare(self, ev, op, a, b, fr):
        return given(op, a, b)

    def call(self, ev, name, fn, recv, args, kw, node, fr):
        if name == 'time':
            return Sym('now')
        if name in ('bstr', 'cstr'):
            return args[0]
        return NotImplemented


# ---- attributes ------------------------------------------------------
class PH(Hooks):

    max_paths = 60000
    max_loop = 1

    def compare(self, ev, op, a, b, fr):
        if isinstance(op, (ast.In, ast.NotIn)) and isinstance(b, Sym) and \
                isinstance(a, (str, bytes)) and text(a) in (';', '='):
            r = self.call(ev, 'find', None, b, [a], {}, None, fr) >= 0
            return r == isinstance(op, ast.In)
        return NotImplemented

    def inline(self, ev, f, recv, args, kw):
        return f.cls is not None and f.cls.name == 'CookieParser' and \
            f.name in ('require_set_cookie_string',
                       '_require_set_cookie_string_strict') or \
            f.module.name.endswith('cookie') and f.name.startswith('_')

    def call(self, ev, name, fn, recv, args, kw, node, fr):
        if isinstance(fn, Class) and fn.name in ('Cookie', 'Section4Cookie'):
            ev.event('cookie', dict(kw), list(args))
            return Sym('cookie')
        if name in ('is_digit',):
            return Sym('digit', args[0])
        if name in ('find', 'index') and args and \
                text(args[0]) in (';', '='):
            # one more attribute is enough, each with or without value
            n = len([e for e in ev.path.events if e == ('find', text(args[0]))])
            ev.event('find', text(args[0]))
            if text(args[0]) == ';':
                yes = n < 1 and ev.decide(Sym('more', n))
            else:
                yes = ev.decide(Sym('hasvalue', n))
            if not yes and name == 'index':
                raise Raised('builtins.ValueError', (), node)
            return 7 if yes else -1
        if name == 'parse' and args == [b';']:
            n = len([e for e in ev.path.events if e == ('semi',)])
            ev.event('semi')
            return b';' if n < 1 and ev.decide(Sym('semi', n)) else None
        if name == 'cstr':
            return Sym('cstr', args[0])
        return NotImplemented


def text(v):
    return v.decode('latin-1') if isinstance(v, bytes) else v


def named(facts, name):
    """Facts that compare something with the attribute name"""
    out = []
    for i, (k, v) in enumerate(facts):
        if isinstance(k, Sym) and k.op == 'cmp' and k.args[0] == '==' and \
                any(isinstance(x, (str, bytes)) and
                    text(x).lower() == name for x in k.args[1:]):
            other = [x for x in k.args[1:]
                     if not isinstance(x, (str, bytes))]
            out.append((other[0] if other else None, v, facts[:i]))
        if isinstance(k, Sym) and k.op == 'call' and \
                k.args[0] == 'parse_insensitive' and any(
                    isinstance(x, (str, bytes)) and
                    text(x).lower().rstrip('=') == name
                    for x in k.args[2]):
            out.append((k, v, facts[:i]))
    return out


def stripped(t):
    while isinstance(t, Sym) and t.op in ('call', 'slice'):
        if t.op == 'call' and t.args[0] in ('strip', 'lstrip'):
            return True
        t = t.args[1] if t.op == 'call' else t.args[0]
    return False


def attributes(repo, rep):
    base = repo.cls('http.cookie.CookieParser')
    for strict in (False, True):
        f = base.methods.get('_require_set_cookie_string_strict' if strict
                             else 'require_set_cookie_string')
        if not isinstance(f, Func):
            raise AnalysisError("the Set-Cookie parser has gone")
        ev = PEval(repo, PH())
        bad = {}
        seen = set()

        def thunk(e):
            return e.func(f, [] if strict else [False], recv=Sym('self'))
        n = 0
        for p in ev.paths(thunk):
            for e in p.events:
                if e[0] != 'cookie' or p.kind != 'return':
                    continue
                n += 1
                kw = e[1]
                for a, name in (('secure', 'secure'),
                                ('http_only', 'httponly')):
                    hit = [(t, g) for t, v, g in named(p.facts, name) if v]
                    v = kw.get(a, False)
                    if v is not False and not hit:
                        bad.setdefault(a, "a cookie is made %s without "
                                       "that attribute" % name)
                    if hit and v is not True and not strict:
                        bad.setdefault(a, "the %s attribute is ignored"
                                       % name)
                    if v is True:
                        seen.add(a)
                    if not strict and any(
                            t is not None and 'lower' not in repr(t) and
                            'casefold' not in repr(t) for t, g in hit):
                        bad.setdefault(a, "the %s attribute is only "
                                       "recognised in one case" % name)
                    for t, g in hit:
                        if not strict and t is not None and \
                                not stripped(t):
                            bad.setdefault(
                                'space:' + ('no value' if valueless(g) else 'value'),
                                "white space before the name of an "
                                "attribute %s value hides it: the Secure "
                                "flag of 'a=b; Secure' is lost" % (
                                    'without' if valueless(g)
                                    else 'with a'))
                for a, name in (('domain', 'domain'), ('path', 'path'),
                                ('expires', 'expires'),
                                ('max_age', 'max-age')):
                    v = kw.get(a)
                    hit = [t for t, x, g in named(p.facts, name) if x]
                    if not strict and any(
                            t is not None and 'lower' not in repr(t) and
                            'casefold' not in repr(t) for t in hit):
                        bad.setdefault(a, "the %s attribute is only "
                                       "recognised in one case" % name)
                    if v is not None and not hit:
                        bad.setdefault(a, "the %s of a cookie is not taken "
                                       "from that attribute" % a)
                    if v is not None:
                        seen.add(a)
        for a in ('secure', 'http_only', 'domain', 'path', 'expires',
                  'max_age'):
            rep.check(a not in bad and a in seen, 'attributes',
                      '%s:%s' % (f.short, a), bad.get(
                          a, "the attribute is never stored"),
                      where=f.where)
        if not strict:
            for a in ('space:value', 'space:no value'):
                rep.check(a not in bad, 'attributes', '%s:%s' % (
                    f.short, a), bad.get(a, ''), where=f.where)


def valueless(facts):
    """Whether the attribute is not known to have a value"""
    r = True
    for k, v in facts:
        if isinstance(k, Sym) and k.op == 'hasvalue':
            r = not v
    return r


# ---- public domains --------------------------------------------------
def public(repo, rep):
    ncls = repo.cls('http.cookie.CookieDNode')
    store = repo.cls('http.cookie.CookieStore')
    # a new node
    init = repo.find_method(ncls, '__init__')
    ev = PEval(repo, Hooks())
    for p in ev.run(init, [Sym('n')], recv=lambda e: new(e, ncls)):
        a = p.events[0][1].attrs
        rep.check(a.get('public') is True, 'public', 'CookieDNode.public',
                  "domains are not public by default", where=init.where)
    init = repo.find_method(store, '__init__')
    for p in ev.run(init, [], recv=lambda e: new(e, store)):
        a = p.events[0][1].attrs
        d = a.get('public_depth')
        rep.check(isinstance(d, int) and d >= 127, 'public',
                  'CookieStore.public_depth', "not all domains are public "
                  "before a list is loaded (depth %r)" % (d,),
                  where=init.where)
    # expansion
    f = repo.find_method(store, '_expand_node')
    for wild in (False, True):
        for label in ('l', '*'):
            def thunk(e):
                w = node(ncls, '*', [], [])
                w.attrs['nodes'].put('k', node(ncls, 'k', [], []))
                base = node(ncls, 'base', [], [('*', w)] if wild else [])
                e.event('base', base, w)
                return e.func(f, [base, label], recv=Obj(store, {}))
            bad = None
            for p in ev.paths(thunk):
                if p.kind != 'return' or not isinstance(p.value, Obj):
                    bad = "_expand_node fails"
                    continue
                base, w = p.events[0][1:]
                a = p.value.attrs
                depth = Sym('depth', 'base')
                if wild and label != '*':
                    for x in ('public', 'private', 'public_depth'):
                        if a.get(x) != w.attrs[x]:
                            bad = "a copy of the wild card node has " \
                                "another %s value" % x
                    k = a['nodes'].get('k') if isinstance(
                        a.get('nodes'), PDict) else None
                    if k is None or k.attrs.get('public') != Sym(
                            'public', 'k'):
                        bad = "a copy of the wild card node loses the " \
                            "public domains below it"
                    elif k is w.attrs['nodes'].get('k'):
                        bad = "copies of the wild card node share their " \
                            "children: cookies of one domain are seen by " \
                            "another"
                elif wild:
                    continue
                else:
                    for d in (0, 1, 3):
                        def bind(t):
                            return d if t == depth else NotImplemented
                        if not satisfiable(p.facts, bind):
                            continue
                        try:
                            pub = sval(a.get('public'), bind)
                            nd = sval(a.get('public_depth'), bind)
                        except Unknown:
                            bad = "public does not follow from the depth"
                            continue
                        if d and not pub:
                            bad = "a domain above the public depth is not " \
                                "public"
                        if nd != max(0, d - 1):
                            bad = "below a public depth of %i the depth " \
                                "is %s" % (d, nd)
                if not any(v is p.value for k, v in
                           base.attrs['nodes'].items):
                    bad = "the new node is not added to its parent"
            rep.check(bad is None, 'public', 'expand:%s%s' % (
                label, ':wild' if wild else ''), bad or '', where=f.where)
    suffixes(repo, rep, store, ncls)


def new(e, c):
    o = Obj(c)
    e.event('new', o)
    return o


class SH(Hooks):

    max_paths = 60000

    def __init__(self, labels):
        self.labels = labels

    def call(self, ev, name, fn, recv, args, kw, node, fr):
        if name == 'split_domain':
            return PList(list(self.labels))
        if name == 'dict_values' and args and isinstance(args[0], PDict):
            return PList([v for k, v in args[0].items])
        return NotImplemented


def walk(n, path=()):
    yield path, n
    for k, v in n.attrs['nodes'].items:
        for x in walk(v, path + (k,)):
            yield x


def suffixes(repo, rep, store, ncls):
    for name, labels in (('one', ['a']), ('two', ['b', 'a']),
                         ('new', ['n', 'a']), ('wild', ['*', 'a']),
                         ('inner', ['b', '*', 'a'])):
        for meth in ('add_public_suffix', 'add_private_suffix'):
            f = repo.find_method(store, meth)
            if not isinstance(f, Func):
                raise AnalysisError(meth + " has gone")
            ev = PEval(repo, SH(labels))
            for star in (False, True):
                def thunk(e):
                    b = node(ncls, 'b', [], [])
                    kids = [('b', b)]
                    if star:
                        kids.append(('*', node(ncls, '*', [], [])))
                    a = node(ncls, 'a', [], kids)
                    c = node(ncls, 'c', [], [])
                    me = Obj(store, {'lock': Sym('lock'),
                                     'public_depth': Sym('depth', 'root'),
                                     'nodes': PDict([('a', a),
                                                     ('c', c)])})
                    e.event('tree', me)
                    e.func(f, ['x'], recv=me)
                bad = None
                for p in ev.paths(thunk):
                    if p.kind == 'cut':
                        continue
                    if p.kind == 'raise':
                        bad = "%s fails with %s" % (meth, p.value)
                        continue
                    bad = bad or judge(p, meth, labels, star)
                rep.check(bad is None, 'suffix', '%s:%s%s' % (
                    meth, name, ':star' if star else ''), bad or '',
                    where=f.where)


def judge(p, meth, labels, star):
    me = p.events[0][1]
    want = tuple(reversed(labels))
    priv = meth == 'add_private_suffix'
    nodes = dict(walk(me))
    nodes.pop(())
    for path, n in nodes.items():
        a = n.attrs
        pub, pv = a.get('public'), a.get('private')
        was = {('a',): 'a', ('a', 'b'): 'b', ('c',): 'c',
               ('a', '*'): '*' if star else None}.get(path)
        hit = len(path) == len(want) and all(
            x == y or y == '*' for x, y in zip(path, want))
        if want[-1] == '*' and len(path) != len(want):
            hit = False
        dn = '.'.join(reversed(path))
        if hit and path == want:
            if priv and pub is not False:
                return "%s is still public after an exception for it" % dn
            if not priv and pub is not True and flag(
                    p.facts, Sym('private', was)) is not True:
                return "%s is not public although it is a public " \
                    "suffix" % dn
        elif hit and want[-1] == '*':
            if not priv and pub is not True and flag(
                    p.facts, Sym('private', was)) is not True:
                return "%s is not public although *.a is a public " \
                    "suffix" % dn
        elif hit:
            continue
        elif was is not None:
            ok = (pub == Sym('public', was) or
                  (pub is True and not priv))
            if not ok:
                return "a rule for %s changes whether %s is public" % (
                    '.'.join(labels), dn)
        elif pub is False and priv and not hit:
            # made on the way to the target
            if flag(p.facts, Sym('depth', '*')) is not False and not any(
                    isinstance(k, Sym) and k.op == 'depth' and v is False
                    for k, v in p.facts):
                return "a rule for %s makes %s private" % (
                    '.'.join(labels), dn)
    if want[-1] == '*' and not star:
        top = nodes[('a',)].attrs.get('public_depth')
        if priv and top != 0:
            return "the domains below %s stay public" % want[0]
        if not priv and not (top == Sym('depth', 'a') or
                             isinstance(top, int) and top >= 1):
            return "the domains below %s are not public" % want[0]
        if not priv and top == Sym('depth', 'a') and satisfiable(
                p.facts, lambda t: 0 if t == top else NotImplemented):
            return "new domains below %s are not public although *.%s " \
                "is a public suffix" % (want[0], want[0])
    return None


def run(repo, rep):
    rep.rule('return', "a cookie is only returned when it is not expired "
             "and its host, path, secure and http-only scopes hold", 5)
    rep.rule('accept', "a cookie is only stored for a domain that contains "
             "its origin and is not public, and only when its scope holds",
             5)
    rep.rule('default', "a cookie without a path is limited to the "
             "directory of the URL that set it", 2)
    rep.rule('within', "one domain lies in another only if all labels of "
             "the shorter one match", 5)
    rep.rule('expiry', "the expiry time follows from Max-Age and Expires "
             "and is compared with the time", 2)
    rep.rule('attributes', "each value of a cookie comes from the "
             "attribute of that name", 6)
    rep.rule('public', "domains are public unless a rule or the depth says "
             "otherwise, new nodes inherit it", 4)
    rep.rule('suffix', "a public suffix rule only makes domains public, an "
             "exception only the domain it names private", 5)
    rep.part(search, repo, rep)
    rep.part(set_cookie, repo, rep)
    rep.part(default_path, repo, rep)
    rep.part(in_domain, repo, rep)
    rep.part(expiry, repo, rep)
    rep.part(attributes, repo, rep)
    rep.part(public, repo, rep)
