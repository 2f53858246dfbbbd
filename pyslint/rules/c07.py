"""C07: session cookies are trusted only after their signature verifies"""

import ast

from ..guards import (CODECS, EventCheck, LOGS, PLAIN, exc_of,
                      explicit_raises, facts_eq, family, flows, has, is_attr,
                      is_call, knows, parts, strip)
from ..interp import NONE, T, is_const
from ..repo import AnalysisError, Class, Ext, Func, walk_own
from ..rulebase import helpers_only, run_func, where_of

# the functions that read what the browser sent
READERS = {'decode': ('UnicodeDecodeError',),
           'check_signature': ('ValueError',)}
ENTRY = ('session_wrapper', 'set_session', 'ctest', 'wlaunch',
         'session_page')


def raw_cookie(t):
    """t is the value of the session cookie as received"""
    t = strip(t)
    if is_call(t, 'get') and t.args[2] is not None and t.args[3] and \
            is_attr(t.args[3][0], '_session_cookie'):
        return True
    if t.op == 'sub' and is_attr(t.args[1], '_session_cookie'):
        return True
    return False


def verifies(t):
    return is_call(t, 'check_signature')


def lenient(ci):
    """The call decodes without ever failing"""
    e = ci.arg(1, 'errors')
    return e is not None and e.op == 'const' and e.args[0] in (
        'replace', 'ignore', 'backslashreplace')



class Session(EventCheck):

    def __init__(self, rep, repo, classes):
        EventCheck.__init__(self, rep)
        self.repo = repo
        self.sclasses = classes

    def issession(self, t):
        return t.op == 'new' and t.args[0] in self.sclasses

    def source(self, ci):
        """Is this call the construction of a session from text"""
        t = ci.target
        if isinstance(t, Class) and t in self.sclasses or \
                ci.name == 'SessionClass':
            a = ci.arg(0, 'src')
            return a if a is not None and a is not NONE else None
        return None

    def verified(self, st, t):
        """Text t was the subject of a completed signature check"""
        t = strip(t)
        if verifies(t):
            return True
        for _, sig, msg in self.events(st, 'sig'):
            if msg is not NONE and t in parts(msg):
                return True
        return False

    def call(self, it, st, ci):
        f = self.func.short
        src = self.source(ci)
        if src is not None:
            self.note('verified', "%s:%s" % (f, ci.name),
                      self.verified(st, src),
                      "a session is built from text whose signature has "
                      "not been checked on this path", ci.where, st.trace)
            self.throw(it, st, ci, 'ValueError')
        elif ci.name == 'decode' and ci.recv is not None and \
                not lenient(ci) and has(ci.recv, raw_cookie):
            self.throw(it, st, ci, 'UnicodeDecodeError')
        elif ci.name == 'check_signature':
            self.throw(it, st, ci, 'ValueError')
        self.rawuse(it, st, ci)
        return None

    def rawuse(self, it, st, ci):
        """The unverified cookie may only be decoded, verified, logged"""
        if ci.name in LOGS or ci.name in PLAIN or ci.name in (
                'check_signature', 'bool', 'len', 'isinstance', 'repr'):
            return
        if isinstance(ci.target, Func) and self.is_new(ci.target):
            return
        if raw_cookie(T('call', ci.name, '', ci.recv, tuple(ci.args), ())):
            return
        vals = list(ci.args) + list(ci.kw.values())
        if ci.recv is not None:
            vals.append(ci.recv)
        for v in vals:
            if flows(v, raw_cookie, verifies) is not None:
                self.note('raw', "%s:%s" % (self.func.short, ci.name),
                          False, "the session cookie is used before its "
                          "signature is checked", ci.where, st.trace)

    def after_call(self, it, st, ci, term):
        if ci.name == 'check_signature':
            sig, msg = ci.arg(0, 'signature'), ci.arg(1, 'message', NONE)
            if sig is not None:
                st = self.put(st, ('sig', sig, msg))
                self.note('raw', "%s:check_signature" % self.func.short,
                          True)
        if ci.name == 'establish_session':
            st = self.put(st, ('est',))
        if ci.name == 'establish' and ci.recv is not None:
            st = self.put(st, ('est',))
        return st

    def attr_store(self, it, st, base, attr, value, node, fr):
        f = self.func
        if attr == 'session' and not (
                f.cls is not None and it.is_root_self(base, fr) and
                not self.repo.find_method(f.cls, 'session_wrapper')):
            ok = value is NONE or (
                self.issession(value) and not value.args[1] and
                not value.args[2])
            if not ok and self.issession(value) and value.args[1]:
                ok = self.verified(st, value.args[1][0])
            if not ok and is_call(value, 'SessionClass'):
                ok = not value.args[3] or self.verified(
                    st, value.args[3][0])
            self.note('store', f.short, ok, "the session of the request "
                      "is set to something other than a new session or "
                      "one read from a verified cookie",
                      where_of(fr, node), st.trace)
        if attr in ('sid', 'established', 'last_seen') and (
                self.issession(base) or is_attr(base, 'session')):
            self.note('store', "%s:%s" % (f.short, attr),
                      f.cls in self.sclasses,
                      "session state is changed from outside the session "
                      "class", where_of(fr, node))
        return st

    def func_exit(self, it, st, func, kind, payload, fr):
        if kind == 'raise':
            c = exc_of(it, payload, fr)
            if payload is not None and payload.op == 'new' and \
                    c is not None:
                bad = it.exc_sub(c, Ext('builtins.ValueError')) is True
                self.note('no-error', "%s:%s" % (func.short, c.name),
                          not bad, "a malformed or forged cookie or query "
                          "ends in %s and so a server error" % c.name,
                          "%s:%s" % (func.module.rel, func.node.lineno),
                          st.trace)
        elif func.name == 'set_session':
            self.fresh_exit(it, st, func, fr)
            self.note('no-error', func.short, True)
        else:
            self.note('no-error', func.short, True)

    def fresh_exit(self, it, st, func, fr):
        """State of the session set_session leaves in the context"""
        s = None
        for (b, a), v in st.heap.items():
            if a == 'session' and b.op == 'param':
                s = v
        inst = func.short
        w = "%s:%s" % (func.module.rel, func.node.lineno)
        if s is None or not self.issession(s):
            if s is not None and s.op == 'kill':
                return
            self.note('fresh', inst, False, "no session is left in the "
                      "context on some path", w, st.trace)
            return
        if not s.args[1]:
            self.note('fresh', inst, True)
            return
        est = None
        for t, p in st.facts.items():
            if t.op == 'attr' and t.args[1] == 'established' and \
                    t.args[0] is s:
                est = p
        limit = False
        for t, p in st.facts.items():
            if t.op == 'cmp' and t.args[0] == '<':
                lo, hi = t.args[1], t.args[2]
                if p is False and is_call(hi, 'age') and \
                        hi.args[2] is s:
                    if est is True and is_attr(lo, '_session_timeout'):
                        limit = True
                    if est is False and lo.op == 'const' and isinstance(
                            lo.args[0], (int, float)) and \
                            lo.args[0] <= 120:
                        limit = True
                if p is True and is_call(lo, 'age') and \
                        lo.args[2] is s:
                    if est is True and is_attr(hi, '_session_timeout'):
                        limit = True
                    if est is False and hi.op == 'const' and isinstance(
                            hi.args[0], (int, float)) and \
                            hi.args[0] <= 121:
                        limit = True
        self.note('fresh', inst + ':age', limit,
                  "a session is taken from its cookie without its age "
                  "being within the limit for %s sessions" % (
                      'established' if est else 'unestablished'),
                  w, st.trace)
        self.note('fresh', inst + ':established',
                  est is True or ('est',) in st.auto,
                  "a session read back from its cookie is not established",
                  w, st.trace)
        incookies = knows(st, lambda t: t.op == 'cmp' and
                          t.args[0] == 'in' and
                          is_attr(t.args[1], '_test_cookie'), True)
        self.note('fresh', inst + ':consent', incookies,
                  "a session is taken from its cookie without the test "
                  "cookie", w, st.trace)

    def relevant(self, t):
        return t.op in ('cmp', 'attr')


class Verify(EventCheck):

    """Body of check_signature"""

    def __init__(self, rep, repo, thrown):
        EventCheck.__init__(self, rep)
        self.repo = repo
        self.thrown = thrown

    def call(self, it, st, ci):
        if ci.name in ('int', 'long', 'long2'):
            self.throw(it, st, ci, 'ValueError')
        elif ci.name in ('unhexlify', 'a2b_hex', 'fromhex', 'b64decode'):
            self.throw(it, st, ci, 'ValueError')
            self.throw(it, st, ci, 'TypeError')
        elif ci.name == '_get_cipher':
            for c in self.thrown:
                self.throw(it, st, ci, c)
        return None

    def func_exit(self, it, st, func, kind, payload, fr):
        w = "%s:%s" % (func.module.rel, func.node.lineno)
        if kind == 'raise':
            c = exc_of(it, payload, fr)
            if c is not None:
                self.note('failure', "%s:%s" % (func.short, c.name),
                          it.exc_sub(c, Ext('builtins.ValueError')) is True,
                          "a signature that does not verify is reported as "
                          "%s, not as ValueError" % c.name, w, st.trace)
            return
        if payload is None:
            payload = NONE
        v = strip(payload)
        ps = func.params()
        sig = T('param', ps[1])
        msg = T('param', ps[2])

        def fromsig(t):
            return has(t, lambda x: x is sig)

        ok = False
        for a, b in facts_eq(st):
            for h, o in ((a, b), (b, a)):
                if not (is_call(h, 'hash') and h.args[2] is not None and
                        h.args[3]):
                    continue
                c = strip(h.args[2])
                if not is_call(c, '_get_cipher') or not c.args[3] or \
                        not fromsig(c.args[3][0]):
                    continue
                if fromsig(o) and not has(o, lambda x: x is h) and \
                        v in parts(h.args[3][0]) and \
                        any(fromsig(x) and x is not v
                            for x in parts(h.args[3][0])):
                    ok = True
        self.note('verify', func.short, ok,
                  "a value is returned as verified on a path where the "
                  "hash of the salt and that value did not have to equal "
                  "the hash in the signature", w, st.trace)
        if v is not msg:
            given = st.facts.get(msg)
            same = any((a is msg and strip(b) is v) or
                       (b is msg and strip(a) is v)
                       for a, b in facts_eq(st))
            self.note('verify', func.short + ':message',
                      given is False or same or
                      st.facts.get(T('cmp', 'is', msg, NONE)) is True,
                      "the message in the signature is accepted although "
                      "the caller asked for another one", w, st.trace)
        else:
            # a message inside the signature must be the same one
            pass


class Sign(EventCheck):

    """sign, ascii_sign and the hash of each cipher"""

    def func_exit(self, it, st, func, kind, payload, fr):
        if kind == 'raise' or payload is None:
            return
        w = "%s:%s" % (func.module.rel, func.node.lineno)
        ps = func.params()
        arg = T('param', ps[1])
        if func.name == 'hash':
            ok = has(payload, lambda t: is_attr(t, 'key', 'cipher',
                                                'hashkey') and
                     t.args[0].op == 'param') and \
                has(payload, lambda t: t is arg) and \
                has(payload, lambda t: t.op == 'call' and
                    t.args[0].startswith(('sha', 'hmac', 'new', 'blake',
                                          'digest', 'hexdigest')))
            self.note('keyed', func.short, ok, "the hash is not a digest "
                      "of both the key and the data", w)
            return
        h = flows(payload, lambda t: is_call(t, 'hash', 'sign') and
                  t.args[2] is not None)
        ok = h is not None and h.args[3] and arg in parts(h.args[3][0])
        if ok and is_call(h, 'hash'):
            salt = [x for x in parts(h.args[3][0])
                    if is_call(x, 'urandom', 'token_bytes')]
            ok = bool(salt) and flows(
                payload, lambda t: t is salt[0], lambda t: t is h)
        self.note('keyed', func.short, bool(ok), "the signature does not "
                  "hold the hash of the salt and message, and that salt",
                  w)


class Construct(EventCheck):

    """A session built from text fails only with ValueError"""

    def call(self, it, st, ci):
        if ci.name in ('from_str', 'from_string'):
            self.throw(it, st, ci, it.repo.cls('iso8601.DateTimeError'))
        if ci.name in ('int', 'float', 'long2'):
            self.throw(it, st, ci, 'ValueError')
        return None

    def func_exit(self, it, st, func, kind, payload, fr):
        if kind != 'raise':
            self.note('failure', func.short, True)
            return
        c = exc_of(it, payload, fr)
        if c is not None:
            self.note('failure', "%s:%s" % (func.short, c.name),
                      it.exc_sub(c, Ext('builtins.ValueError')) is True,
                      "a signed text that is not a session is reported as "
                      "%s, not as ValueError" % c.name,
                      "%s:%s" % (func.module.rel, func.node.lineno))


def scope(repo, chk, apps):
    mods = {c.module for c in apps}
    for f in sorted(repo.funcs.values(), key=lambda f: f.qual):
        if isinstance(f.node, ast.Lambda) or f.outer is not None:
            continue
        if f.module not in mods and f.cls not in apps:
            continue
        if helpers_only(repo, chk, f):
            continue
        yield f


def run(repo, rep):
    rep.rule('verified', 'every session object built from text is built '
             'from the result of check_signature, or from a part of a '
             'message that check_signature accepted on the same path', 3)
    rep.rule('raw', 'the session cookie as received is only decoded, '
             'logged, tested and passed to check_signature', 2)
    rep.rule('store', 'the session of a request is only ever set to '
             'nothing, a new session or a verified one', 2)
    rep.rule('no-error', 'no malformed, forged or undecodable cookie or '
             'signature leaves the session handlers as an exception', 3)
    rep.rule('fresh', 'a session taken from its cookie is within its age '
             'limit, comes with the test cookie and is established', 2)
    rep.rule('verify', 'check_signature only returns a message whose keyed '
             'hash with the salt equals the hash in the signature, and the '
             'message asked for', 1)
    rep.rule('failure', 'every failure to verify or to parse is reported '
             'as ValueError', 2)
    rep.rule('keyed', 'signatures hold the keyed hash of a random salt and '
             'the message', 3)
    sclasses = family(repo, 'wsgi.CookieSession')
    apps = family(repo, 'wsgi.SessionApp')
    chk = Session(rep, repo, sclasses)
    n = 0
    for f in scope(repo, chk, apps):
        text = {x.attr for x in walk_own(f.node)
                if isinstance(x, ast.Attribute)} | {
            x.id for x in walk_own(f.node) if isinstance(x, ast.Name)}
        if not text & {'session', 'SessionClass', 'check_signature',
                       '_session_cookie', 'sid'} and \
                not any(c.name in text for c in sclasses):
            if f.name not in ENTRY:
                continue
        if f.cls in sclasses:
            continue
        n += 1
        run_func(repo, chk, f)
    rep.require(n >= 5, "session handlers not found")
    chk.flush()
    ciphers = family(repo, 'wsgi.AppCipher')
    for c in ciphers:
        for name in ('check_signature', 'sign', 'ascii_sign'):
            f = c.methods.get(name)
            if f is None:
                if c.name == 'AppCipher':
                    raise AnalysisError("AppCipher.%s not found" % name)
                continue
            if name == 'check_signature':
                g = repo.find_method(c, '_get_cipher')
                thrown = explicit_raises(repo, rep, g) if g else set()
                v = Verify(rep, repo, thrown)
            else:
                v = Sign(rep)
            run_func(repo, v, f)
            v.flush()
    for name in ('PlainTextCipher', 'AESCipher'):
        c = repo.cls('wsgi.' + name)
        f = repo.find_method(c, 'hash')
        if f is None:
            rep.bad('keyed', 'wsgi.%s' % name, "the cipher has no hash, so "
                    "nothing can be signed with it", c.module.rel)
            continue
        v = Sign(rep)
        run_func(repo, v, f)
        v.flush()
    for c in sclasses:
        f = c.methods.get('__init__')
        if f is not None:
            v = Construct(rep)
            run_func(repo, v, f)
            v.flush()
    rep.stats['handlers'] = n
