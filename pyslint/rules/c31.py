"""C31: stored secrets are only written encrypted under a live key"""

import ast
import os
import re
from xml.etree import ElementTree

from .. import lockset
from ..guards import (EventCheck, LOGS, exc_of, family, flows, has, is_attr,
                      is_call, parts, strip, unver)
from ..interp import NONE, T, is_const
from ..repo import AnalysisError, Class, Ext, Func, walk_own
from ..rulebase import helpers_only, run_func, where_of

CIPHER = 'pyslet.wsgi.AppCipher'
P = 'wsgi.AppCipher.'
SECRET = ('Secret', 'KeyString')


class CipherSpec(lockset.Spec):

    modules = ('pyslet.wsgi',)
    fields = {'ciphers': 'w', 'old_num': 'rw', 'old_key': 'rw',
              'old_expires': 'rw', 'key_num': 'rw', 'key': 'rw'}
    nested = ()
    lock_names = ('lock',)
    contextual = (P + '_get_current_cipher',)
    exempt = (P + '__init__',)
    groups = ()
    live_ok = ()
    # a cipher for a key is computed from the key alone
    split_ok = {(P + '_get_cipher', 'ciphers'): 'equal ciphers'}

    def lock(self, it, t, fr):
        return t.op == 'attr' and t.args[1] == 'lock'

    def guarded(self, it, base, attr, fr):
        c = it.typeof(base, fr)
        return isinstance(c, Class) and it.repo.is_subclass(c, CIPHER)

    def static(self, repo, f, n):
        return f.cls is not None and repo.is_subclass(f.cls, CIPHER)

    def enabling(self, it, st, kind, base, attr, value, node, fr):
        return ()

    def settles(self, it, st, ci):
        return ()


def clear(t):
    """t is key material or a consumer secret in clear"""
    return (t.op == 'param' and t.args[0] in (
        'secret', 'key', 'new_secret', 'old_key')) or is_attr(
            t, 'key', 'old_key', 'secret', 'dummy_secret') or is_call(
                t, 'generate_key', 'decrypt')


def closed(t):
    """what is below t is not readable from t"""
    return is_call(t, 'encrypt', 'hash', 'new_cipher', 'sha256',
                   'digest', 'hexdigest') or (
        t.op == 'cmp') or is_call(t, 'key') and t.args[2] is not None


class Stored(EventCheck):

    def __init__(self, rep, repo):
        EventCheck.__init__(self, rep)
        self.repo = repo

    def call(self, it, st, ci):
        f = self.func.short
        if ci.name == 'set_from_value' and ci.recv is not None and ci.args:
            r = unver(ci.recv)
            if r.op == 'sub' and r.args[1].op == 'const' and \
                    r.args[1].args[0] in SECRET:
                v = ci.args[0]
                n = "%s:%s" % (f, r.args[1].args[0])
                enc = has(v, lambda x: is_call(x, 'encrypt'))
                leak = flows(v, clear, closed)
                self.note('stored', n, v is NONE or (
                    enc and leak is None), "a secret is stored without "
                    "being encrypted", ci.where, st.trace)
                if ci.recv.args[1].args[0] == 'Secret' and enc:
                    # not with a bare key cipher: the number goes with it
                    ok = has(v, lambda x: is_call(x, 'encrypt') and
                             x.args[2] is not None and
                             not is_call(x.args[2], 'new_cipher') and
                             x.args[2].op != 'sub')
                    self.note('stored', n + ':cipher', ok, "a secret is "
                              "stored without the number of its key",
                              ci.where)
        if ci.name in LOGS:
            bad = None
            for a in list(ci.args) + list(ci.kw.values()):
                bad = bad or flows(a, self.logged, closed)
            self.note('logged', f, bad is None, "a key or secret is "
                      "written to the log", ci.where)
        return None

    def logged(self, t):
        return is_attr(t, 'secret', 'old_key') or is_call(t, 'decrypt') or (
            t.op == 'param' and t.args[0] == 'secret') or (
            (is_attr(t, 'key') and t.args[0].op == 'param' and
             t.args[0].args[0] == 'self' or
             t.op == 'param' and t.args[0] == 'key') and
            self.func.cls is not None and
            self.repo.is_subclass(self.func.cls, CIPHER))


class Change(EventCheck):

    """change_key"""

    def old(self, n):
        return T('attr', T('param', self.func.params()[0]), n)

    def p(self, i):
        return T('param', self.func.params()[i])

    def after_call(self, it, st, ci, term):
        r = unver(ci.recv) if ci.recv is not None else None
        f = self.func.short
        if ci.name == 'set_key' and r is not None and ci.args:
            return self.put(st, ('field', r, 'KeyNum', ci.args[0]))
        if ci.name == 'set_from_value' and r is not None and ci.args and \
                r.op == 'sub' and r.args[1].op == 'const':
            return self.put(st, ('field', unver(r.args[0]),
                                 r.args[1].args[0], ci.args[0]))
        if ci.name == 'insert_entity' and ci.args:
            return self.put(st, ('did', unver(ci.args[0])))
        return st

    def call(self, it, st, ci):
        if ci.name == 'insert_entity' and ci.args:
            e = unver(ci.args[0])
            d = {}
            for ev in self.events(st, 'field'):
                if ev[1] is e:
                    d.setdefault(ev[2], []).append(ev[3])
            f = self.func.short
            w = ci.where
            num, key = self.old('key_num'), self.old('key')
            self.note('change', f + ':KeyNum', d.get('KeyNum') == [num],
                      "the replaced key is not recorded under its own "
                      "number", w, st.trace)
            v = d.get('KeyString', [None])[-1]
            ok = False
            if v is not None:
                enc = [x for x in v.subterms() if is_call(x, 'encrypt')]
                ok = len(enc) == 1 and enc[0].args[3] and \
                    enc[0].args[3][0] is key and self.cipher_of(
                        enc[0].args[2], self.p(2)) and \
                    self.numbered(v, self.p(1))
            self.note('change', f + ':KeyString', bool(ok), "what is "
                      "recorded is not the replaced key, encrypted with "
                      "the new key and marked with the new number", w,
                      st.trace)
            v = d.get('Expires', [None])[-1]
            ok = v is not None and has(v, lambda x: x is self.p(3)) and (
                is_call(v, 'get_unixtime', 'shift_zone'))
            self.note('change', f + ':Expires', ok, "the recorded expiry "
                      "is not the UTC time at which the new key takes "
                      "over", w, st.trace)
            self.throw(it, st, ci, Ext('pyslet.odata2.csdl.ConstraintError')
                       if self.cerr is None else self.cerr)
        return None

    cerr = None

    def cipher_of(self, t, key):
        return t is not None and is_call(t, 'new_cipher') and \
            t.args[3] and t.args[3][0] is key

    def numbered(self, v, num):
        """v starts with the number num"""
        p = strip(v)
        if p.op == 'bin' and p.args[0] == 'Mod' and p.args[2].op == 'tuple':
            items = p.args[2].args[0]
            return bool(items) and items[0] is num
        if p.op == 'fmt':
            return has(p, lambda x: x is num)
        return has(p, lambda x: x is num)

    def func_exit(self, it, st, func, kind, payload, fr):
        f = func.short
        w = "%s:%s" % (func.module.rel, func.node.lineno)
        me = self.p(0)
        if kind == 'raise':
            return
        did = bool(self.events(st, 'did'))
        if not did:
            # ConstraintError: there has to be a record under that number
            num = self.old('key_num')
            did = ('looked',) in st.auto or any(
                v.op == 'sub' and v.args[1] is num
                for v in st.env.values() if isinstance(v, T))
        self.note('change', f + ':recorded', did, "the key is changed "
                  "without the old one being recorded", w, st.trace)
        want = {'key_num': lambda v: v is self.p(1),
                'key': lambda v: v is self.p(2),
                'old_num': lambda v: v is self.old('key_num'),
                'old_key': lambda v: v is self.old('key'),
                'old_expires': lambda v: is_call(v, 'get_unixtime') and
                v.args[2] is self.p(3)}
        for n, ok in want.items():
            v = st.heap.get((me, n))
            self.note('change', "%s:%s" % (f, n), v is not None and ok(v),
                      "a key change leaves the wrong %s" % n, w, st.trace)
        self.note('change', f + ':cipher', ('cipher',) in st.auto,
                  "a key change leaves no cipher for the new number", w,
                  st.trace)

    def sub_store(self, it, st, base, idx, value, node, fr):
        if is_attr(unver(base), 'ciphers') and idx is self.p(1) and \
                self.cipher_of(value, self.p(2)):
            st = self.put(st, ('cipher',))
        return st

    def stmt(self, it, st, node, fr):
        # keys[num] for its KeyError, or a test of num in keys
        if isinstance(node, ast.Expr) and isinstance(
                node.value, ast.Subscript) or isinstance(
                    node, ast.If) and isinstance(
                        node.test, ast.Compare) and isinstance(
                            node.test.ops[0], (ast.In, ast.NotIn)):
            st = self.put(st, ('looked',))
        return st


class Current(EventCheck):

    """_get_current_cipher: which key encrypts now"""

    def expired(self, st, me):
        """True or False when the old key is known to be past its time,
        or to be there at all"""
        exp = T('attr', me, 'old_expires')
        out = None
        for t, p in st.facts.items():
            if t is exp and p is False:
                return True
            if t.op == 'cmp' and t.args[0] == 'is' and t.args[1] is exp \
                    and t.args[2] is NONE and p is True:
                return True
            if t.op == 'cmp' and t.args[0] == '<':
                a, b = t.args[1], t.args[2]
                if a is exp and is_call(b, 'time'):
                    out = p            # old_expires < now
                if b is exp and is_call(a, 'time'):
                    out = not p        # now < old_expires
        return out

    def func_exit(self, it, st, func, kind, payload, fr):
        if kind == 'raise' or payload is None:
            return
        f = func.short
        w = "%s:%s" % (func.module.rel, func.node.lineno)
        me = T('param', func.params()[0])
        ok = payload.op == 'tuple' and len(payload.args[0]) == 2
        which = None
        if ok:
            n, c = payload.args[0]
            c = unver(c)
            ok = False
            if is_attr(n, 'old_num', 'key_num') and n.args[0] is me:
                which = n.args[1]
                ok = (c.op == 'sub' and c.args[1] is n and
                      is_attr(unver(c.args[0]), 'ciphers')) or (
                    is_call(c, 'get') and c.args[3] and
                    c.args[3][0] is n and is_attr(
                        unver(c.args[2]), 'ciphers'))
        self.note('current', f + ':pair', ok, "the number returned does "
                  "not belong to the cipher returned", w, st.trace)
        exp = self.expired(st, me)
        if which == 'old_num':
            self.note('current', f + ':old', exp is False, "an old key "
                      "that has expired is used for new data", w, st.trace)
        elif which == 'key_num':
            self.note('current', f + ':new', exp is True, "a new key is "
                      "used before it comes into effect", w, st.trace)

    def attr_store(self, it, st, base, attr, value, node, fr):
        if attr in ('old_num', 'old_key', 'old_expires'):
            me = T('param', self.func.params()[0])
            if base is me:
                self.note('current', "%s:%s" % (self.func.short, attr),
                          value is NONE and (
                              self.expired(st, me) is True or
                              ('exp',) in st.auto), "the old key is "
                          "changed although it has not expired",
                          where_of(fr, node), st.trace)
                st = self.put(st, ('exp',))
        return st


class Init(EventCheck):

    """AppCipher.__init__ with a key that is not in effect yet"""

    def after_call(self, it, st, ci, term):
        if ci.name == 'set_from_value' and ci.recv is not None and \
                ci.args and is_call(ci.args[0], 'time'):
            st = self.put(st, ('now', ci.recv))
        if ci.name == 'set_filter' and ci.args and ci.recv is not None:
            a = ci.args[0]
            ok = False
            if is_call(a, 'from_str') and len(a.args[3]) > 1 and \
                    a.args[3][0].op == 'const' and \
                    a.args[3][1].op == 'dict':
                w = str(a.args[3][0].args[0]).split()
                ps = dict(zip(a.args[3][1].args[0], a.args[3][1].args[1]))
                ok = len(w) == 3 and w[0] == 'Expires' and w[1] in (
                    'ge', 'gt') and any(
                        is_const(k, w[2].lstrip(':')) and
                        ('now', v) in st.auto for k, v in ps.items())
            self.note('init', self.func.short + ':filter', ok, "keys that "
                      "have expired are not left out", ci.where, st.trace)
            if ok:
                st = self.put(st, ('filtered', unver(ci.recv)))
        return st

    def record(self, t):
        """the record a value was taken from"""
        if is_attr(t, 'value'):
            t = t.args[0]
        if t.op == 'sub' and t.args[1].op == 'const' and isinstance(
                t.args[1].args[0], str):
            return unver(t.args[0]), t.args[1].args[0]
        return None, None

    def sub_store(self, it, st, base, idx, value, node, fr):
        me = T('param', self.func.params()[0])
        own = st.heap.get((me, 'ciphers'))
        if is_attr(unver(base), 'ciphers') or (
                own is not None and unver(base) is unver(own)):
            st = self.put(st, ('cipher', idx, value))
        return st

    def func_exit(self, it, st, func, kind, payload, fr):
        if kind == 'raise':
            return
        ps = func.params()
        me = T('param', ps[0])
        w = "%s:%s" % (func.module.rel, func.node.lineno)
        g = {n: st.heap.get((me, n)) for n in (
            'old_num', 'old_key', 'old_expires', 'key_num', 'key')}
        when = T('param', ps[4])
        n = func.short
        for a, i in (('key_num', 1), ('key', 2)):
            self.note('init', n + ':' + a, g[a] is T('param', ps[i]),
                      "%s is not the one passed" % a, w, st.trace)
        given = st.facts.get(when)
        if given is None:
            given = st.facts.get(T('cmp', 'is', when, NONE))
            given = None if given is None else not given
        if given is False or (given is None and g['old_expires'] is NONE):
            self.note('init', n + ':none', g['old_expires'] is NONE and
                      given is False, "a key that takes over later is used "
                      "at once", w, st.trace)
            return
        k = g['old_key']
        ok = False
        if k is not None and is_call(k, 'decrypt') and k.args[3]:
            r, name = self.record(k.args[3][0])
            r2, name2 = self.record(g['old_num'] or NONE)
            ok = name == 'KeyString' and name2 == 'KeyNum' and r is r2 \
                and is_attr(k.args[3][0], 'value') and any(
                    has(r, lambda x: x is e[1])
                    for e in self.events(st, 'filtered'))
        self.note('init', n + ':old', ok, "the old key and number are not "
                  "those of one record that has not expired", w, st.trace)
        e = g['old_expires']
        self.note('init', n + ':expires', e is not None and is_call(
            e, 'get_unixtime') and e.args[2] is when, "the old key is not "
            "used until the new one takes over", w, st.trace)
        ok = any(e[1] is g['old_num'] and is_call(e[2], 'new_cipher') and
                 e[2].args[3] == (k,) for e in self.events(st, 'cipher'))
        self.note('init', n + ':cipher', ok, "there is no cipher for the "
                  "old key under its number", w, st.trace)


class Use(EventCheck):

    """encrypt and sign"""

    def pair(self, num, c):
        """num is the number of the key of cipher c"""
        c = unver(c)
        if num.op == 'sub' and c.op == 'sub' and \
                num.args[0] is c.args[0] and \
                is_call(num.args[0], '_get_current_cipher') and \
                is_const(num.args[1], 0) and is_const(c.args[1], 1):
            return True
        return False

    def func_exit(self, it, st, func, kind, payload, fr):
        if kind == 'raise' or payload is None:
            return
        f = func.short
        w = "%s:%s" % (func.module.rel, func.node.lineno)
        ops = [x for x in payload.subterms() if x.op == 'call' and
               x.args[0] in ('encrypt', 'hash') and x.args[2] is not None]
        data = T('param', func.params()[1])
        if not ops:
            self.note('use', f, False, "the result is not made by the "
                      "cipher", w, st.trace)
            return
        nums = [x for x in parts(payload) if x.op == 'sub' and
                is_call(x.args[0], '_get_current_cipher') and
                is_const(x.args[1], 0)]
        ok = len(ops) == 1 and any(self.pair(n, ops[0].args[2])
                                   for n in nums)
        self.note('use', f + ':key', ok, "the key number written is not "
                  "the number of the key used, which is not the current "
                  "one", w, st.trace)
        leak = flows(payload, lambda x: x is data, closed)
        self.note('use', f + ':clear', leak is None, "the data is part of "
                  "the result in clear", w, st.trace)
        arg = ops[0].args[3][0] if ops[0].args[3] else None
        if ops[0].args[0] == 'encrypt':
            self.note('use', f + ':data', arg is data, "something other "
                      "than the data is encrypted", w, st.trace)
        else:
            salts = [x for x in parts(arg) if is_call(x, 'urandom')] \
                if arg is not None else []
            ok = len(salts) == 1 and data in parts(arg) and any(
                has(x, lambda y: y is salts[0]) for x in parts(payload)
                if not has(x, lambda y: is_call(y, 'hash')))
            self.note('use', f + ':salt', ok, "the hash is not of a fresh "
                      "salt, which is part of the signature, and the "
                      "message", w, st.trace)
            if salts:
                n = salts[0].args[3][0] if salts[0].args[3] else None
                self.note('use', f + ':saltlen', n is not None and
                          n.op == 'const' and isinstance(
                              n.args[0], int) and n.args[0] >= 4,
                          "the salt is too short", w)


class Lookup(EventCheck):

    """_get_cipher only learns keys from the records of the key set, and
    returns nothing but the cipher asked for

    (n, d, k) stands for: d is key k encrypted with key n"""

    def split(self, t, i):
        """the E of _split_data(E['KeyString'].value)[i]"""
        t = unver(t)
        if t.op == 'sub' and is_const(t.args[1], i) and is_call(
                t.args[0], '_split_data') and t.args[0].args[3]:
            v = t.args[0].args[3][0]
            if is_attr(v, 'value'):
                v = v.args[0]
                if v.op == 'sub' and is_const(v.args[1], 'KeyString'):
                    return unver(v.args[0])
        return None

    def item(self, t):
        """(P, i) when t is item i of a tuple taken from a list"""
        t = unver(t)
        if t.op == 'sub' and t.args[1].op == 'const' and isinstance(
                t.args[1].args[0], int):
            p = unver(t.args[0])
            if is_call(p, 'pop', 'popleft') or p.op in ('elem', 'elemof'):
                return p, t.args[1].args[0]
        return None

    def enc(self, n, d, k):
        e = self.split(n, 0)
        if e is not None and self.split(d, 1) is e:
            return e.op == 'sub' and e.args[1] is k
        a, b, c = self.item(n), self.item(d), self.item(k)
        if a and b and c and a[0] is b[0] is c[0]:
            return (a[1], b[1], c[1]) == (0, 1, 2)
        return False

    def cipher_num(self, c):
        c = unver(c)
        if is_call(c, 'get') and is_attr(unver(c.args[2]), 'ciphers') and \
                c.args[3] and (len(c.args[3]) < 2 or c.args[3][1] is NONE):
            return c.args[3][0]
        if is_call(c, '_get_cipher') and c.args[3]:
            return c.args[3][0]
        if c.op == 'sub' and is_attr(unver(c.args[0]), 'ciphers'):
            return c.args[1]
        return None

    def call(self, it, st, ci):
        if ci.name in ('append', 'appendleft', 'insert', 'push') and \
                ci.args and ci.args[-1].op == 'tuple':
            items = ci.args[-1].args[0]
            ok = len(items) == 3 and (
                self.enc(*items) or items[1] is NONE)
            self.note('lookup', self.func.short + ':queue', ok, "a key is "
                      "queued with data that is not that key encrypted "
                      "with the named one", ci.where, st.trace)
        return None

    def sub_store(self, it, st, base, idx, value, node, fr):
        if is_attr(unver(base), 'ciphers'):
            ok = False
            if is_call(value, 'new_cipher') and value.args[3]:
                d = value.args[3][0]
                if is_call(d, 'decrypt') and d.args[2] is not None and \
                        d.args[3]:
                    n = self.cipher_num(d.args[2])
                    ok = n is not None and self.enc(n, d.args[3][0], idx)
            self.note('lookup', self.func.short + ':learn', ok, "a cipher "
                      "is stored for a number that is not the one its key "
                      "was recorded under", where_of(fr, node), st.trace)
        return st

    def func_exit(self, it, st, func, kind, payload, fr):
        f = func.short
        w = "%s:%s" % (func.module.rel, func.node.lineno)
        num = T('param', func.params()[1])
        if kind == 'raise':
            return
        if payload is None:
            payload = NONE
        if payload is NONE:
            return
        n = self.cipher_num(payload)
        ok = False
        if n is not None:
            ok = n is num
            it_ = self.item(n)
            if it_ is not None and it_[1] == 0:
                # the entry nothing waits for is the one asked for
                p = it_[0]
                for t, v in st.facts.items():
                    j = self.item(t)
                    if j is not None and j[0] is p and j[1] == 1 and \
                            v is False:
                        ok = True
                    if t.op == 'cmp' and t.args[0] == 'is' and \
                            t.args[2] is NONE and v is True:
                        j = self.item(t.args[1])
                        if j is not None and j[0] is p and j[1] == 1:
                            ok = True
        self.note('lookup', f + ':return', ok, "the cipher returned need "
                  "not be the one of the number asked for", w, st.trace)

    def relevant(self, t):
        return self.item(t) is not None or (
            t.op == 'cmp' and t.args[0] == 'is')


class Decrypt(EventCheck):

    def func_exit(self, it, st, func, kind, payload, fr):
        if kind == 'raise' or payload is None:
            return
        w = "%s:%s" % (func.module.rel, func.node.lineno)
        data = T('param', func.params()[1])
        ok = False
        if is_call(payload, 'decrypt') and payload.args[2] is not None and \
                payload.args[3]:
            d, c = unver(payload.args[3][0]), payload.args[2]
            if is_call(c, '_get_cipher') and c.args[3]:
                n = unver(c.args[3][0])
                ok = n.op == 'sub' and d.op == 'sub' and \
                    n.args[0] is d.args[0] and is_const(
                        n.args[1], 0) and is_const(d.args[1], 1) and \
                    is_call(n.args[0], '_split_data') and \
                    n.args[0].args[3] == (data,)
        self.note('use', func.short + ':key', ok, "data is decrypted with "
                  "another key than the one it is marked with", w, st.trace)


def fresh_iv(t):
    """t is drawn from the random source during this call"""
    t = strip(t, ())
    if is_call(t, 'urandom', 'get_random_bytes', 'token_bytes'):
        return True
    if is_call(t, 'read') and t.args[2] is not None:
        r = t.args[2]
        return r.op in ('call', 'new') and 'Random' in str(
            r.args[1] if r.op == 'call' else r.args[0])
    return False


class Block(EventCheck):

    """encrypt and decrypt of a cipher with an initialisation vector"""

    def __init__(self, rep):
        EventCheck.__init__(self, rep)
        self.mode = {}

    def func_exit(self, it, st, func, kind, payload, fr):
        if kind == 'raise' or payload is None:
            return
        w = "%s:%s" % (func.module.rel, func.node.lineno)
        f = func.short
        data = T('param', func.params()[1])
        me = T('param', func.params()[0])
        ops = [x for x in payload.subterms() if x.op == 'call' and
               x.args[0] == func.name and x.args[2] is not None and
               x.args[2].op in ('call', 'new')]
        if len(ops) != 1:
            self.note('iv', f, False, "no single use of the block cipher",
                      w, st.trace)
            return
        c = ops[0].args[2]
        args = c.args[3] if c.op == 'call' else c.args[1]
        self.note('iv', f + ':key', bool(args) and args[0] is T(
            'attr', me, 'key'), "another key is used", w, st.trace)
        if len(args) < 3:
            self.note('iv', f + ':vector', False,
                      "no initialisation vector", w, st.trace)
            return
        self.mode[func.name] = (args[1], w)
        iv = args[2]
        if func.name == 'encrypt':
            self.note('iv', f + ':vector', fresh_iv(iv), "the "
                      "initialisation vector is not fresh", w, st.trace)
            ok = payload.op == 'bin' and payload.args[0] == 'Add' and \
                payload.args[1] is iv and payload.args[2] is ops[0] and \
                ops[0].args[3] == (data,)
            self.note('iv', f + ':result', ok, "the result is not the "
                      "vector followed by the encrypted data", w, st.trace)
        else:
            self.note('iv', f + ':vector', has(iv, lambda x: x is data) and
                      iv.op == 'sub', "the vector is not taken from the "
                      "data", w, st.trace)
            a = ops[0].args[3][0] if ops[0].args[3] else None
            self.note('iv', f + ':result', a is not None and
                      a.op == 'sub' and a.args[0] is data and
                      payload is ops[0], "the data after the vector is "
                      "not what is decrypted", w, st.trace)


class Owners(EventCheck):

    """AppCipher objects are made from binary keys"""

    def call(self, it, st, ci):
        for c in ci.targets or ():
            pass
        if ci.name in ('AppCipher', 'AESAppCipher') and len(ci.args) > 1:
            k = ci.args[1]
            self.note('binary', self.func.short, not (
                k.op == 'const' and isinstance(k.args[0], str)),
                "a cipher is made from a character string key", ci.where)
        return None


def mentions(f, names):
    for x in walk_own(f.node):
        if isinstance(x, ast.Constant) and x.value in names or \
                isinstance(x, ast.Attribute) and x.attr in names or \
                isinstance(x, ast.Name) and x.id in names:
            return True
    return False


def schema(repo, rep):
    """The properties of a key record exist where keys are kept"""
    used = {}
    for c in family(repo, 'wsgi.AppCipher'):
        for f in c.methods.values():
            for n in walk_own(f.node):
                if isinstance(n, ast.Subscript) and isinstance(
                        n.slice, ast.Constant) and isinstance(
                            n.slice.value, str):
                    used.setdefault(n.slice.value, "%s:%s" % (
                        f.module.rel, n.lineno))
                elif isinstance(n, ast.Call) and getattr(
                        n.func, 'attr', '') == 'from_str' and n.args and \
                        isinstance(n.args[0], ast.Constant):
                    m = re.match(r'(\w+) (eq|ne|lt|le|gt|ge) :',
                                 str(n.args[0].value))
                    if m:
                        used.setdefault(m.group(1), "%s:%s" % (
                            f.module.rel, n.lineno))
    base = os.path.join(repo.root, 'pyslet')
    found = 0
    for name in sorted(os.listdir(base)):
        if not name.endswith('_metadata.xml'):
            continue
        root = ElementTree.parse(os.path.join(base, name)).getroot()
        types, keys = {}, None
        for e in root.iter():
            tag = e.tag.split('}')[-1]
            if tag == 'EntityType':
                types[e.get('Name')] = {
                    x.get('Name') for x in e
                    if x.tag.split('}')[-1] == 'Property'}
            elif tag == 'EntitySet' and e.get('Name') == 'AppKeys':
                keys = e.get('EntityType').split('.')[-1]
        if keys is None:
            continue
        found += 1
        for n, w in sorted(used.items()):
            rep.check(n in types.get(keys, ()), 'schema',
                      "%s:%s" % (name, n), "%s, used by AppCipher at "
                      "%s, is not a property of %s in %s" % (
                          n, w, keys, name), "pyslet/%s:1" % name)
    if not found:
        raise AnalysisError("no metadata with AppKeys found")


def run(repo, rep):
    rep.rule('schema', 'the properties of a key record exist in every '
             'bundled data model that has application keys', 3)
    rep.part(schema, repo, rep)
    rep.rule('stored', 'what is stored as a Secret or KeyString is '
             'encrypted and holds nothing in clear', 3)
    rep.rule('logged', 'no key or secret is written to a log')
    rep.rule('change', 'a key change records the old key under its own '
             'number, encrypted with the new key, until the time the new '
             'one takes over, and then knows both', 6)
    rep.rule('init', 'a cipher whose key takes over later first uses the '
             'recorded key that has not expired', 4)
    rep.rule('current', 'the old key is used exactly until it expires, '
             'each key with its own number', 3)
    rep.rule('use', 'encrypt, sign and decrypt use one key and its own '
             'number', 4)
    rep.rule('lookup', 'keys are only learnt from the records, and only '
             'the cipher asked for is returned', 2)
    rep.rule('iv', 'every encryption has a fresh initialisation vector',
             4)
    rep.rule('binary', 'application ciphers are made from binary keys')
    rep.stats['secret names'] = list(SECRET)
    st = Stored(rep, repo)
    ow = Owners(rep)
    for f in sorted(repo.funcs.values(), key=lambda f: f.qual):
        if isinstance(f.node, ast.Lambda) or f.outer is not None:
            continue
        if f.module.name in ('pyslet.wsgi', 'pyslet.imsbltiv1p0') or \
                mentions(f, SECRET):
            if mentions(f, ('AppCipher', 'AESAppCipher')):
                run_func(repo, ow, f)
            if helpers_only(repo, st, f):
                continue
            if mentions(f, SECRET) or (
                    mentions(f, LOGS) and mentions(f, (
                        'secret', 'key', 'old_key', 'decrypt'))):
                run_func(repo, st, f)
    st.flush()
    ow.flush()
    cerr = repo.cls('odata2.csdl.ConstraintError')
    for c in family(repo, 'wsgi.AppCipher'):
        top = c.short == 'wsgi.AppCipher'
        for n, k in (('__init__', Init), ('change_key', Change), ('_get_current_cipher',
                                              Current),
                     ('encrypt', Use), ('sign', Use), ('decrypt', Decrypt),
                     ('_get_cipher', Lookup)):
            f = c.methods.get(n)
            if f is None:
                if top:
                    raise AnalysisError("AppCipher.%s not found" % n)
                continue
            chk = k(rep)
            chk.cerr = cerr
            run_func(repo, chk, f)
            chk.flush()
    c = repo.cls('wsgi.AESCipher')
    if c is None:
        raise AnalysisError("AESCipher not found")
    b = Block(rep)
    for n in ('encrypt', 'decrypt'):
        f = c.methods.get(n)
        if f is None:
            raise AnalysisError("AESCipher.%s not found" % n)
        run_func(repo, b, f)
    if len(b.mode) == 2:
        (m, w), (d, _) = b.mode['encrypt'], b.mode['decrypt']
        b.note('iv', 'wsgi.AESCipher:mode', m is d, "data is decrypted in "
               "another mode than it was encrypted in", w)
    b.flush()
    rep.rule('held', 'the keys and ciphers are only changed, and the '
             'current key only chosen, under the lock', 8)
    lockset.analyse(repo, rep, CipherSpec(), {
        'held': 'held', 'atomic': 'held', 'live': 'held'})
