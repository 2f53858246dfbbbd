"""C29: every name, attribute and call in the library resolves"""

import ast
import re

from ..repo import BUILTINS, Class, Const, Ext, Func, ModRef, walk_own
from ..resolve import (Members, Walker, count_format, enclosing,
                       ext_module_has, local_names, resolve, vocabulary)
from .. import defassign

TEMPLATE = re.compile(r'%[0-9.]*[sridfx]')

SKIP_MODULES = {'pyslet.py2', 'pyslet.py26'}


def owner(m, sc):
    f, c = enclosing(sc)
    if f is not None:
        return f.short
    if c is not None:
        return c.short
    return m.name.replace('pyslet.', '', 1)


def guarded_import(parents):
    """In a try block that handles missing names or attributes"""
    for i, p in enumerate(parents):
        if isinstance(p, ast.Try):
            nxt = parents[i + 1] if i + 1 < len(parents) else None
            if nxt is not None and nxt not in p.body:
                continue
            for h in p.handlers:
                names = []
                if h.type is None:
                    return True
                for t in (h.type.elts if isinstance(h.type, ast.Tuple)
                          else [h.type]):
                    names.append(getattr(t, 'id', getattr(t, 'attr', '')))
                if set(names) & {'AttributeError', 'NameError',
                                 'ImportError'}:
                    return True
    return False


def hasattr_guard(node, parents):
    key = None
    if isinstance(node, ast.Attribute):
        key = node.attr
    for p in parents:
        if isinstance(p, (ast.If, ast.IfExp, ast.BoolOp)):
            t = p if isinstance(p, ast.BoolOp) else p.test
            for n in ast.walk(t):
                if isinstance(n, ast.Call) and isinstance(
                        n.func, ast.Name) and n.func.id == 'hasattr' and \
                        len(n.args) == 2 and isinstance(
                        n.args[1], ast.Constant) and \
                        n.args[1].value == key:
                    return True
    return False


def sig(f, bound):
    """(min, max, names, kwargs?) of a Func's parameters"""
    a = f.node.args
    ps = [x.arg for x in a.posonlyargs + a.args]
    nd = len(a.defaults)
    req = ps[:len(ps) - nd]
    if bound:
        if ps:
            ps = ps[1:]
        req = req[1:]
    mx = None if a.vararg else len(ps)
    kwreq = [x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults)
             if d is None]
    names = set(ps) | {x.arg for x in a.kwonlyargs}
    return req, mx, ps, names, a.kwarg is not None, kwreq


def arity_error(call, f, bound):
    if any(isinstance(a, ast.Starred) for a in call.args) or any(
            k.arg is None for k in call.keywords):
        return None
    if getattr(f.node, 'decorator_list', None):
        for d in f.node.decorator_list:
            nm = d.func if isinstance(d, ast.Call) else d
            nm = getattr(nm, 'id', getattr(nm, 'attr', ''))
            if nm not in ('old_method', 'old_function', 'staticmethod',
                          'classmethod', 'redirected_method'):
                return None
    req, mx, ps, names, kwargs, kwreq = sig(f, bound)
    n = len(call.args)
    if mx is not None and n > mx:
        return "takes at most %i arguments, %i given" % (mx, n)
    given = set(ps[:n])
    for k in call.keywords:
        if k.arg not in names and not kwargs:
            return "has no parameter %s" % k.arg
        if k.arg in given:
            return "parameter %s given twice" % k.arg
        given.add(k.arg)
    missing = [r for r in req if r not in given] + \
        [r for r in kwreq if r not in given]
    if missing:
        return "missing argument %s" % ', '.join(missing)
    return None


def local_class(repo, m, e, sc):
    """Class of a local variable assigned exactly once from C(...)"""
    if not isinstance(e, ast.Name):
        return None
    for s in local_names(sc):
        if e.id in s.names:
            if s.kind != 'func' or s.func is None:
                return None
            f = s.func
            if e.id in f.params():
                return None
            vals = []
            for n in walk_own(f.node):
                if isinstance(n, ast.Name) and n.id == e.id and \
                        isinstance(n.ctx, (ast.Store, ast.Del)):
                    vals.append(n)
                elif isinstance(n, ast.ExceptHandler) and n.name == e.id:
                    vals.append(n)
            if len(vals) != 1:
                return None
            for n in walk_own(f.node):
                v = None
                if isinstance(n, ast.Assign) and len(n.targets) == 1 and \
                        n.targets[0] is vals[0]:
                    v = n.value
                elif isinstance(n, ast.withitem) and \
                        n.optional_vars is vals[0]:
                    v = n.context_expr
                    r = resolve(repo, m, v.func, sc) if isinstance(
                        v, ast.Call) else None
                    if not (isinstance(r, Class) and
                            repo.find_method(r, '__enter__')):
                        return None
                elif n is vals[0] and isinstance(n, ast.ExceptHandler):
                    r = resolve(repo, m, n.type, sc) if n.type is not \
                        None else None
                    return r if isinstance(r, Class) else None
                if isinstance(v, ast.Call):
                    r = resolve(repo, m, v.func, sc)
                    if isinstance(r, Class):
                        return r
            return None
    return None


class C29(object):

    def __init__(self, repo, rep):
        self.repo = repo
        self.rep = rep
        self.members = Members(repo)
        self.vocab = vocabulary(repo)
        self.probes = {}
        rep.rule('name', 'every name read is bound in an enclosing scope, '
                 'the module or builtins', 15000)
        rep.rule('module-attr', 'a member read from a module exists there',
                 1000)
        rep.rule('self-attr', 'an attribute read from self is defined by '
                 'the class, a base, or a subclass', 5000)
        rep.rule('class-attr', 'a member read from a class or an instance '
                 'of known class is defined there', 200)
        rep.rule('attr-vocab', 'an attribute read from any other object '
                 'is a name that something defines', 3000)
        rep.rule('call', 'the arguments of a call fit the parameters of '
                 'its resolved target', 3000)
        rep.rule('format', 'format strings get the right number of '
                 'arguments', 400)
        rep.rule('typo-store', 'an attribute stored on self is read '
                 'somewhere', 500)
        rep.rule('unbound', 'a local variable is assigned on every '
                 'feasible path to each read', 3000)
        rep.rule('effect', 'a comparison or attribute is not used as a '
                 'statement', 1)

    def run(self):
        for m in self.repo.modules.values():
            if m.name in SKIP_MODULES:
                continue
            self.m = m
            self.seen = {}
            Walker(self.repo, m, self.visit).run()
        self.typo_store()
        defassign.run(self.repo, self.rep, 'unbound', exceptions=ASSIGNED)

    def inst(self, sc, what):
        return "%s %s" % (owner(self.m, sc), what)

    def where(self, n):
        return "%s:%s" % (self.m.rel, n.lineno)

    def visit(self, n, sc, parents):
        f, c = enclosing(sc)
        if f is not None:
            self.rep.funcs.add(f.short)
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
            self.name(n, sc, parents)
        elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
            self.attr(n, sc, parents)
        elif isinstance(n, ast.Call):
            self.call(n, sc, parents)
        elif isinstance(n, ast.BinOp) and isinstance(n.op, ast.Mod):
            self.fmt(n, sc)
        elif isinstance(n, ast.ImportFrom):
            self.import_from(n, sc, parents)
        elif isinstance(n, ast.Expr):
            if isinstance(n.value, (ast.Compare, ast.BinOp, ast.Attribute,
                                    ast.Name, ast.BoolOp,
                                    ast.Subscript)):
                if parents and isinstance(parents[-1], ast.Try) and \
                        n in parents[-1].body:
                    # evaluated for the exception it raises
                    return
                if isinstance(n.value, ast.Compare):
                    self.rep.bad(
                        'effect', self.inst(sc, ast.unparse(n.value)),
                        "comparison used as a statement", self.where(n))
            else:
                self.rep.ok('effect', self.inst(sc, 'expr'))

    def import_from(self, n, sc, parents):
        src = self.repo._from_module(self.m, n)
        if src in self.repo.modules:
            for a in n.names:
                if a.name == '*':
                    continue
                r = self.repo.resolve_binding(('from', src, a.name))
                self.rep.check(
                    r is not None or guarded_import(parents), 'module-attr',
                    self.inst(sc, 'import %s.%s' % (src, a.name)),
                    "module %s has no member %s" % (src, a.name),
                    self.where(n))

    def name(self, n, sc, parents):
        for s in local_names(sc):
            if n.id in s.names:
                self.rep.ok('name', self.inst(sc, n.id))
                return
        r = n.id in BUILTINS or self.repo.lookup(self.m, n.id) is not None \
            or n.id in self.m.names or any(
                s not in self.repo.modules for s in self.m.star)
        if not r:
            # a global declared and stored in a function
            for f in ast.walk(self.m.tree):
                if isinstance(f, ast.Global) and n.id in f.names:
                    r = True
                    break
        if not r and guarded_import(parents):
            r = True
        self.rep.check(r, 'name', self.inst(sc, n.id),
                       "name %s is not defined" % n.id, self.where(n))

    def attr(self, n, sc, parents):
        if guarded_import(parents) or hasattr_guard(n, parents):
            return
        f, c = enclosing(sc)
        # super()
        if isinstance(n.value, ast.Call) and isinstance(
                n.value.func, ast.Name) and n.value.func.id == 'super':
            if c is not None:
                ok = n.attr in dir(object)
                cands = [c] + self.repo.subclasses.get(c.qual, [])
                for k in cands:
                    mro = self.repo.mro(k)
                    if c not in mro:
                        continue
                    for b in mro[mro.index(c) + 1:]:
                        if isinstance(b, Class):
                            if n.attr in b.methods or n.attr in b.attrs:
                                ok = True
                            if '__getattr__' in b.methods:
                                ok = True
                        else:
                            from ..resolve import ext_members
                            e = ext_members(b.name)
                            if e is None or n.attr in e:
                                if b.name not in (
                                        'builtins.object',
                                        'pyslet.pep8.MigratedClass'):
                                    ok = True
                self.rep.check(
                    ok, 'class-attr', self.inst(sc, 'super.' + n.attr),
                    "no base class of %s defines %s" % (c.name, n.attr),
                    self.where(n))
            return
        if isinstance(n.value, ast.Name) and f is not None:
            g = f
            while isinstance(g.outer, Func):
                g = g.outer
            if g.bound and g.params() and n.value.id == g.params()[0] and \
                    self.binds_self(n.value.id, sc, g):
                k = g.cls
                ok = self.members.has(k, n.attr)
                if not ok and g.classm and n.attr in dir(type):
                    ok = True
                self.rep.check(
                    ok, 'self-attr', self.inst(sc, 'self.' + n.attr),
                    "class %s has no attribute %s" % (k.name, n.attr),
                    self.where(n))
                return
        r = resolve(self.repo, self.m, n.value, sc)
        if r is not None and r.kind == 'module':
            ok = self.repo.lookup(r.module, n.attr) is not None or \
                n.attr in r.module.names or n.attr in (
                    '__name__', '__file__', '__path__', '__doc__',
                    '__dict__') or any(s not in self.repo.modules
                                       for s in r.module.star)
            self.rep.check(ok, 'module-attr', self.inst(
                sc, '%s.%s' % (r.qual, n.attr)),
                "module %s has no member %s" % (r.qual, n.attr),
                self.where(n))
            return
        if r is not None and r.kind == 'ext':
            if not r.name.startswith('builtins.'):
                h = ext_module_has(r.name, n.attr)
                if h is False and self.probed(n.attr):
                    h = True
                if h is not None:
                    self.rep.check(h, 'module-attr', self.inst(
                        sc, '%s.%s' % (r.name, n.attr)),
                        "module %s has no member %s" % (r.name, n.attr),
                        self.where(n))
                    return
        k = None
        if isinstance(r, Class):
            k = r
            if n.attr in dir(type):
                return
        else:
            k = local_class(self.repo, self.m, n.value, sc)
        if isinstance(k, Class):
            self.rep.check(
                self.members.has(k, n.attr, False) or
                self.outside_store(n, sc), 'class-attr',
                self.inst(sc, '%s.%s' % (k.name, n.attr)),
                "class %s has no attribute %s" % (k.name, n.attr),
                self.where(n))
            return
        ok = n.attr in self.vocab
        if not ok:
            ok = self.third_party(n, sc)
        self.rep.check(
            ok, 'attr-vocab', self.inst(sc, '.' + n.attr),
            "nothing defines an attribute %s" % n.attr, self.where(n))

    def probed(self, attr):
        """The module tests for this member with hasattr somewhere"""
        if self.m.name not in self.probes:
            self.probes[self.m.name] = {
                x.args[1].value for x in ast.walk(self.m.tree)
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Name)
                and x.func.id == 'hasattr' and len(x.args) == 2 and
                isinstance(x.args[1], ast.Constant)}
        return attr in self.probes[self.m.name]

    def third_party(self, n, sc):
        """The object comes from a module outside package and stdlib"""
        import sys
        e = n
        while isinstance(e, (ast.Attribute, ast.Call, ast.Subscript)):
            e = e.func if isinstance(e, ast.Call) else e.value
        r = resolve(self.repo, self.m, e, sc)
        if r is not None and r.kind == 'ext':
            top = r.name.split('.')[0]
            return top not in sys.stdlib_module_names and \
                top != 'builtins'
        # modules that wrap third party libraries
        imports = set()
        for x in ast.walk(self.m.tree):
            if isinstance(x, ast.Import):
                imports |= {a.name.split('.')[0] for a in x.names}
            elif isinstance(x, ast.ImportFrom) and x.level == 0:
                imports.add(x.module.split('.')[0])
        return any(i not in sys.stdlib_module_names for i in imports)

    def outside_store(self, n, sc):
        f, c = enclosing(sc)
        if f is None:
            return False
        for x in ast.walk(f.node):
            if isinstance(x, ast.Attribute) and isinstance(
                    x.ctx, ast.Store) and x.attr == n.attr and \
                    ast.dump(x.value) == ast.dump(n.value):
                return True
        return False

    def binds_self(self, name, sc, g):
        for s in local_names(sc):
            if name in s.names:
                if s.func is not g:
                    return False
                for n in walk_own(g.node):
                    if isinstance(n, ast.Name) and n.id == name and \
                            isinstance(n.ctx, ast.Store):
                        return False
                return True
        return False

    def call(self, n, sc, parents):
        f, c = enclosing(sc)
        fn = n.func
        # an error message template that is never filled in
        if parents and isinstance(parents[-1], ast.Raise) and \
                len(n.args) == 1 and not n.keywords:
            a = n.args[0]
            if isinstance(a, ast.Constant) and isinstance(a.value, str):
                k, cnt = count_format(a.value)
                self.rep.check(
                    not (k == 'pos' and cnt and TEMPLATE.search(a.value)),
                    'format', self.inst(sc, 'raise ' + a.value[:40]),
                    "message template raised without its arguments",
                    self.where(n))
        # format(), logging
        if isinstance(fn, ast.Attribute) and isinstance(
                fn.value, ast.Constant) and isinstance(
                fn.value.value, str) and fn.attr == 'format':
            return
        if isinstance(fn, ast.Attribute) and fn.attr in (
                'debug', 'info', 'warning', 'warn', 'error', 'critical',
                'exception') and isinstance(fn.value, ast.Name) and \
                n.args and isinstance(n.args[0], ast.Constant) and \
                isinstance(n.args[0].value, str):
            r = resolve(self.repo, self.m, fn.value, sc)
            if r is not None and r.kind == 'ext' and r.name == 'logging' \
                    and not any(isinstance(a, ast.Starred)
                                for a in n.args):
                k, cnt = count_format(n.args[0].value)
                if k == 'pos' and (len(n.args) > 1 or
                                   TEMPLATE.search(n.args[0].value)):
                    self.rep.check(
                        cnt == len(n.args) - 1, 'format',
                        self.inst(sc, 'logging ' + n.args[0].value[:40]),
                        "log format takes %s arguments, %i given" %
                        (cnt, len(n.args) - 1), self.where(n))
            return
        target = None
        bound = False
        if isinstance(fn, ast.Attribute) and isinstance(
                fn.value, ast.Call) and isinstance(
                fn.value.func, ast.Name) and fn.value.func.id == 'super' \
                and c is not None:
            k = c
            if fn.value.args:
                r = resolve(self.repo, self.m, fn.value.args[0], sc)
                if isinstance(r, Class):
                    k = r
            target = self.repo.find_method(k, fn.attr, after=k)
            # cooperative multiple inheritance: only when unambiguous
            if self.repo.subclasses.get(k.qual) and target is not None:
                alts = {self.repo.find_method(s, fn.attr, after=k)
                        for s in self.repo.subclasses[k.qual]
                        if k in self.repo.mro(s)}
                if alts - {target}:
                    target = None
            bound = True
        elif isinstance(fn, ast.Attribute) and isinstance(
                fn.value, ast.Name) and f is not None and f.bound and \
                f.params() and fn.value.id == f.params()[0] and \
                self.binds_self(fn.value.id, sc, f):
            target = self.repo.find_method(f.cls, fn.attr)
            if target is not None and (
                    fn.attr in self.all_stores(f.cls)):
                target = None
            bound = True
        else:
            r = resolve(self.repo, self.m, fn, sc)
            if isinstance(r, Func):
                target = r
                bound = False
                if r.cls is not None and r.outer is None:
                    bound = r.classm
            elif isinstance(r, Class):
                t = self.repo.find_method(r, '__init__')
                new = self.repo.find_method(r, '__new__')
                if t is not None and new is None and not any(
                        isinstance(x, Ext) and x.name not in
                        ('builtins.object', 'pyslet.pep8.MigratedClass')
                        for x in self.repo.mro(r)[
                            :self.repo.mro(r).index(t.cls)]):
                    target = t
                    bound = True
            elif isinstance(fn, ast.Attribute):
                k = local_class(self.repo, self.m, fn.value, sc)
                if isinstance(k, Class):
                    target = self.repo.find_method(k, fn.attr)
                    if target is not None and \
                            fn.attr in self.all_stores(k):
                        target = None
                    bound = True
                elif fn.attr in self.repo.method_index and \
                        r is None and not self.known_ext(fn.attr):
                    ms = self.repo.method_index[fn.attr]
                    stored = fn.attr in self.stored_names()
                    if ms and not stored and not (
                            isinstance(fn.value, ast.Name) and
                            fn.value.id in ('cls', 'self')):
                        errs = []
                        for t in ms:
                            b = t.bound
                            errs.append(arity_error(n, t, b))
                        # unbound calls Class.meth(self) excluded above
                        if all(errs):
                            self.rep.bad(
                                'call', self.inst(
                                    sc, '.%s()' % fn.attr),
                                "no method %s accepts this call: %s" %
                                (fn.attr, errs[0]), self.where(n))
                        else:
                            self.rep.ok('call', self.inst(
                                sc, '.%s()' % fn.attr))
                    return
        if target is None:
            return
        if target.static:
            bound = False
        if target.prop:
            return
        err = arity_error(n, target, bound)
        self.rep.check(
            err is None, 'call', self.inst(sc, target.short + '()'),
            "%s %s" % (target.short, err), self.where(n))

    def stored_names(self):
        if not hasattr(self, '_stored'):
            s = set()
            for m in self.repo.modules.values():
                for x in ast.walk(m.tree):
                    if isinstance(x, ast.Attribute) and isinstance(
                            x.ctx, ast.Store):
                        s.add(x.attr)
            for c in self.repo.classes.values():
                s |= set(c.attrs)
            self._stored = s
        return self._stored

    def known_ext(self, name):
        if not hasattr(self, '_extn'):
            import io
            import socket
            import sqlite3
            import threading
            import zipfile
            import re as re_
            import hashlib
            import collections
            import decimal
            import datetime
            import logging
            import os as os_
            import array
            import select
            import string
            import codecs
            import optparse
            import socketserver
            import http.server
            s = set()
            for t in (str, bytes, bytearray, list, dict, set, tuple, int,
                      float, object, type, io.BytesIO, io.StringIO,
                      io.FileIO, io.RawIOBase, io.BufferedReader,
                      socket.socket, sqlite3.Connection, sqlite3.Cursor,
                      threading.Thread, zipfile.ZipFile, zipfile.ZipInfo,
                      collections.deque, collections.OrderedDict,
                      decimal.Decimal, datetime.datetime, datetime.date,
                      socketserver.TCPServer, http.server.HTTPServer,
                      socketserver.BaseRequestHandler,
                      http.server.BaseHTTPRequestHandler,
                      logging.Logger, Exception, optparse.OptionParser,
                      optparse.OptionGroup):
                s |= set(dir(t))
            for o in (threading.Lock(), threading.RLock(),
                      threading.Condition(), re_.compile(''),
                      re_.match('', ''), hashlib.md5(), (x for x in ()),
                      os_, os_.path, string, codecs):
                s |= set(dir(o))
            self._extn = s
        return name in self._extn

    def all_stores(self, c):
        s = set()
        for k in self.repo.mro(c) + self.repo.subclasses.get(c.qual, []):
            if isinstance(k, Class):
                s |= set(k.self_stores)
                s |= self.members.ext_stores.get(k.qual, set())
        # a subclass may change the signature
        base = {}
        for k in self.repo.subclasses.get(c.qual, []):
            for n, f in k.methods.items():
                if self.repo.find_method(c, n) is not None and False:
                    s.add(n)
        return s

    def fmt(self, n, sc):
        left = n.left
        if not (isinstance(left, ast.Constant) and
                isinstance(left.value, (str, bytes))):
            return
        k, cnt = count_format(left.value)
        inst = self.inst(sc, '%% %s' % repr(left.value)[:50])
        if k == 'bad':
            self.rep.bad('format', inst, "malformed format string",
                         self.where(n))
            return
        right = n.right
        if k == 'map':
            if isinstance(right, ast.Dict) and all(
                    isinstance(x, ast.Constant) for x in right.keys):
                have = {x.value for x in right.keys}
                self.rep.check(cnt <= have, 'format', inst,
                               "missing keys %s" % sorted(cnt - have),
                               self.where(n))
            else:
                self.rep.check(not isinstance(
                    right, (ast.Tuple, ast.Constant)), 'format', inst,
                    "mapping format applied to a non mapping",
                    self.where(n))
            return
        if isinstance(right, ast.Tuple):
            if any(isinstance(x, ast.Starred) for x in right.elts):
                return
            self.rep.check(
                len(right.elts) == cnt, 'format', inst,
                "format takes %i arguments, %i given" %
                (cnt, len(right.elts)), self.where(n))
        elif isinstance(right, (ast.Constant, ast.Attribute, ast.Name,
                                ast.Call, ast.BinOp, ast.Subscript,
                                ast.JoinedStr)):
            ok = cnt == 1
            if not ok and cnt > 1:
                # may be a tuple value
                ok = self.maybe_tuple(right, sc)
            self.rep.check(ok, 'format', inst,
                           "format takes %i arguments, 1 given" % cnt,
                           self.where(n))
            # str(a, b)
            if isinstance(right, ast.Call) and isinstance(
                    right.func, ast.Name) and right.func.id in (
                    'str', 'repr', 'len') and len(right.args) > 1:
                self.rep.bad('format', inst, "%s() takes one argument here"
                             % right.func.id, self.where(n))

    def maybe_tuple(self, e, sc):
        if isinstance(e, ast.Constant):
            return False
        if isinstance(e, ast.Call):
            if isinstance(e.func, ast.Name) and e.func.id in (
                    'str', 'repr', 'int', 'len', 'type', 'to_text'):
                return False
            return True
        if isinstance(e, ast.BinOp):
            return isinstance(e.op, ast.Add)
        return not isinstance(e, ast.JoinedStr)

    def typo_store(self):
        """Attributes stored on self in some method but never read"""
        loads = set()
        for m in self.repo.modules.values():
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Attribute) and isinstance(
                        n.ctx, (ast.Load, ast.Del)):
                    loads.add(n.attr)
                elif isinstance(n, ast.Constant) and isinstance(
                        n.value, str):
                    loads.add(n.value)
        for c in self.repo.classes.values():
            if c.module.name in SKIP_MODULES:
                continue
            for a, ss in c.self_stores.items():
                if a in loads:
                    self.rep.ok('typo-store', c.short + '.' + a)
                    continue
                # initialised in a constructor or declared by a class:
                # part of the public interface
                init = False
                for k in self.repo.mro(c):
                    if isinstance(k, Class):
                        if a in k.attrs or a in k.setters:
                            init = True
                        for f, v, n in k.self_stores.get(a, ()):
                            if f.name in ('__init__', '__new__', 'reset',
                                          'clear'):
                                init = True
                    elif k is not None:
                        from ..resolve import ext_members
                        e = ext_members(k.name) or ()
                        if a in e:
                            init = True
                f, v, n = ss[0]
                # a write only attribute is harmless unless it is a
                # misspelling of one the class does use
                near = None
                if not init:
                    names = set()
                    for k in self.repo.mro(c):
                        if isinstance(k, Class):
                            names |= set(k.self_stores) | set(k.attrs)
                    near = [x for x in names if x != a and x in loads and
                            similar(x, a)]
                self.rep.check(
                    not near, 'typo-store', c.short + '.' + a,
                    "attribute %s is stored in %s but is never read or "
                    "initialised (did you mean %s?)" % (
                        a, f.short, ', '.join(near or ())),
                    "%s:%s" % (c.module.rel, n.lineno))


def similar(a, b):
    """Within one edit, or the same but for case and underscores"""
    x, y = a.replace('_', '').lower(), b.replace('_', '').lower()
    if x == y:
        return True
    if min(len(a), len(b)) < 6 or abs(len(a) - len(b)) > 1:
        return False
    i = 0
    while i < min(len(a), len(b)) and a[i] == b[i]:
        i += 1
    j = 0
    while j < min(len(a), len(b)) - i and a[-1 - j] == b[-1 - j]:
        j += 1
    return max(len(a), len(b)) - i - j <= 1


#: reads that no input can reach unassigned, with the reason
ASSIGNED = {
    ('http.client.Connection._recv_task', 'lines'):
        "the byte count compared with 0 is an int, so one branch is taken",
    ('iso8601.ISO8601Parser.parse_time_zone_format', 'format'):
        "called only when the character is one of Z, + and -",
    ('iso8601.ISO8601Parser.parse_time_zone_format', 'zhour'):
        "called only when the character is one of Z, + and -",
    ('iso8601.ISO8601Parser.parse_time_zone_format', 'zminute'):
        "called only when the character is one of Z, + and -",
    ('iso8601.ISO8601Parser.parse_time_zone_format', 'zdirection'):
        "called only when the character is one of Z, + and -",
    ('iso8601.Time.get_string', 'stem'):
        "every combination of missing components is listed",
    ('odata2.sqlds.SQLEntityCollection.insert_entity_sql', 'dv'):
        "a navigation name is never empty",
    ('odata2.sqlds.SQLCollectionBase.where_skiptoken_clause', 'expression'):
        "names of the remaining order fields are never None",
    ('qtiv1.common.SetVar.migrate_rule_to_v2', 'op'):
        "every member of the enumeration is listed",
    ('unicode5.CharClass.test', 'cmax'):
        "cmin and cmax are set together",
    ('wsgi.WSGIApp.static_page', 'filename'):
        "splitting a string gives at least one component",
}


def run(repo, rep):
    C29(repo, rep).run()
