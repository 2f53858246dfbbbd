"""C10: static file serving never leaves the document root"""

import ast

from ..guards import (EventCheck, exc_of, family, flows, has, is_attr,
                      is_call, strip, unver)
from ..interp import NONE, T, is_const
from ..repo import AnalysisError, Class, Ext, Func, walk_own
from ..rulebase import helpers_only, run_func, where_of

APP = 'wsgi.WSGIApp'
SINKS = ('isfile', 'isdir', 'exists', 'stat', 'lstat', 'open',
         'file_response', 'listdir', 'getsize', 'access', 'OSFilePath',
         'getmtime', 'unlink', 'remove', 'realpath', 'send_file')
REQUEST = ('PATH_INFO', 'QUERY_STRING', 'SCRIPT_NAME', 'REQUEST_URI')
LENIENT = ('replace', 'backslashreplace', 'xmlcharrefreplace',
           'namereplace')


def request(t):
    """t was read from the request"""
    if t.op == 'sub' and t.args[1].op == 'const' and (
            t.args[1].args[0] in REQUEST or str(
                t.args[1].args[0]).startswith('HTTP_')):
        return True
    return is_call(t, 'get_query', 'get_form', 'get_form_string',
                   'get_cookies', 'get_url', 'get_content')


def is_join(t):
    return is_call(t, 'join') and len(t.args[3]) >= 2


def encoded(t):
    """(text, True if no character is lost) of an encoded string"""
    if is_call(t, 'encode') and t.args[2] is not None:
        e = t.args[3][1] if len(t.args[3]) > 1 else dict(
            t.args[4]).get('errors')
        ok = e is None or (e.op == 'const' and e.args[0] in LENIENT + (
            'strict',))
        return t.args[2], ok
    if is_call(t, 'force_bytes') and t.args[3]:
        return t.args[3][0], True
    return t, True


class Static(EventCheck):

    """static_page, and every other reader of a path from the request"""

    def __init__(self, rep, repo, full):
        EventCheck.__init__(self, rep)
        self.repo = repo
        self.full = full

    def start(self, it, st, func):
        st = EventCheck.start(self, it, st, func)
        # the variables that hold paths
        self.names = set()
        for f in [func] + [
                x for x in self.repo.funcs.values()
                if x.module is func.module and self.is_new(x)]:
            for n in ast.walk(f.node):
                if isinstance(n, ast.Call):
                    fn = n.func
                    name = getattr(fn, 'attr', getattr(fn, 'id', ''))
                    if name == 'join' or name in SINKS:
                        for a in n.args[:1] if name == 'join' else n.args:
                            if isinstance(a, ast.Name):
                                self.names.add(a.id)
        return st

    def label(self, st, t):
        """t is known to be a plain label"""
        for f, p in st.facts.items():
            if p is True and is_call(f, 'is_ldh_label') and f.args[3]:
                text, ok = encoded(f.args[3][0])
                if ok and text is t:
                    return True
        return False

    def safe(self, st, t):
        """t is a label, or labels with exactly one dot in between"""
        if t.op == 'const':
            return t.args[0] not in ('..', '') and '/' not in str(
                t.args[0])
        if self.label(st, t):
            return True
        for f, p in st.facts.items():
            if f.op == 'cmp' and f.args[0] == '==' and p is True and \
                    is_call(f.args[1], 'len') and is_const(f.args[2], 2):
                s = f.args[1].args[3][0]
                if is_call(s, 'split') and s.args[2] is t and \
                        s.args[3] and is_const(s.args[3][0], '.'):
                    items = [T('sub', s, T('const', i)) for i in (0, 1)]
                    got = 0
                    for i in (0, 1):
                        for g, q in st.facts.items():
                            if q is True and is_call(g, 'is_ldh_label'):
                                x, ok = encoded(g.args[3][0])
                                if ok and x.op == 'sub' and \
                                        x.args[0] is s and is_const(
                                            x.args[1], i):
                                    got += 1
                                    break
                    if got == 2:
                        return True
        # name + '.' + ext
        return False

    def under(self, st, t):
        t = unver(t)
        return is_attr(t, 'static_files') or t.op == 'phi' or (
            'join', t) in st.auto

    def call(self, it, st, ci):
        f = self.func.short
        if ci.name == 'encode' and ci.recv is not None and \
                self.full and has(ci.recv, request):
            if encoded(T('call', 'encode', '', ci.recv, tuple(ci.args),
                         tuple(ci.kw.items())))[1] and not (
                    ci.arg(1, 'errors') is not None):
                self.throw(it, st, ci, 'UnicodeEncodeError')
        if ci.name in SINKS:
            for a in ci.args:
                if is_attr(unver(a), 'environ') or not (
                        has(a, request) or a.op == 'phi' and self.full):
                    continue
                self.note('root', "%s:%s" % (f, ci.name),
                          self.under(st, a), "a path from the request "
                          "reaches the file system without being joined, "
                          "label by label, to the document root",
                          ci.where, st.trace)
                if ci.name in ('open', 'file_response', 'OSFilePath'):
                    ok = any(is_call(x, 'isfile') and p is True and
                             x.args[3] and x.args[3][0] is a
                             for x, p in st.facts.items())
                    self.note('file', f, ok, "what is served need not be "
                              "an existing plain file", ci.where, st.trace)
        return None

    def after_call(self, it, st, ci, term):
        if ci.name == 'join' and is_join(term) and (
                has(term, request) or self.full):
            if ci.recv is not None and ci.recv.op == 'const':
                return st
            ok = self.under(st, ci.args[0])
            if ok:
                for a in ci.args[1:]:
                    good = self.safe(st, a)
                    self.note('component', self.func.short, good, "a path "
                              "component is used that has not been found "
                              "to be a plain label", ci.where, st.trace)
                    ok = ok and good
            if ok:
                st = self.put(st, ('join', term))
        return st

    def stmt(self, it, st, node, fr):
        if self.full and isinstance(node, ast.Break):
            st = self.put(st, ('early',))
        return st

    def loop_back(self, it, st, node, fr):
        if not self.full:
            return st
        for n in self.names:
            v = st.env.get(n)
            if isinstance(v, T) and has(v, request):
                self.note('root', "%s:loop" % self.func.short,
                          self.under(st, v), "the path is not built by "
                          "joining labels to the document root",
                          where_of(fr, node), st.trace)
        return st

    def func_exit(self, it, st, func, kind, payload, fr):
        w = "%s:%s" % (func.module.rel, func.node.lineno)
        if kind == 'raise' and self.full:
            c = exc_of(it, payload, fr)
            if c is not None:
                self.note('notfound', "%s:%s" % (func.short, c.name),
                          c.name == 'PageNotFound', "a path that is not "
                          "served ends in %s, not in PageNotFound" % c.name,
                          w, st.trace)
            return
        if self.full and kind == 'return':
            self.note('component', func.short + ':all', (
                'early',) not in st.auto, "a file is returned although "
                "not every component of the path was looked at", w,
                st.trace)
            self.note('notfound', func.short + ':return',
                      payload is not None and is_call(
                          payload, 'file_response'), "something other "
                      "than a file is returned", w, st.trace)

    def relevant(self, t):
        return is_call(t, 'is_ldh_label', 'isfile', 'isdir') or (
            t.op == 'cmp')


class Label(EventCheck):

    """is_ldh_label accepts nothing but letters, digits and hyphens"""

    def allowed(self, st, b):
        b = unver(b)
        for f, p in st.facts.items():
            if p is not True:
                continue
            if is_call(f, 'is_alpha', 'is_digit', 'is_alphanum',
                       'is_hex') and f.args[3] and f.args[3][0] is b:
                return True
            if f.op == 'cmp' and f.args[0] == '==':
                for x, y in ((f.args[1], f.args[2]),
                             (f.args[2], f.args[1])):
                    if x is b and (
                            y.op == 'glob' and str(getattr(
                                y.args[0], 'qual', y.args[0])).endswith(
                                    'HYPHEN') or
                            y.op == 'const' and y.args[0] in (45, '-')
                            or is_attr(y, 'HYPHEN')):
                        return True
        return False

    def loop_back(self, it, st, node, fr):
        if isinstance(node, ast.For) and isinstance(node.target, ast.Name):
            b = st.env.get(node.target.id)
            self.note('label', self.func.short + ':byte', b is not None and
                      self.allowed(st, b), "a byte that is not a letter, "
                      "digit or hyphen is accepted", where_of(fr, node),
                      st.trace)
            st = self.put(st, ('seen',))
        return st

    def func_exit(self, it, st, func, kind, payload, fr):
        if kind == 'raise' or payload is None:
            return
        if payload.op == 'const' and not payload.args[0]:
            return
        w = "%s:%s" % (func.module.rel, func.node.lineno)
        lab = T('param', func.params()[0])
        empty = any((f is lab and p is True) for f, p in st.facts.items())
        self.note('label', func.short + ':empty', empty, "an empty label "
                  "is accepted", w, st.trace)

    def relevant(self, t):
        return True


def run(repo, rep):
    rep.rule('root', 'every path from the request that reaches the file '
             'system was made by joining components to static_files', 2)
    rep.rule('component', 'every component joined is known to be a label, '
             'or two labels with a dot in between', 1)
    rep.rule('file', 'only existing plain files are served', 1)
    rep.rule('notfound', 'static_page returns a file or raises '
             'PageNotFound', 1)
    rep.rule('label', 'a label has letters, digits and hyphens only', 2)
    apps = family(repo, APP)
    n = 0
    for c in apps:
        f = c.methods.get('static_page')
        if f is not None:
            chk = Static(rep, repo, True)
            run_func(repo, chk, f)
            chk.flush()
            n += 1
    if not n:
        raise AnalysisError("static_page not found")
    part = Static(rep, repo, False)
    for f in sorted(repo.funcs.values(), key=lambda f: f.qual):
        if isinstance(f.node, ast.Lambda) or f.name == 'static_page' or \
                not any(f.module is c.module for c in apps) or \
                helpers_only(repo, part, f):
            continue
        names = {getattr(x, 'id', getattr(x, 'attr', None))
                 for x in walk_own(f.node)
                 if isinstance(x, (ast.Name, ast.Attribute))}
        if names & set(SINKS) and 'context' in f.params():
            run_func(repo, part, f)
    part.flush()
    f = repo.func('http.cookie.is_ldh_label')
    lb = Label(rep)
    run_func(repo, lb, f)
    lb.flush()
