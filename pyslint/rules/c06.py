"""C06: one response start, and a matching body, per web request"""

import ast
import re

from ..guards import (EventCheck, exc_of, has, is_attr, is_call, strip,
                      unver)
from ..interp import NONE, NORAISE, PURE, T, is_const
from ..repo import AnalysisError, Class, Ext, Func, walk_own
from ..rulebase import helpers_only, run_func, where_of

MODULES = ('wsgi', 'wsgi_jinja', 'wsgi_django', 'imsbltiv1p0',
           'odata2.server', 'rfc5023', 'http.server')
STARTERS = ('start_response', 'start_response_method',
            'start_response_wrapper', 'wrap_response')
# the server's own end of the protocol
SERVER_SIDE = ('http.server.Connection', 'http.server.ConnectionHandler')
# these leave the status to their caller, as documented
STATUSLESS = ('html_response', 'json_response', 'text_response',
              'file_response')
# responders that answer for a failure elsewhere
LAST = ('internal_error', 'handle_error', 'odata_error', 'error_page')
SAFE = set(NORAISE) | set(PURE) | {
    'getvalue', 'close', 'format_exc', 'bytes', 'exc_info', 'getLogger',
    'file_wrapper', 'FileWrapper', 'encodestring', 'min', 'max', 'read',
    'open', 'format_exception'}


def short(m):
    return m.name[7:] if m.name.startswith('pyslet.') else m.name


def call_names(f):
    return {getattr(n.func, 'attr', getattr(n.func, 'id', None))
            for n in walk_own(f.node) if isinstance(n, ast.Call)}


def passes(n, params):
    """The call hands over the request context or the starter"""
    for a in list(n.args) + [k.value for k in n.keywords]:
        if isinstance(a, ast.Name) and a.id in ('context',
                                                'start_response') | params:
            return True
        if isinstance(a, ast.Attribute) and a.attr in STARTERS:
            return True
    return False


def scope(repo):
    out = []
    for f in repo.funcs.values():
        if short(f.module) not in MODULES:
            continue
        if f.cls is not None and f.cls.short in SERVER_SIDE:
            continue
        out.append(f)
    return sorted(out, key=lambda f: f.qual)


def unknown_app(n, f):
    """A call of something only known at run time"""
    fn = n.func
    if isinstance(fn, ast.Name):
        return fn.id in ('page_method', 'wildcard', 'application', 'app',
                         'handler', 'method')
    return isinstance(fn, ast.Attribute) and fn.attr in (
        '_handler', '_wildcard', 'application')


def responders(repo, funcs):
    """Names of the functions that perform the protocol"""
    names = set()
    direct = {}
    returned = {}
    for f in funcs:
        cs = call_names(f)
        direct[f] = bool(cs & set(STARTERS)) and f.name not in STARTERS
        r = set()
        unk = False
        held = {}
        for n in walk_own(f.node):
            if isinstance(n, ast.Assign) and isinstance(
                    n.value, ast.Call):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        held.setdefault(t.id, []).append(n.value)
        rets = [n.value for n in walk_own(f.node)
                if isinstance(n, ast.Return) and n.value is not None]
        if isinstance(f.node, ast.Lambda):
            rets.append(f.node.body)
        for v in rets:
            cands = [v]
            if isinstance(v, ast.Name):
                cands = held.get(v.id, [])
            if isinstance(v, ast.IfExp):
                cands = [v.body, v.orelse]
            for c in cands:
                if isinstance(c, ast.Call):
                    r.add(getattr(c.func, 'attr',
                                  getattr(c.func, 'id', None)))
                    if unknown_app(c, f):
                        unk = True
        returned[f] = r
        if direct[f] or unk:
            names.add(f.name)
    while True:
        more = {f.name for f in funcs
                if f.name not in names and f.name not in STARTERS and
                returned[f] & names}
        more = {m for m in more if m not in ('<lambda>',)}
        if not more:
            break
        names |= more
    names.discard('<lambda>')
    return names, direct, returned


def is_bytes(st, t):
    t = unver(t)
    if t.op == 'const':
        return isinstance(t.args[0], bytes)
    if is_call(t, 'read') and t.args[2] is not None:
        for x in t.args[2].subterms():
            if is_call(x, 'open') and x.args[3]:
                m = x.args[3][1] if len(x.args[3]) > 1 else dict(
                    x.args[4]).get('mode')
                return m is not None and is_const(m) and 'b' in str(
                    m.args[0])
        return True
    if is_call(t, 'force_bytes', 'bytes', 'b64encode', 'getvalue',
               'encode'):
        return True
    if t.op == 'new' and getattr(t.args[0], 'name', '') == 'bytes':
        return True
    if t.op == 'bin' and t.args[0] == 'Add':
        return is_bytes(st, t.args[1]) and is_bytes(st, t.args[2])
    if t.op == 'bin' and t.args[0] == 'Mod':
        return is_bytes(st, t.args[1])
    if is_call(t, 'join') and t.args[2] is not None:
        return is_bytes(st, t.args[2])
    for f, p in st.facts.items():
        if p is True and is_call(f, 'isinstance') and f.args[3][0] is t \
                and getattr(f.args[3][1], 'op', '') == 'glob' and \
                getattr(f.args[3][1].args[0], 'name', '') == 'bytes':
            return True
        if p is True and is_call(f, 'is_bytes') and f.args[3] and \
                f.args[3][0] is t:
            return True
        # a parameter documented as either sort of string
        if p is False and is_call(f, 'is_unicode', 'is_text') and \
                f.args[3] and f.args[3][0] is t and t.op == 'param':
            return True
        # the value of a property of type binary is bytes
        if p is True and is_call(f, 'isinstance') and is_attr(t, 'value') \
                and f.args[3][0] is t.args[0] and has(
                    f.args[3][1], lambda x: x.op == 'glob' and getattr(
                        x.args[0], 'name', '') == 'BinaryValue'):
            return True
    return False


def seven_bit(t):
    """Text that is ASCII whatever the request"""
    t = unver(t)
    if t.op == 'const':
        return isinstance(t.args[0], str) and t.args[0].isascii() or \
            isinstance(t.args[0], (int, bytes))
    if is_call(t, 'escape_char_data7', 'force_ascii', 'str') and (
            t.args[0] != 'str' or t.args[3] and seven_bit(t.args[3][0])):
        return True
    if t.op == 'kill' and t.args[0] in ('status_message', 'status'):
        return True
    if is_attr(t, 'status_message', 'status') or t.op == 'param' and \
            t.args[0] == 'code':
        return True
    if t.op == 'bin' and t.args[0] in ('Add', 'Mod'):
        return seven_bit(t.args[1]) and seven_bit(t.args[2])
    if t.op in ('tuple', 'list'):
        return all(seven_bit(x) for x in t.args[0])
    if t.op == 'fmt':
        return all(seven_bit(x) for a in t.args for x in (
            a if isinstance(a, tuple) else (a,)) if isinstance(x, T))
    return False


def same_bytes(a, b):
    """a and b have the same length once encoded"""
    a, b = unver(a), unver(b)
    if a is b:
        return True
    if is_call(a, 'getvalue') and is_call(b, 'getvalue') and \
            a.args[2] is b.args[2]:
        return True
    for x, y in ((a, b), (b, a)):
        if is_call(x, 'force_bytes', 'bytes') and x.args[3] and (
                unver(x.args[3][0]) is y) and (
                    seven_bit(y) or x.args[0] == 'bytes'):
            return True
        if is_call(x, 'encode') and x.args[2] is not None and unver(
                x.args[2]) is y and seven_bit(y):
            return True
    return False


class Respond(EventCheck):

    model_only = False

    def __init__(self, rep, repo, names):
        EventCheck.__init__(self, rep)
        self.repo = repo
        self.names = names
        self.apps = True

    def start(self, it, st, func):
        st = EventCheck.start(self, it, st, func)
        self.gen = any(isinstance(n, (ast.Yield, ast.YieldFrom))
                       for n in walk_own(func.node))
        self.dispatch = func.short in ('wsgi.WSGIApp.__call__',
                                       'odata2.server.Server.__call__')
        return st

    def inst(self, what=''):
        return self.func.short + (':' + what if what else '')

    def hands_over(self, ci):
        for a in list(ci.args) + list(ci.kw.values()):
            a = unver(a)
            if a.op == 'new' and any(unver(x).op == 'param' and unver(
                    x).args[0] == 'start_response' for x in a.args[1]):
                return True
            if a.op in ('param', 'free') and a.args[0] in (
                    'context', 'start_response'):
                return True
            if a.op == 'param' and self.func.name == '<lambda>':
                return True
            if a.op in ('attr', 'bound') and len(a.args) > 1 and \
                    a.args[1] in STARTERS:
                return True
            if a.op == 'bound' and any(
                    getattr(x, 'name', '') in STARTERS for x in a.args):
                return True
        return False

    def unknown(self, ci):
        return not ci.targets and self.hands_over(ci) and unknown_app(
            ci.node, self.func)

    def is_start(self, ci):
        if ci.name not in STARTERS:
            return False
        return self.func.name != ci.name or ci.name == 'start_response' \
            and self.func.short != 'wsgi.WSGIContext.start_response'

    def is_resp(self, ci):
        if ci.name in STARTERS:
            return False
        if self.unknown(ci):
            return True
        if any(isinstance(f, Func) and self.is_new(f)
               for f in ci.targets):
            return False      # looked into instead
        snake = re.sub('([a-z])([A-Z])', r'\1_\2', ci.name or '').lower()
        if snake not in self.names and ci.name not in self.names and not any(
                isinstance(f, Func) and f.name in self.names
                for f in ci.targets):
            return False
        if ci.name == '__call__' and not self.hands_over(ci):
            return False
        if ci.name in ('call', 'launch', 'get', 'put') and not \
                self.hands_over(ci) and not any(
                    isinstance(f, Func) and f.cls is not None and
                    f.cls.name == 'WSGIWrapper' for f in ci.targets):
            return False
        return True

    def may_raise(self, it, ci):
        if ci.name in ('error_page', 'internal_error', 'odata_error'):
            return False
        if self.is_start(ci):
            return False
        return EventCheck.may_raise(self, it, ci)

    def call(self, it, st, ci):
        started = self.events(st, 'start')
        self.writing(it, st, ci)
        if started:
            if ci.name in ('add_header', 'set_status') or (
                    ci.name in ('append', 'insert', 'extend') and
                    ci.recv is not None and (
                        unver(ci.recv).op == 'param' and unver(
                            ci.recv).args[0] == 'response_headers' or
                        is_attr(unver(ci.recv), 'headers'))):
                self.note('late', self.inst(), False, "the status or the "
                          "headers are changed after the response was "
                          "started", ci.where, st.trace)
            elif ci.name not in SAFE and not self.gen and \
                    not self.is_resp(ci) and not self.is_start(ci):
                ok = ci.name in ('force_bytes', 'close') or \
                    ci.name == 'force_bytes' and seven_bit(ci.args[0])
                if ci.name == 'force_bytes':
                    ok = seven_bit(ci.args[0])
                self.note('late', self.inst(), ok, "%s may fail when the "
                          "response has been started already" % ci.name,
                          ci.where, st.trace)
            elif ci.name == 'encode' and not self.gen and ci.recv is not \
                    None:
                a = ci.arg(0, 'encoding')
                self.note('late', self.inst(), a is not None and is_const(
                    a) and str(a.args[0]).lower().startswith('utf') or
                    seven_bit(ci.recv), "the body may fail to encode when "
                    "the response has been started already", ci.where,
                    st.trace)
        if self.unknown(ci) and not self.dispatch:
            # the page may have started its response
            s2 = self.put(st, ('begun',))
            self.throw(it, s2, ci, 'KeyError')
            self.throw(it, s2, ci, 'Exception')
        if self.dispatch and (self.unknown(ci) or ci.name in (
                'handle_request', 'call')):
            for c in self.page_errors:
                self.throw(it, st, ci, c)
            self.throw(it, st, ci, 'ValueError')
            self.throw(it, st, ci, 'Exception')
        if self.is_start(ci):
            self.starting(it, st, ci)
            # refused: only when there has been one already
            self.throw(it, self.put(st, ('refused',)), ci, 'Exception')
        return None

    def writing(self, it, st, ci):
        f = None
        if ci.name == 'write':
            f, v = ci.recv, ci.arg(0)
        elif ci.name in ('print_exc', 'print_exception', 'print_stack'):
            f, v = ci.kw.get('file'), T('const', '')
        if f is not None and v is not None:
            f = strip(unver(f))
            if f.op == 'call' and f.args[0] == 'BytesIO' or f.op == 'new' \
                    and f.args[0].name.endswith('BytesIO'):
                self.note('bytes', self.inst('write'), is_bytes(st, v) or
                          v.op in ('param', 'elem', 'phi'), "text is "
                          "written to a buffer of bytes", ci.where,
                          st.trace)
        if self.func.name in LAST and ci.name in ('encode', 'force_bytes'):
            t = ci.recv if ci.name == 'encode' else ci.arg(0)
            if t is None:
                return
            a, e = ci.arg(0, 'encoding'), ci.arg(1, 'errors')
            ok = seven_bit(t) or ci.name == 'encode' and (
                a is None or is_const(a) and str(a.args[0]).lower(
                ).startswith('utf') or (
                    e is not None and is_const(e) and
                    e.args[0] != 'strict'))
            self.note('caught', self.inst('encode'), True)
            if not ok:
                self.throw(it, self.put(st, ('codec', ci.where)), ci,
                           'UnicodeEncodeError')

    def starting(self, it, st, ci):
        """Arguments of a start"""
        if self.func.name in STARTERS:
            return
        a = ci.arg(0, 'status')
        if a is None:
            # a context: the status comes from set_status
            if self.func.name in STATUSLESS:
                return
            self.note('status', self.inst(), bool(self.events(
                st, 'status')), "the response is started but no status "
                "has been set", ci.where, st.trace)
            return
        ok = False
        a = unver(a)
        if a.op == 'const':
            ok = bool(re.match(r'[1-5][0-9]{2} .', str(a.args[0])))
        elif a.op == 'bin' and a.args[0] == 'Mod' and is_const(a.args[1]):
            ok = bool(re.match(r'(%i|%d|%s|[1-5][0-9]{2}) .',
                               str(a.args[1].args[0])))
        elif a.op == 'bin' and a.args[0] == 'Add':
            ok = True
        elif a.op in ('fmt', 'call', 'param', 'free'):
            ok = True
        self.note('status', self.inst(), ok, "the status line does not "
                  "have a code and a reason", ci.where, st.trace)

    def after_call(self, it, st, ci, term):
        if self.is_start(ci):
            n = len(self.events(st, 'start'))
            if self.events(st, 'begun'):
                self.note('once', self.inst(), False, "an exception of "
                          "the page is answered with a response, the page "
                          "may have started one itself", ci.where,
                          st.trace)
            if n or self.events(st, 'resp'):
                self.note('once', self.inst(), False, "the response is "
                          "started twice", ci.where, st.trace)
            return self.put(st, ('start', n))
        if self.is_resp(ci):
            if ci.name in STATUSLESS and self.func.name not in STATUSLESS:
                self.note('status', self.inst(), bool(self.events(
                    st, 'status')), "%s is called but no status has been "
                    "set" % ci.name, ci.where, st.trace)
            if self.events(st, 'start') or self.events(st, 'resp'):
                self.note('once', self.inst(), False, "the response is "
                          "started twice", ci.where, st.trace)
            return self.put(st, ('resp', term))
        if ci.name == 'set_status':
            return self.put(st, ('status',))
        name = value = None
        if ci.name == 'add_header' and len(ci.args) == 2:
            name, value = ci.args
        elif ci.name == 'append' and ci.args and unver(
                ci.args[0]).op == 'tuple' and len(
                    unver(ci.args[0]).args[0]) == 2:
            name, value = unver(ci.args[0]).args[0]
        if name is not None and is_const(name) and str(
                name.args[0]).lower() == 'content-length':
            if self.events(st, 'length'):
                self.note('length', self.inst(), False, "the length is "
                          "declared twice", ci.where, st.trace)
            return self.put(st, ('length', unver(value)))
        return st

    def sub_store(self, it, st, base, idx, value, node, fr):
        if is_const(idx, 'Content-Length'):
            return self.put(st, ('length', unver(value)))
        return st

    def attr_store(self, it, st, base, attr, value, node, fr):
        if attr == 'status' and unver(base).op in ('param', 'free'):
            return self.put(st, ('status',))
        return st

    def yield_(self, it, st, value, node, fr):
        if self.func.name == 'call_wrapper':
            self.note('bytes', self.inst(), is_bytes(st, value), "the "
                      "body is not made of bytes", where_of(fr, node),
                      st.trace)
            return st
        if 'context' in self.func.params():
            self.note('once', self.inst('yield'), bool(self.events(
                st, 'start')), "body data is produced before the response "
                "is started", where_of(fr, node), st.trace)
            self.note('bytes', self.inst(), is_bytes(st, value), "the "
                      "body is not made of bytes", where_of(fr, node),
                      st.trace)
            return self.put(st, ('yield', unver(value)))
        return st

    def loop_back(self, it, st, node, fr):
        ys = self.events(st, 'yield')
        if self.gen and ys and self.events(st, 'length'):
            ok = False
            for v in st.env.values():
                if isinstance(v, T):
                    for e in ys:
                        if v.op == 'bin' and v.args[0] in ('Sub', 'Add') \
                                and is_call(v.args[2], 'len') and unver(
                                    v.args[2].args[3][0]) is e[1]:
                            ok = True
            self.note('length', self.inst('count'), ok, "the data sent is "
                      "not counted against the length declared",
                      where_of(fr, node), st.trace)
            st = st.with_auto(frozenset(
                e for e in st.auto if e[0] != 'yield'))
        return st

    # ------------------------------------------------------------ exits
    def func_exit(self, it, st, func, kind, payload, fr):
        w = "%s:%s" % (func.module.rel, func.node.lineno)
        starts = self.events(st, 'start')
        resps = self.events(st, 'resp')
        if func.name in STARTERS:
            if kind == 'return':
                self.note('once', self.inst(), len(starts) == 1, "the "
                          "wrapped starter is called %i times" %
                          len(starts), w, st.trace)
            return
        if kind == 'raise':
            c = exc_of(it, payload, fr)
            if func.name in LAST and c is not None and \
                    c.name == 'builtins.UnicodeEncodeError':
                self.note('caught', self.inst('encode'), False, "the "
                          "error response fails if its message can't be "
                          "encoded", w, st.trace)
            if self.dispatch:
                bad = c is not None and c.name.split('.')[-1] in (
                    'Exception', 'ValueError', 'PageNotFound',
                    'PageNotAuthorized', 'MethodNotAllowed', 'BadRequest')
                self.note('caught', self.inst(), not bad, "%s raised by a "
                          "page gets no response" % getattr(c, 'name', c),
                          w, st.trace)
            elif starts and payload is not None and payload.op in (
                    'new', 'glob') and not self.gen and not self.events(
                        st, 'refused'):
                self.note('late', self.inst(), False, "%s is raised when "
                          "the response has been started" %
                          getattr(c, 'name', c), w, st.trace)
            return
        n = len(starts) + len(resps)
        ok = n == 1 or n == 0 and bool(self.events(st, 'refused'))
        self.note('once', self.inst(), ok, "there is a path with %i "
                  "response starts" % n, w, st.trace)
        if not ok or self.gen and not starts:
            return
        if self.gen:
            self.generator(st, w)
            return
        p = unver(payload) if payload is not None else NONE
        if resps:
            r = unver(resps[0][1])
            self.note('returned', self.inst(), p is r or is_call(
                p, 'list', 'iter') and p.args[3] and unver(
                    p.args[3][0]) is r, "the body made by %s is not "
                "returned" % (r.args[0] if r.op == 'call' else 'the page'),
                w, st.trace)
            return
        self.body(st, p, w)

    def generator(self, st, w):
        ls = self.events(st, 'length')
        if not ls:
            return
        ok = any(p is False and t.op in ('phi', 'cmp', 'attr', 'call')
                 for t, p in st.facts.items()) or any(
            p is True and t.op == 'cmp' and t.args[0] == '=='
            for t, p in st.facts.items())
        v = strip(ls[0][1], ('str', 'to_text'))
        self.note('length', self.inst(), ok and (
            is_attr(v, 'st_size') or is_call(v, 'getsize')),
            "the length declared is not the size of the file sent", w,
            st.trace)

    def body(self, st, p, w):
        ls = self.events(st, 'length')
        items = None
        if p.op in ('list', 'tuple'):
            items = list(p.args[0])
        if items is not None:
            for x in items:
                self.note('bytes', self.inst(), is_bytes(st, x), "the "
                          "body is not made of bytes", w, st.trace)
            if not ls:
                self.note('length', self.inst(), True)
                return
            v = ls[0][1]
            n = strip(v, ('str', 'to_text', 'force_ascii'))
            if not items:
                ok = is_const(n) and str(n.args[0]) == '0' or (
                    is_attr(n, 'size') and self.head(st))
            elif len(items) == 1:
                ok = is_call(n, 'len') and n.args[3] and same_bytes(
                    n.args[3][0], items[0]) and v is not n
                if is_const(v) and items[0].op == 'const':
                    ok = str(v.args[0]) == str(len(items[0].args[0]))
            else:
                ok = False
            self.note('length', self.inst(), bool(ok), "the length "
                      "declared is not the length of the data returned", w,
                      st.trace)
            return
        # a stream with the information that belongs to it
        if p.op == 'sub' or p.op == 'elem':
            ok = True
            if ls:
                n = strip(ls[0][1], ('str', 'to_text'))
                ok = is_attr(n, 'size') and unver(n.args[0]).op == 'sub' \
                    and unver(n.args[0]).args[0] is p.args[0]
            self.note('length', self.inst(), ok, "the length declared "
                      "does not belong to the stream returned", w,
                      st.trace)
            src = p.args[0]
            self.note('bytes', self.inst(), is_call(
                src, 'read_stream_close'), "what is returned is not known "
                "to be made of bytes", w, st.trace)
            return
        self.note('bytes', self.inst(), False, "what is returned is not "
                  "known to be a list of bytes", w, st.trace)

    def head(self, st):
        for t, p in st.facts.items():
            if t.op == 'cmp' and t.args[0] == '==':
                ops = [unver(x) for x in t.args[1:]]
                if any(is_const(x, 'GET') for x in ops) and p is False:
                    return True
                if any(is_const(x, 'HEAD') for x in ops) and p is True:
                    return True
        return False

    def relevant(self, t):
        return is_call(t, 'is_unicode', 'isinstance') or (
            t.op == 'cmp' and any(is_const(x, 'GET') for x in t.args[1:]))


def overrides(repo, rep, funcs, names):
    """A method of a derived application takes what its base takes"""
    for f in funcs:
        if f.cls is None or f.name not in names or not f.bound:
            continue
        bases = list(repo.mro(f.cls)[1:])
        app = repo.cls('wsgi.SessionApp')
        if app is not None and f.cls is not app and repo.is_subclass(
                f.cls, 'pyslet.wsgi.WSGIApp'):
            # these are made to be mixed with the session application
            bases += [b for b in repo.mro(app) if b is not f.cls]
        for b in bases:
            g = b.methods.get(f.name) if isinstance(b, Class) else None
            if g is None or not g.bound:
                continue
            fa, ga = f.node.args, g.node.args
            fp = [a.arg for a in fa.posonlyargs + fa.args]
            gp = [a.arg for a in ga.posonlyargs + ga.args]
            need = len(fp) - len(fa.defaults)
            gmin = len(gp) - len(ga.defaults)
            ok = (fa.vararg is not None or len(fp) >= len(gp)) and (
                need <= gmin)
            rep.check(ok, 'override', f.short, "%s does not take the "
                      "arguments of %s, which it overrides" % (
                          f.short, g.short), "%s:%s" % (
                              f.module.rel, f.node.lineno))
            break


class Mapping(EventCheck):

    """What the dispatcher makes of the exceptions of a page"""

    CODES = {'PageNotFound': 404, 'PageNotAuthorized': 403,
             'MethodNotAllowed': 405, 'BadRequest': 400}

    def __init__(self, rep, repo, classes):
        EventCheck.__init__(self, rep)
        self.classes = classes

    def call(self, it, st, ci):
        if not ci.targets and unknown_app(ci.node, self.func):
            for c in self.classes:
                it.raise_(self.put(st, ('threw', c.name)), T(
                    'new', c, (), (), id(ci.node), ci.fr.ctx,
                    ci.fr.loops))
        return None

    def func_exit(self, it, st, func, kind, payload, fr):
        w = "%s:%s" % (func.module.rel, func.node.lineno)
        for e in self.events(st, 'threw'):
            code = self.CODES.get(e[1])
            if code is None:
                continue
            ok = kind == 'return' and payload is not None and is_call(
                unver(payload), 'error_page') and any(
                    is_const(a, code) for a in unver(payload).args[3])
            self.note('mapped', e[1], ok, "%s does not end in a %i "
                      "response" % (e[1], code), w, st.trace)


def run(repo, rep):
    rep.rule('once', 'every normal path starts the response exactly once, '
             'itself or through one responder', 40)
    rep.rule('returned', 'the body a responder made is what is returned',
             10)
    rep.rule('late', 'nothing that can fail, no header and no raise comes '
             'after the start', 0)
    rep.rule('status', 'a status is set before the response is started',
             20)
    rep.rule('length', 'a declared length is the length of the bytes '
             'returned', 15)
    rep.rule('bytes', 'the body is made of bytes', 15)
    rep.rule('caught', 'the dispatchers answer every exception', 1)
    rep.rule('mapped', 'page exceptions become their status codes', 4)
    rep.rule('override', 'a responder that overrides another one takes '
             'the same arguments', 4)
    funcs = scope(repo)
    names, direct, returned = responders(repo, funcs)
    chk = Respond(rep, repo, names)
    chk.page_errors = [c for c in (
        repo.cls('wsgi.' + n) for n in Mapping.CODES) if c is not None]
    n = 0
    for f in funcs:
        if f.short == 'wsgi.WSGIContext.add_header':
            continue
        if helpers_only(repo, chk, f):
            continue
        cs = call_names(f)
        member = direct[f] or f.name in STARTERS and (
            cs & set(STARTERS)) or (f.name in names and (
                returned[f] & names or any(
                    isinstance(x, ast.Call) and unknown_app(x, f)
                    for x in walk_own(f.node))))
        if not member:
            continue
        run_func(repo, chk, f)
        n += 1
    chk.flush()
    rep.part(overrides, repo, rep, funcs, names)
    rep.stats['responders'] = n
    f = repo.func('wsgi.WSGIApp.__call__')
    if f is None:
        raise AnalysisError('WSGIApp.__call__ has gone')
    m = Mapping(rep, repo, chk.page_errors)
    run_func(repo, m, f)
    m.flush()
