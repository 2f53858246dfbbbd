"""C09: no open redirects, no unescaped request text in HTML pages"""

import ast
import re

from ..guards import (EventCheck, PLAIN, facts_eq, family, flows, has,
                      is_attr, is_call, knows, parts, strip)
from ..interp import NONE, T, is_const
from ..repo import AnalysisError, Class, Ext, Func, walk_own
from ..rulebase import helpers_only, run_func, where_of

REQUEST = ('get_query', 'get_form', 'get_form_string', 'get_form_long',
           'get_content', 'get_cookies')
ESCAPES = ('escape_char_data7', 'escape_char_data')
RELATIVE = re.compile(r'^[A-Za-z0-9_][A-Za-z0-9_./-]*[/?#]')
HOLE = re.compile(r'%(?:\((\w+)\))?[#0\- +]*(?:\d+|\*)?(?:\.\d+)?'
                  r'([diouxXeEfFgGcrsab%])')


def request_term(t):
    if is_call(t, *REQUEST):
        return True
    if is_attr(t, 'environ'):
        return True
    return False


def leftmost(t):
    while True:
        t = strip(t)
        if t.op == 'bin' and t.args[0] in ('Add', 'Mod'):
            t = t.args[1]
        elif t.op == 'fmt':
            xs = [x for x in t.args if isinstance(x, T)]
            if not xs:
                return t
            t = xs[0]
        else:
            return t


def relative(t):
    """An address below the application root by construction"""
    t = strip(t)
    if is_call(t, 'resolve') and t.args[2] is not None and t.args[3]:
        base = strip(t.args[3][0])
        if not is_call(base, 'get_app_root', 'get_url'):
            return False
        ref = strip(t.args[2])
        if is_call(ref, 'from_octets', 'URI') and ref.args[3]:
            ref = ref.args[3][0]
        ref = strip(ref)
        if ref.op == 'const':
            return isinstance(ref.args[0], str) and \
                ':' not in ref.args[0].split('/')[0] and \
                not ref.args[0].startswith('/')
        first = leftmost(ref)
        return first.op == 'const' and isinstance(
            first.args[0], str) and bool(RELATIVE.match(
                first.args[0].split('%')[0]))
    return is_call(t, 'get_app_root', 'get_url')


class Html(object):

    """Which values of a formatted page are escaped"""

    def __init__(self, stored=()):
        self.why = ''
        self.stored = stored

    def ok(self, t, attr=False, trusted=()):
        t = strip(t)
        if t in trusted:
            return True
        if t.op == 'const':
            return True
        if is_call(t, *ESCAPES):
            q = t.args[3][1] if len(t.args[3]) > 1 else dict(
                t.args[4]).get('quote')
            quoted = q is not None and is_const(q, True)
            if attr and not quoted:
                self.why = "text in an attribute is escaped but not quoted"
                return False
            return True
        if is_call(t, 'render_template', 'len', 'int'):
            return True
        if t.op == 'bin' and t.args[0] == 'Add':
            a = self.ok(t.args[1], False, trusted)
            last = strip(t.args[1])
            inattr = last.op == 'const' and isinstance(
                last.args[0], str) and self.inattr(last.args[0])
            return a and self.ok(t.args[2], inattr, trusted)
        if t.op == 'bin' and t.args[0] == 'Mod':
            return self.template(t, trusted)
        if t.op == 'fmt':
            text, good = '', True
            for x in t.args[0]:
                if x.op == 'const':
                    text += str(x.args[0])
                else:
                    good = self.ok(x, self.inattr(text), trusted) and good
                    text += 'x'
            return good
        if is_call(t, 'join') and t.args[3]:
            x = t.args[3][0]
            return x.op in ('list', 'tuple') and all(
                self.ok(y, False, trusted) for y in x.args[0])
        self.why = self.why or "text is put in the page unescaped"
        return False

    def inattr(self, text):
        """Is the end of text inside a tag, at an attribute value"""
        tag = text.rfind('<') > text.rfind('>')
        return tag

    def template(self, t, trusted):
        f = strip(t.args[1])
        if f.op != 'const' or not isinstance(f.args[0], str):
            self.why = "the page template is not a constant"
            return False
        text = f.args[0]
        vals = t.args[2]
        good = True
        n = 0
        for m in HOLE.finditer(text):
            if m.group(2) == '%':
                continue
            if m.group(2) in 'diouxXeEfFgG':
                n += 1
                continue
            before = text[:m.start()]
            inattr = self.inattr(before)
            if m.group(1):
                v = None
                if vals.op == 'dict':
                    for k, x in self.items(vals):
                        if is_const(k, m.group(1)):
                            v = x
            elif vals.op == 'tuple':
                v = vals.args[0][n] if n < len(vals.args[0]) else None
            else:
                v = vals
            n += 1
            if v is None:
                self.why = "the value of a place in the page is not known"
                good = False
            elif inattr and before.rstrip()[-1:] in '"\'' and not \
                    strip(v).op == 'const':
                # the template supplies the quotes
                if not self.ok(v, False, trusted):
                    good = False
                else:
                    self.why = ("text between quotes of the template may "
                                "hold a quote")
                    good = False
            elif not self.ok(v, inattr, trusted):
                good = False
        return good

    def items(self, d):
        out = dict(zip(d.args[0], d.args[1]))
        for e in self.stored:
            if e[0] == 'item' and e[1] is d:
                out[e[2]] = e[3]
        return out.items()


class Redirect(EventCheck):

    def __init__(self, rep, repo):
        EventCheck.__init__(self, rep)
        self.repo = repo

    def call(self, it, st, ci):
        f = self.func
        if ci.name == 'check_redirect':
            return None
        if ci.name == 'redirect_page':
            loc = ci.arg(1, 'location')
            if loc is not None:
                self.target(it, st, ci, loc, ci.name)
        if ci.name == 'add_header' and ci.args and is_const(
                ci.args[0], 'Location') and len(ci.args) > 1:
            loc = strip(ci.args[1])
            if not (f.name == 'redirect_page' and
                    loc is T('param', 'location')):
                self.target(it, st, ci, loc, ci.name)
        if ci.name == 'html_response' and len(ci.args) > 1:
            self.html(st, ci.args[1], ci.where)
        return None

    def target(self, it, st, ci, loc, name):
        inst = "%s:%s" % (self.func.short, name)
        loc = strip(loc)
        if relative(loc) or flows(loc, request_term, relative) is None and \
                loc.op != 'param':
            self.note('redirect', inst + ':own', True)
            return
        chk = any(p is True and is_call(t, 'check_redirect') and
                  any(strip(a) is loc for a in t.args[3])
                  for t, p in st.facts.items())
        self.note('redirect', inst + ':origin', chk,
                  "a redirect goes to an address from the request that was "
                  "not checked to be in this application", ci.where,
                  st.trace)
        sig = any(m is not NONE and loc in parts(m)
                  for _, s, m in self.events(st, 'sig'))
        self.note('redirect', inst + ':signature', sig,
                  "a redirect goes to an address from the request that is "
                  "not covered by a checked signature", ci.where, st.trace)

    def after_call(self, it, st, ci, term):
        if ci.name == 'check_signature' and ci.args:
            return self.put(st, ('sig', ci.args[0],
                                 ci.arg(1, 'message', NONE)))
        if ci.name == 'add_header' and len(ci.args) > 1 and is_const(
                ci.args[0], 'Content-Type') and \
                ci.args[1].op == 'const' and \
                str(ci.args[1].args[0]).startswith('text/html'):
            return self.put(st, ('html',))
        return st

    def html(self, st, data, where):
        h = Html(st.auto or ())
        ok = h.ok(data)
        self.note('escape', self.func.short, ok,
                  "an HTML page holds text that is not escaped: " + h.why,
                  where)

    def sub_store(self, it, st, base, idx, value, node, fr):
        if base.op == 'dict' and idx is not None and idx.op == 'const':
            st = self.put(st, ('item', base, idx, value))
        if idx is not None and idx.op == 'const' and isinstance(
                idx.args[0], str) and (
                    idx.args[0].endswith('_attr') or idx.args[0] in (
                        'msg', 'location')) and is_call(
                    strip(base), 'new_context_dictionary',
                    'new_page_context'):
            h = Html()
            ok = h.ok(value, idx.args[0].endswith('_attr'))
            self.note('escape', "%s:%s" % (self.func.short, idx.args[0]),
                      ok, "a template value is not escaped: " + h.why,
                      where_of(fr, node))
        return st

    def func_exit(self, it, st, func, kind, payload, fr):
        if kind == 'raise' or payload is None:
            return
        if ('html',) in (st.auto or ()) and payload.op == 'list' and \
                func.name != 'html_response':
            for x in payload.args[0]:
                self.html(st, x, "%s:%s" % (func.module.rel,
                                            func.node.lineno))


class Origin(EventCheck):

    """check_redirect"""

    def func_exit(self, it, st, func, kind, payload, fr):
        if kind == 'raise' or payload is None or is_const(payload) and \
                not payload.args[0]:
            return
        arg = T('param', func.params()[2])

        def target(t):
            return is_call(t, 'get_canonical_root') and \
                t.args[2] is not None and (
                    has(t.args[2], lambda x: x is arg) or
                    t.args[2].op == 'phi')

        def own(t):
            return is_call(t, 'get_canonical_root') and \
                t.args[2] is not None and is_call(
                    strip(t.args[2]), 'get_app_root')

        if payload.op == 'cmp' and payload.args[0] == '==':
            a, b = payload.args[1:]
            ok = (target(a) and own(b)) or (target(b) and own(a))
        else:
            ok = any((target(a) and own(b)) or (target(b) and own(a))
                     for a, b in facts_eq(st))
        self.note('origin', func.short, ok, "an address is reported as safe "
                  "although its scheme, host and port did not have to be "
                  "those of this application",
                  "%s:%s" % (func.module.rel, func.node.lineno), st.trace)
        self.note('origin', func.short + ':whole', not (
            payload.op == 'cmp' and payload.args[0] != '=='), "")


def run(repo, rep):
    rep.rule('redirect', 'a redirect whose address comes from the request '
             'is sent only after check_redirect and a signature check that '
             'covers it; others are relative to the application root', 4)
    rep.rule('origin', 'check_redirect only accepts an address whose '
             'canonical root equals that of the application', 1)
    rep.rule('escape', 'every value put in an HTML page is escaped, and '
             'quoted when it is an attribute', 3)
    chk = Redirect(rep, repo)
    apps = family(repo, 'wsgi.WSGIApp')
    mods = {c.module for c in apps}
    for f in sorted(repo.funcs.values(), key=lambda f: f.qual):
        if isinstance(f.node, ast.Lambda) or f.module not in mods:
            continue
        if helpers_only(repo, chk, f) or f.outer is not None:
            continue
        text = {x.attr for x in walk_own(f.node)
                if isinstance(x, ast.Attribute)}
        if text & {'redirect_page', 'html_response', 'add_header',
                   'render_template'} or any(
                isinstance(x, ast.Call) and isinstance(
                    x.func, ast.Attribute) and chk.is_new(g)
                for x in walk_own(f.node)
                for g in repo.method_index.get(getattr(
                    getattr(x, 'func', None), 'attr', ''), ())):
            run_func(repo, chk, f)
    chk.flush()
    o = Origin(rep)
    for c in apps:
        f = c.methods.get('check_redirect')
        if f is not None:
            run_func(repo, o, f)
    o.flush()
