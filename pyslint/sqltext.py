"""Which texts are made from constants, quoted names and placeholders only

A flow-insensitive deny-by-default analysis of a set of modules.  A value is
safe when every text inside it (to any depth) is safe.  A selector names a
part of a value: 'v' the elements of a list or the values of a mapping, 'k'
the keys of a mapping and an int one item of a tuple.  Parameters are safe
when every call passes safe arguments, attributes when every assignment is,
calls when everything the functions of that name return is."""

import ast
import re

from .repo import Func, walk_own

PASS = {'list', 'tuple', 'sorted', 'reversed', 'set', 'iter', 'str',
        'to_text', 'dict', 'frozenset', 'unicode', 'force_text', 'copy'}
NUMBER = {'len', 'int', 'float', 'range', 'range3', 'abs', 'bool', 'hash',
          'isinstance', 'round', 'time', 'count', 'is_selected'}
METHODS = {'upper', 'lower', 'strip', 'lstrip', 'rstrip', 'title', 'copy',
           'capitalize', 'encode', 'decode', 'ljust', 'rjust', 'splitlines',
           'split', 'rsplit', 'partition', 'rpartition', 'pop', 'popitem'}
# attributes of the data model and of requests
DATA = {'value', 'skiptoken', 'params', 'name', 'filter', 'location'}
SPEC = re.compile(r'%(?:\((\w+)\))?[#0\- +]*(?:\d+|\*)?(?:\.\d+)?([a-zA-Z%])')


class Why(object):

    def __init__(self, fn, node, text, soft=False):
        self.soft = soft     # not understood, rather than known unsafe
        self.fn = fn
        self.node = node
        self.text = text
        self.chain = []

    def where(self):
        return '%s:%s' % (self.fn.module.rel if self.fn is not None else '?',
                          getattr(self.node, 'lineno', '?'))


class SqlText(object):

    def __init__(self, repo, modules, trusted, untrusted=()):
        self.untrusted = untrusted
        self.repo = repo
        self.modules = modules
        self.trusted = trusted
        self.funcs = {}
        self.all = []
        for f in repo.funcs.values():
            if f.module in modules:
                self.funcs.setdefault(f.name, []).append(f)
                self.all.append(f)
        self.classes = {c.name: c for c in repo.classes.values()
                        if c.module in modules}
        self.calls = {}
        self.attrs = {}
        self.muts = {}
        self.known_safe = set()
        self.chosen = set()
        self.count = 0
        for f in self.all:
            for n in walk_own(f.node):
                if isinstance(n, ast.Call):
                    name = n.func.attr if isinstance(
                        n.func, ast.Attribute) else n.func.id if isinstance(
                            n.func, ast.Name) else None
                    if name:
                        self.calls.setdefault(name, []).append((n, f))
                        if isinstance(n.func, ast.Attribute) and \
                                isinstance(n.func.value, ast.Attribute):
                            self.muts.setdefault(
                                n.func.value.attr, []).append((n, f))
                targets = []
                if isinstance(n, ast.Assign):
                    targets = [(t, n.value) for t in n.targets]
                elif isinstance(n, (ast.AugAssign, ast.AnnAssign)) and \
                        n.value is not None:
                    targets = [(n.target, n.value)]
                for t, v in targets:
                    self.attr_target(t, v, (), f)
        for m in modules:
            for n in m.tree.body:
                if isinstance(n, ast.Assign):
                    for t in n.targets:
                        if isinstance(t, ast.Attribute) and isinstance(
                                t.value, ast.Name):
                            self.attrs.setdefault(t.attr, []).append((
                                n.value, (), None,
                                self.classes.get(t.value.id)))
        for c in self.classes.values():
            for a, vs in c.attrs.items():
                for v in vs:
                    if isinstance(v, ast.AST):
                        self.attrs.setdefault(a, []).append(
                            (v, (), None, c))

    def attr_target(self, t, v, sel, f):
        if isinstance(t, (ast.Tuple, ast.List)):
            for i, x in enumerate(t.elts):
                self.attr_target(x, v, sel + (i,), f)
        elif isinstance(t, ast.Attribute):
            self.attrs.setdefault(t.attr, []).append((v, sel, f, f.cls))
        elif isinstance(t, ast.Subscript) and isinstance(
                t.value, ast.Attribute):
            self.attrs.setdefault(t.value.attr, []).append(
                (v, ('=', t.slice) + sel, f, f.cls))

    # ---- queries -----------------------------------------------------
    def judge(self, e, fn, sel=()):
        """None if safe, else a Why"""
        self.visited = set()
        self.consts = set()
        r = self.safe(e, sel, fn)
        if r is None:
            self.known_safe |= self.visited
        return r

    def safe(self, e, sel, fn):
        key = (id(e), sel, id(fn))
        if key in self.known_safe or key in self.visited:
            return None
        self.visited.add(key)
        self.count += 1
        m = getattr(self, 'x_' + type(e).__name__, None)
        if m is None:
            return Why(fn, e, "a %s" % type(e).__name__, True)
        r = m(e, sel, fn)
        if r is not None and len(r.chain) < 12:
            r.chain.append('%s:%s %s' % (
                fn.module.rel if fn is not None else '',
                getattr(e, 'lineno', ''), ast.unparse(e)[:70]))
        return r

    def every(self, items, fn):
        for e, sel in items:
            r = self.safe(e, sel, fn)
            if r is not None:
                return r
        return None

    def x_Constant(self, e, sel, fn):
        if isinstance(e.value, str):
            self.consts.add(e.value)
        return None

    def x_Compare(self, e, sel, fn):
        return None

    def x_Lambda(self, e, sel, fn):
        return self.safe(e.body, sel, fn)

    def x_UnaryOp(self, e, sel, fn):
        return None

    def x_Starred(self, e, sel, fn):
        return self.safe(e.value, ('v',) + sel, fn)

    def x_Yield(self, e, sel, fn):
        return Why(fn, e, "a value sent to a generator", True)

    def x_IfExp(self, e, sel, fn):
        return self.every([(e.body, sel), (e.orelse, sel)], fn)

    def x_BoolOp(self, e, sel, fn):
        return self.every([(v, sel) for v in e.values], fn)

    def x_NamedExpr(self, e, sel, fn):
        return self.safe(e.value, sel, fn)

    def x_JoinedStr(self, e, sel, fn):
        return self.every([(v.value, ()) for v in e.values
                           if isinstance(v, ast.FormattedValue) and not (
                               v.format_spec is not None and
                               re.search(r'[difeg]$', ast.unparse(
                                   v.format_spec).strip("f'\"")))], fn)

    def x_Tuple(self, e, sel, fn):
        if sel and isinstance(sel[0], int):
            if any(isinstance(x, ast.Starred) for x in e.elts):
                return self.every([(x, sel[1:]) for x in e.elts], fn)
            if -len(e.elts) <= sel[0] < len(e.elts):
                return self.safe(e.elts[sel[0]], sel[1:], fn)
            return None
        rest = sel[1:] if sel else ()
        return self.every([(x, rest) for x in e.elts], fn)

    x_List = x_Tuple
    x_Set = x_Tuple

    def x_Dict(self, e, sel, fn):
        items = []
        if not sel or sel[0] == 'k':
            items += [(k, sel[1:]) for k in e.keys if k is not None]
        if not sel or sel[0] != 'k':
            items += [(v, sel[1:]) for v in e.values]
        return self.every(items, fn)

    def comp(self, e, sel, fn):
        # the variables of the loop are local variables
        return self.safe(e.elt, sel[1:] if sel else (), fn)

    x_ListComp = x_GeneratorExp = x_SetComp = comp

    def x_DictComp(self, e, sel, fn):
        items = []
        if not sel or sel[0] == 'k':
            items.append((e.key, sel[1:]))
        if not sel or sel[0] != 'k':
            items.append((e.value, sel[1:]))
        return self.every(items, fn)

    def x_BinOp(self, e, sel, fn):
        if isinstance(e.op, ast.Mod):
            return self.format(e, fn)
        if isinstance(e.op, ast.Add):
            return self.every([(e.left, sel), (e.right, sel)], fn)
        if isinstance(e.op, ast.Mult):
            return self.every([(e.left, sel), (e.right, sel)], fn)
        return None

    def format(self, e, fn):
        r = self.safe(e.left, (), fn)
        if r is not None:
            return r
        if not (isinstance(e.left, ast.Constant) and isinstance(
                e.left.value, (str, bytes))):
            # a number or a text with unknown directives
            return self.safe(e.right, (), fn)
        s = e.left.value
        if isinstance(s, bytes):
            s = s.decode('latin-1')
        specs = [(n, c) for n, c in SPEC.findall(s) if c != '%']
        if isinstance(e.right, ast.Tuple):
            items = []
            if any(isinstance(x, ast.Starred) for x in e.right.elts):
                return self.safe(e.right, (), fn)
            for (n, c), x in zip(specs, e.right.elts):
                if c not in 'idufegxoX':
                    items.append((x, ()))
            return self.every(items, fn)
        if all(c in 'idufegxoX' for n, c in specs):
            return None
        if isinstance(e.right, ast.Dict) and any(n for n, c in specs):
            texts = {n for n, c in specs if c not in 'idufegxoX'}
            return self.every(
                [(v, ()) for k, v in zip(e.right.keys, e.right.values)
                 if not isinstance(k, ast.Constant) or k.value in texts],
                fn)
        return self.safe(e.right, (), fn)

    def x_Subscript(self, e, sel, fn):
        i = e.slice
        if isinstance(i, ast.Slice):
            return self.safe(e.value, sel, fn)
        if isinstance(i, ast.UnaryOp) and isinstance(i.operand,
                                                     ast.Constant):
            i = ast.Constant(value=-i.operand.value)
        if isinstance(i, ast.Constant) and isinstance(i.value, int):
            return self.safe(e.value, (i.value,) + sel, fn)
        return self.safe(e.value, ('v',) + sel, fn)

    # ---- names -------------------------------------------------------
    def params(self, fn):
        a = fn.node.args
        return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs] + (
            [a.vararg.arg] if a.vararg else []) + (
            [a.kwarg.arg] if a.kwarg else [])

    def x_Name(self, e, sel, fn):
        return self.name(e.id, sel, fn, e)

    def name(self, name, sel, fn, node):
        key = ('name', name, sel, id(fn))
        if key in self.visited or key in self.known_safe:
            return None
        self.visited.add(key)
        if fn is None:
            return Why(fn, node, "the global name %s" % name)
        defs = self.defs(fn).get(name)
        isparam = name in self.params(fn)
        if defs is None and not isparam:
            if fn.outer is not None:
                return self.name(name, sel, fn.outer, node)
            return self.glob(name, sel, fn, node)
        if isparam:
            r = self.param(fn, name, sel, node)
            if r is not None:
                return r
        for v, s, extra in defs or ():
            # v is bound at name + s
            r = self.bound(v, s, extra, sel, fn)
            if r is not None:
                return r
        return None

    def bound(self, v, path, kind, sel, fn):
        """The value at path of v is bound to name (kind '=') or added to
        it (kind '+')"""
        if kind == '=':
            return self.safe(v, path + sel, fn)
        if kind == '+':
            # an element was added
            if sel and sel[0] == 'k':
                return None
            return self.safe(v, path + (sel[1:] if sel else ()), fn)
        if kind == 'k':
            if sel and sel[0] != 'k':
                return None
            return self.safe(v, path + (sel[1:] if sel else ()), fn)
        if kind == 'e':
            # all elements were added
            return self.safe(v, path + sel, fn)
        if kind == 'p':
            # passed to a function that may change it
            g, p = v
            key = ('mut', g.qual, p, sel)
            if key in self.visited or key in self.known_safe:
                return None
            self.visited.add(key)
            for v2, s2, k2 in self.defs(g).get(p, ()):
                if k2 != '=':
                    r = self.bound(v2, s2, k2, sel, g)
                    if r is not None:
                        return r
            return None
        raise ValueError(kind)

    def defs(self, fn):
        d = getattr(fn, '_sql_defs', None)
        if d is not None:
            return d
        d = {}
        fn._sql_defs = d

        def bind(t, v, path):
            if isinstance(t, ast.Name):
                d.setdefault(t.id, []).append((v, path, '='))
            elif isinstance(t, ast.Starred):
                bind(t.value, v, path)
            elif isinstance(t, (ast.Tuple, ast.List)):
                for i, x in enumerate(t.elts):
                    bind(x, v, path + (i,))
            elif isinstance(t, ast.Subscript) and isinstance(
                    t.value, ast.Name):
                d.setdefault(t.value.id, []).append((v, path, '+'))
                if not isinstance(t.slice, ast.Slice):
                    d.setdefault(t.value.id, []).append((t.slice, (), 'k'))

        for n in ast.walk(fn.node):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    bind(t, n.value, ())
            elif isinstance(n, ast.AugAssign):
                if isinstance(n.target, ast.Name):
                    d.setdefault(n.target.id, []).append(
                        (n.value, (), '='))
            elif isinstance(n, ast.AnnAssign) and n.value is not None:
                bind(n.target, n.value, ())
            elif isinstance(n, ast.NamedExpr):
                bind(n.target, n.value, ())
            elif isinstance(n, (ast.For, ast.comprehension)):
                bind(n.target, n.iter, ('v',))
            elif isinstance(n, ast.withitem) and n.optional_vars is not None:
                bind(n.optional_vars, n.context_expr, ())
            elif isinstance(n, ast.ExceptHandler) and n.name:
                d.setdefault(n.name, []).append(
                    (ast.Name(id='$exception'), (), '='))
            elif isinstance(n, ast.Call):
                f = n.func
                if isinstance(f, ast.Attribute) and isinstance(
                        f.value, ast.Name):
                    for v, path, kind in self.mutation(n):
                        d.setdefault(f.value.id, []).append((v, path, kind))
                name = f.attr if isinstance(f, ast.Attribute) else f.id \
                    if isinstance(f, ast.Name) else None
                for g in self.funcs.get(name, ()):
                    for p, a in self.match(n, g):
                        if isinstance(a, ast.Name):
                            d.setdefault(a.id, []).append(
                                ((g, p), (), 'p'))
        return d

    def mutation(self, n):
        name = n.func.attr
        if name in ('append', 'add', 'appendleft') and n.args:
            return [(n.args[0], (), '+')]
        if name == 'insert' and len(n.args) > 1:
            return [(n.args[1], (), '+')]
        if name in ('set_from_value', 'set_from_literal') and n.args:
            return [(n.args[0], (), '=')]
        if name in ('extend', 'update') and n.args:
            return [(n.args[0], (), 'e')]
        if name == 'setdefault' and len(n.args) > 1:
            return [(n.args[1], (), '+'), (n.args[0], (), 'k')]
        return []

    def glob(self, name, sel, fn, node):
        if name in ('True', 'False', 'None'):
            return None
        m = fn.module
        for s in m.tree.body:
            if isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name) and t.id == name:
                        return self.safe(s.value, sel, fn)
        return Why(fn, node, "the name %s" % name)

    def match(self, call, g):
        """Pairs (parameter, argument) of a call"""
        a = g.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        pos = list(call.args)
        f = call.func
        explicit = isinstance(f, ast.Attribute) and isinstance(
            f.value, ast.Name) and f.value.id in self.classes
        decos = [ast.unparse(x) for x in getattr(
            g.node, 'decorator_list', ())]
        if g.cls is not None and 'staticmethod' not in decos and not (
                explicit and 'classmethod' not in decos and
                g.name != f.value.id):
            names = names[1:]
        out = []
        for n, x in zip(names, pos):
            if isinstance(x, ast.Starred):
                break
            out.append((n, x))
        if len(pos) > len(names) and a.vararg:
            out += [(a.vararg.arg, ast.List(elts=[x], ctx=ast.Load()))
                    for x in pos[len(names):]]
        for k in call.keywords:
            if k.arg is not None:
                if k.arg in names or k.arg in [x.arg for x in a.kwonlyargs]:
                    out.append((k.arg, k.value))
        return out

    def default(self, g, p):
        a = g.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        if p in names:
            i = names.index(p) - (len(names) - len(a.defaults))
            return a.defaults[i] if i >= 0 else None
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg == p:
                return d
        return None

    def callers(self, g):
        if g.name == '__init__' and g.cls is not None:
            out = []
            for n, f in self.calls.get('__init__', ()):
                t = n.func.value
                if isinstance(t, ast.Name) and t.id == g.cls.name:
                    out.append((n, f))
                elif isinstance(t, ast.Call) and isinstance(
                        t.func, ast.Name) and t.func.id == 'super' and \
                        f.cls is not None and f.cls is not g.cls and \
                        g.cls in self.repo.mro(f.cls):
                    out.append((n, f))
            for c in self.classes.values():
                if g.cls in self.repo.mro(c) and self.repo.find_method(
                        c, '__init__') is g:
                    out += self.calls.get(c.name, [])
            return out
        return self.calls.get(g.name, [])

    def param(self, g, p, sel, node):
        if g.cls is not None and p == (self.params(g) or [None])[0]:
            return Why(g, node, "the object itself")
        if isinstance(g.node, ast.Lambda):
            return Why(g, node, "a parameter of a lambda", True)
        n = 0
        for call, f in self.callers(g):
            hit = [x for q, x in self.match(call, g) if q == p]
            if hit:
                n += 1
                for x in hit:
                    r = self.safe(x, sel, f)
                    if r is not None:
                        return r
                continue
            if any(isinstance(x, ast.Starred) for x in call.args) or any(
                    k.arg is None for k in call.keywords):
                # passed on as they came: judged where they are written
                n += 1
                continue
        d = self.default(g, p)
        if d is not None:
            return self.safe(d, sel, g)
        if not n:
            return Why(g, node, "the parameter %s of %s" % (p, g.short))
        return None

    # ---- attributes --------------------------------------------------
    def x_Attribute(self, e, sel, fn):
        name = e.attr
        own = None
        if fn is not None:
            c = self.narrowed(e.value, fn)
            if c is not None and not any(
                    x[3] is not None and x[3] in self.repo.mro(c)
                    for x in self.attrs.get(name, ())):
                # set by the constructor of a base class elsewhere
                items = []
                for call, f in self.calls.get(c.name, ()):
                    items += [(a, f) for a in call.args] + [
                        (k.value, f) for k in call.keywords]
                for a, f in items:
                    r = self.safe(a, sel, f)
                    if r is not None:
                        return r
                if items:
                    return None
        if isinstance(e.value, ast.Name) and e.value.id in (
                'self', 'cls') and fn is not None:
            own = fn.cls
        if name in DATA:
            return Why(fn, e, "the attribute %s" % name)
        key = ('attr', name, sel, own.qual if own is not None else None)
        if key in self.visited or key in self.known_safe:
            return None
        self.visited.add(key)
        n = 0
        for v, s, f, c in self.attrs.get(name, ()):
            if own is not None and c is not None and not self.related(
                    own, c):
                continue
            n += 1
            if s and s[0] == '=':
                r = self.bound(v, s[2:], '+', sel, f) or self.bound(
                    s[1], (), 'k', sel, f)
            else:
                r = self.safe(v, s + sel, f)
            if r is not None:
                return r
        for call, f in self.muts.get(name, ()):
            if own is not None and f.cls is not None and not self.related(
                    own, f.cls):
                continue
            for v, path, kind in self.mutation(call):
                r = self.bound(v, path, kind, sel, f)
                if r is not None:
                    return r
            g = call.func.attr
        # an attribute passed to a function that changes its parameter
        if not n:
            return Why(fn, e, "the attribute %s" % name)
        return None

    def narrowed(self, e, fn):
        """The class in the modules that a test shows e to be of"""
        text = ast.unparse(e)
        parents = getattr(fn, '_sql_parents', None)
        if parents is None:
            parents = {}
            for n in ast.walk(fn.node):
                for c in ast.iter_child_nodes(n):
                    parents[c] = n
            fn._sql_parents = parents
        n = e
        while n in parents:
            p = parents[n]
            if isinstance(p, ast.If) and any(n is x for x in p.body) or \
                    isinstance(p, ast.IfExp) and n is p.body:
                tests = p.test.values if isinstance(
                    p.test, ast.BoolOp) and isinstance(
                        p.test.op, ast.And) else [p.test]
                for t in tests:
                    if isinstance(t, ast.Call) and isinstance(
                            t.func, ast.Name) and \
                            t.func.id == 'isinstance' and len(
                                t.args) == 2 and ast.unparse(
                                    t.args[0]) == text:
                        c = t.args[1]
                        name = c.attr if isinstance(
                            c, ast.Attribute) else c.id if isinstance(
                                c, ast.Name) else None
                        if name in self.classes:
                            return self.classes[name]
            n = p
        return None

    def related(self, a, b):
        return a in self.repo.mro(b) or b in self.repo.mro(a) or any(
            a in self.repo.mro(c) and b in self.repo.mro(c)
            for c in self.classes.values())

    # ---- calls -------------------------------------------------------
    def x_Call(self, e, sel, fn):
        f = e.func
        name = f.attr if isinstance(f, ast.Attribute) else f.id if \
            isinstance(f, ast.Name) else None
        if name in self.trusted:
            return None
        if name in self.untrusted:
            return Why(fn, e, "the result of %s()" % name)
        if isinstance(f, ast.Call) and isinstance(f.func, ast.Name) and \
                f.func.id == 'getattr' and len(f.args) > 1:
            return self.selected(e, f.args[1], sel, fn)
        if isinstance(f, ast.Attribute):
            base = f.value
            if name == 'join' and len(e.args) == 1:
                return self.safe(base, (), fn) or self.safe(
                    e.args[0], ('v',), fn)
            if name == 'format':
                return self.safe(base, (), fn) or self.every(
                    [(a, ()) for a in e.args] + [
                        (k.value, ()) for k in e.keywords], fn)
            if name == 'replace':
                return self.every([(base, sel)] + [
                    (a, ()) for a in e.args[1:]], fn)
            if name == 'escape_literal' and e.args:
                return self.safe(e.args[0], (), fn)
            if name in ('items', 'iteritems') and not e.args:
                return self.items(base, sel, fn)
            if name in ('values', 'itervalues') and not e.args:
                return self.safe(base, ('v',) + (sel[1:] if sel else ()),
                                 fn)
            if name in ('keys', 'iterkeys') and not e.args:
                return self.safe(base, ('k',) + (sel[1:] if sel else ()),
                                 fn)
            if name in ('get', 'setdefault') and e.args:
                return self.safe(base, ('v',) + sel, fn) or (
                    self.safe(e.args[1], sel, fn) if len(e.args) > 1
                    else None)
        elif name == 'zip':
            return self.zipped(e, sel, fn)
        elif name == 'enumerate' and e.args:
            if len(sel) > 1 and sel[1] == 0:
                return None
            return self.safe(e.args[0], sel[:1] + sel[2:], fn)
        elif name in ('dict_items',) and e.args:
            return self.items(e.args[0], sel, fn)
        elif name in ('dict_values',) and e.args:
            return self.safe(e.args[0], ('v',) + (sel[1:] if sel else ()),
                             fn)
        elif name in ('dict_keys',) and e.args:
            return self.safe(e.args[0], ('k',) + (sel[1:] if sel else ()),
                             fn)
        elif name == 'map' and len(e.args) > 1:
            return Why(fn, e, "a call of map()", True)
        if name in self.funcs:
            return self.returned(name, e, sel, fn)
        if name in NUMBER or name == 'from_type':
            return None
        if name in self.classes:
            return self.every([(a, ()) for a in e.args] + [
                (k.value, ()) for k in e.keywords], fn)
        if name in PASS:
            return self.every([(a, sel) for a in e.args], fn)
        if name in METHODS and isinstance(f, ast.Attribute):
            return self.safe(f.value, sel, fn)
        if name == 'next' and e.args:
            return self.safe(e.args[0], ('v',) + sel, fn)
        return Why(fn, e, "the result of %s()" % (name or ast.unparse(f)))

    def selected(self, e, which, sel, fn):
        """A call of a method that is chosen by name"""
        names = set()
        todo = [(which, fn)]
        seen = set()
        while todo:
            x, g = todo.pop()
            for n in ast.walk(x):
                if isinstance(n, ast.Constant) and isinstance(
                        n.value, str):
                    names.add(n.value)
                elif isinstance(n, ast.Attribute) and n.attr not in seen:
                    seen.add(n.attr)
                    todo += [(v[0], v[2]) for v in self.attrs.get(
                        n.attr, ())]
                elif isinstance(n, ast.Name) and g is not None and (
                        n.id, g) not in seen:
                    seen.add((n.id, g))
                    todo += [(v[0], g) for v in self.defs(g).get(n.id, ())
                             if isinstance(v[0], ast.AST)]
        full = {n for n in names if n in self.funcs}
        pre = {n for n in names if n.endswith('_') or '%' in n}
        for n in self.funcs:
            if any(n.startswith(x.split('%')[0]) for x in pre
                   if x.split('%')[0]):
                full.add(n)
        if not full:
            return Why(fn, e, "a method chosen by name", True)
        for n in sorted(full):
            self.chosen.add(n)
            r = self.returned(n, ast.Call(func=ast.Attribute(
                value=ast.Name(id='self'), attr=n)), sel, fn)
            if r is not None:
                return r
        return None

    def items(self, base, sel, fn):
        if len(sel) > 1 and sel[1] == 0:
            return self.safe(base, ('k',) + sel[2:], fn)
        if len(sel) > 1 and sel[1] == 1:
            return self.safe(base, ('v',) + sel[2:], fn)
        return self.safe(base, (), fn)

    def zipped(self, e, sel, fn):
        if len(e.args) == 1 and isinstance(e.args[0], ast.Starred):
            x = e.args[0].value
            if sel and isinstance(sel[0], int):
                return self.safe(x, ('v', sel[0]) + (
                    sel[2:] if len(sel) > 1 else ()), fn)
            return self.safe(x, (), fn)
        if len(sel) > 1 and isinstance(sel[1], int) and 0 <= sel[1] < len(
                e.args):
            return self.safe(e.args[sel[1]], ('v',) + sel[2:], fn)
        return self.every([(a, ()) for a in e.args], fn)

    def targets(self, name, e, fn):
        """The functions that a call may reach"""
        fs = self.funcs[name]
        f = e.func
        if isinstance(f, ast.Attribute) and isinstance(
                f.value, ast.Name) and f.value.id == 'self' and \
                fn is not None and fn.cls is not None:
            own = [g for g in fs if g.cls is not None and self.related(
                fn.cls, g.cls)]
            fs = own or fs
        elif isinstance(f, ast.Name):
            fs = [g for g in fs if g.cls is None] or fs
        return fs

    def returned(self, name, e, sel, fn):
        for g in self.targets(name, e, fn):
            r = self.result(g, sel)
            if r is not None:
                return r
        return None

    def result(self, g, sel):
        key = ('ret', g.qual, sel)
        if key in self.visited or key in self.known_safe:
            return None
        self.visited.add(key)
        if isinstance(g.node, ast.Lambda):
            return self.safe(g.node.body, sel, g)
        for n in walk_own(g.node):
            if isinstance(n, ast.Return) and n.value is not None:
                r = self.safe(n.value, sel, g)
            elif isinstance(n, ast.Yield) and n.value is not None:
                r = self.safe(n.value, sel[1:] if sel else (), g)
            elif isinstance(n, ast.YieldFrom):
                r = self.safe(n.value, sel, g)
            else:
                continue
            if r is not None:
                return r
        return None
