"""C05: OData GET and HEAD requests never modify data"""

import ast
import re

from ..effects import AV, Reach, TOP, const, hint, inst
from ..repo import AnalysisError, Class, walk_own

DML = re.compile(
    r'^\s*(INSERT|UPDATE|DELETE|DROP|CREATE|ALTER|REPLACE|TRUNCATE|MERGE)\b')
MODULES = ('odata2', 'blockstore', 'mysqldbds', 'rfc5023')
STORES = ('odata2.memds.InMemoryEntityStore',
          'odata2.memds.InMemoryAssociationIndex')
GROW = {'add', 'remove', 'pop', 'clear', 'update', 'append', 'discard',
        'setdefault', 'popitem', 'extend', 'insert', 'appendleft',
        'difference_update', 'intersection_update', '__setitem__',
        '__delitem__'}
# the write half of the data access API
WRITES = {
    'odata2.csdl.EntityCollection': (
        'insert_entity', 'update_entity', '__delitem__', '__setitem__',
        'update_bindings', 'clear', 'pop', 'popitem', 'bigclear',
        'update', 'setdefault'),
    'odata2.csdl.NavigationCollection': ('replace',),
    'odata2.core.EntityCollection': ('new_stream', 'update_stream'),
    'odata2.csdl.Entity': ('commit', 'delete', 'update'),
    'odata2.csdl.DeferredValue': ('update_bindings',),
    'blockstore.StreamStore': ('new_stream', 'delete_stream',
                               'store_block', 'update_block',
                               'delete_blocks'),
    'blockstore.BlockStore': ('store', 'delete'),
}


def base_of(t):
    """The name an attribute or item chain starts at and its depth"""
    n = 0
    while isinstance(t, (ast.Attribute, ast.Subscript)):
        t = t.value
        n += 1
    return t.id if isinstance(t, ast.Name) else None, n


class Data(object):

    """Which functions are writes"""

    def __init__(self, repo, mods):
        self.repo = repo
        self.prim = {}          # id(func node) -> reason
        for f in repo.funcs.values():
            if f.module in mods:
                w = self.sql(f)
                if w:
                    self.prim[id(f.node)] = w
        for q in STORES:
            c = repo.cls(q)
            for k in [c] + list(repo.subclasses.get(c.qual, ())):
                for n, f in k.methods.items():
                    if n == '__init__':
                        continue
                    w = self.store(f)
                    if w:
                        self.prim.setdefault(id(f.node), w)
        self.names = set()
        for q, ns in WRITES.items():
            c = repo.cls(q)
            for n in ns:
                fs = [f for k in self.below(c) + list(repo.mro(c))
                      if isinstance(k, Class)
                      for f in [k.methods.get(n)] if f is not None]
                for f in fs:
                    if f.module in mods and (
                            f.cls is c or repo.is_subclass(
                                f.cls, c.qual)):
                        self.prim.setdefault(
                            id(f.node), '%s.%s modifies data' % (
                                f.cls.name, n))

    def below(self, c):
        out = [c]
        for k in out:
            for s in self.repo.subclasses.get(k.qual, ()):
                if s not in out:
                    out.append(s)
        return out

    def sql(self, f):
        if not any(m in f.module.name for m in ('sqlds', 'mysqldbds')):
            return None
        doc = f.node.body[0] if isinstance(f.node.body, list) else None
        for n in walk_own(f.node):
            if isinstance(n, ast.Constant) and isinstance(
                    n.value, str) and DML.match(n.value) and not (
                    isinstance(doc, ast.Expr) and doc.value is n):
                return 'builds %s' % n.value.strip().split('(')[0][:30]
        return None

    def store(self, f):
        if not f.params():
            return None
        me = f.params()[0]
        # local names for parts of the store
        alias = {me}
        for n in walk_own(f.node):
            if isinstance(n, ast.Assign) and isinstance(
                    n.value, (ast.Attribute, ast.Subscript)) and \
                    base_of(n.value)[0] == me:
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        alias.add(t.id)
        for n in walk_own(f.node):
            if isinstance(n, (ast.Attribute, ast.Subscript)) and \
                    isinstance(n.ctx, (ast.Store, ast.Del)):
                b, d = base_of(n)
                if b in alias:
                    return 'stores to %s' % ast.unparse(n)
            if isinstance(n, ast.Call) and isinstance(
                    n.func, ast.Attribute) and n.func.attr in GROW:
                b, d = base_of(n.func)
                if b in alias and (b != me or d > 1):
                    return 'calls %s' % ast.unparse(n.func)
        return None


class Get(Reach):

    """Follows a request; writes that are reached are recorded"""

    def __init__(self, repo, mods, data, method):
        Reach.__init__(self, repo, mods)
        self.data = data
        self.method = method
        self.found = {}
        self.coll = repo.cls('odata2.csdl.EntityCollection')
        self.entity = repo.cls('odata2.csdl.Entity')
        self.trans = repo.cls('odata2.sqlds.SQLTransaction')
        self.seen_calls = {}

    def subscript(self, ctx, base, idx, node):
        if any(i[0] == 'env' for i in base.items):
            k = idx.only()
            if k and k[0] == 'REQUEST_METHOD':
                return const(self.method)
            return TOP
        if any(self.repo.is_subclass(c, self.coll.qual)
               for c in base.classes()):
            for c in base.classes():
                for f in self.family(c, '__getitem__'):
                    self.visit(f, self.owner(c, f), {
                        f.params()[0]: inst(self.owner(c, f))}, ctx, node)
            return hint(self.entity)
        return None

    def attribute(self, ctx, base, name, node):
        if any(i[0] == 'env' for i in base.items):
            return AV([('em', name)])
        return None

    def sub_store(self, ctx, recv, node, delete):
        if any(i[0] == 'env' for i in recv.items):
            k = self.ev(node.slice, {}, ctx).only() if isinstance(
                node.slice, ast.Constant) else None
            if k is None or k[0] == 'REQUEST_METHOD':
                self.hit(ctx, node, 'the request method is replaced')
            return True
        return None

    def call(self, ctx, name, targets, recv, args, kw, node):
        if recv is not None and any(i[0] == 'env' for i in recv.items):
            k = args[0].only() if args else None
            if name in ('get', '__getitem__') and k and \
                    k[0] == 'REQUEST_METHOD':
                return const(self.method)
            if name in ('update', 'setdefault', 'clear', 'pop'):
                if name != 'setdefault' and not (
                        k and k[0] != 'REQUEST_METHOD'):
                    self.hit(ctx, node, 'the request method is replaced')
            if name == 'copy':
                return recv
            return TOP
        if name == 'dict' and args and any(
                i[0] == 'env' for i in args[0].items):
            return args[0]
        if name == 'open' and recv is not None and not targets and \
                not args and not kw:
            # an entity set or a deferred value
            self.by_name('open', ctx, node)
            return hint(self.coll)
        if name == 'open_stream':
            mode = args[1] if len(args) > 1 else kw.get('mode')
            c = mode.consts() if mode is not None else ['r']
            if c is None or any(not isinstance(x, str) or
                                set(x) - set('rb') for x in c):
                self.hit(ctx, node, 'a stream is opened for writing')
            return TOP
        if name == 'commit' and not targets and ctx.func.cls is not None \
                and self.repo.is_subclass(ctx.func.cls, self.trans.qual):
            # of the connection: what was executed has been looked at
            return TOP
        if name == 'execute' and not targets and len(args) == 1:
            # a function of the application
            return hint(self.coll)
        return None

    def by_name(self, name, ctx, node):
        for f in self.byname.get(name, ()):
            self.visit(f, f.cls, {f.params()[0]: inst(f.cls)}, ctx, node)

    def visit(self, f, cls, args, parent, node):
        w = self.data.prim.get(id(f.node))
        if w:
            self.hit(parent, node, '%s, which %s' % (f.short, w), f)
            return TOP
        if f.module in self.modules:
            self.seen_calls.setdefault(f.qual, f)
        return Reach.visit(self, f, cls, args, parent, node)

    def hit(self, ctx, node, what, f=None):
        where = '%s:%s' % (ctx.func.module.rel, getattr(
            node, 'lineno', '?')) if ctx is not None else '?'
        key = (ctx.func.qual if ctx is not None else '', what)
        if key not in self.found:
            self.found[key] = (where, ctx.chain() if ctx else [], what)

    def passed(self, v):
        """Functions are looked at once for each method and mode, not
        for every constant"""
        keep = [i for i in v.items if i[0] in ('k', 'env', 't', 'b', 'f')
                or (i[0] == 'c' and isinstance(i[1][1], str) and
                    (i[1][1].lower() == self.method.lower() or
                     len(i[1][1]) <= 2))
                or (i[0] == 'c' and isinstance(i[1][1], (bool,
                                                         type(None))))]
        return AV(keep, v.rest or len(keep) != len(v.items))


class Trap(Get):

    """Notes calls of the handler of the class above"""

    def __init__(self, repo, mods, data, method, upper):
        Get.__init__(self, repo, mods, data, method)
        self.upper = upper
        self.passed_on = []
        self.errors = 0

    def visit(self, f, cls, args, parent, node):
        if f in self.upper:
            self.passed_on.append((parent, node, args, f))
            return TOP
        return Get.visit(self, f, cls, args, parent, node)


ENV = AV([('env', 0)])


def run(repo, rep):
    mods = [m for n, m in repo.modules.items()
            if any(n == 'pyslet.' + x or n.startswith('pyslet.' + x + '.')
                   for x in MODULES)]
    rep.rule('read', 'a GET or HEAD request reaches no operation that '
             'changes stored data', 200)
    rep.rule('content', 'producing the content of a response changes no '
             'stored data', 10)
    rep.rule('filter', 'a read-only server passes on GET and HEAD and '
             'nothing else', 10)
    rep.rule('writes', 'operations that change data are recognised', 30)
    data = Data(repo, mods)
    for f in repo.funcs.values():
        if id(f.node) in data.prim:
            rep.ok('writes', f.short)
    server = repo.cls('odata2.server.Server')
    rep.part(reads, repo, rep, mods, data, server)
    rep.part(content, repo, rep, mods, data)
    rep.part(read_only, repo, rep, mods, data, server)


def handlers(repo, server):
    """Classes of servers in the package"""
    out = [server]
    for k in out:
        out += [s for s in repo.subclasses.get(k.qual, ())
                if s not in out]
    return out


def start(g, repo, c, name):
    f = repo.find_method(c, name)
    args = {f.params()[0]: inst(c)}
    for p in f.params()[1:]:
        if p.startswith('environ'):
            args[p] = ENV
    if ENV not in args.values():
        args[f.params()[1 if name == '__call__' else 2]] = ENV
    g.root(f, c, args)
    return f


def report(rep, rule, g, label):
    bad = set()
    for (q, what), (where, chain, text) in sorted(g.found.items()):
        bad.add(q)
        rep.bad(rule, '%s:%s:%s' % (label, q.replace('pyslet.', ''), what),
                '%s reaches %s' % (label, text), where, chain)
    for q, f in g.seen_calls.items():
        if q not in bad:
            rep.ok(rule, '%s:%s' % (label, f.short))
        rep.funcs.add(q)


def reads(repo, rep, mods, data, server):
    n = 0
    for c in handlers(repo, server):
        for method in ('GET', 'HEAD', 'get'):
            g = Get(repo, mods, data, method)
            start(g, repo, c, '__call__')
            report(rep, 'read', g, '%s %s' % (c.name, method))
            n += g.ncalls
            # the handlers must have been found at all
            rep.require(any(f.name == 'handle_request'
                            for f in g.seen_calls.values()),
                        '%s %s is not dispatched' % (c.name, method))
    rep.stats['calls followed'] = n


def content(repo, rep, mods, data):
    """Elements and entities write themselves after the handler"""
    g = Get(repo, mods, data, 'GET')
    for c in repo.classes.values():
        if c.module not in mods or 'odata2' not in c.module.name or \
                c.module.name.endswith('.client'):
            continue
        for name, f in sorted(c.methods.items()):
            if name == 'get_children' or name.startswith('generate_') or \
                    name in ('__unicode__', '__str__', '__bytes__',
                             'itervalues', 'iterpage', '__len__',
                             'entity_generator', 'page_generator',
                             'read_stream', 'read_stream_close',
                             'close', '__getitem__', '__iter__',
                             'set_filter', 'set_orderby', 'set_page',
                             'set_expand', 'select_keys',
                             'get_next_page_location'):
                if id(f.node) in data.prim:
                    rep.bad('content', f.short, '%s %s' % (
                        f.short, data.prim[id(f.node)]), f.where)
                    continue
                g.root(f, c, {f.params()[0]: inst(c)})
    report(rep, 'content', g, 'content')


def read_only(repo, rep, mods, data, server):
    ro = repo.cls('odata2.server.ReadOnlyServer')
    for c in [ro] + list(repo.subclasses.get(ro.qual, ())):
        upper = [f for f in [repo.find_method(server, 'handle_request')]
                 if f is not None]
        for method in ('GET', 'HEAD'):
            g = Trap(repo, mods, data, method, upper)
            start(g, repo, c, 'handle_request')
            rep.check(bool(g.passed_on), 'filter',
                      '%s:%s' % (c.name, method),
                      '%s does not pass on %s' % (c.name, method),
                      c.where if hasattr(c, 'where') else c.module.rel)
            for ctx, node, args, f in g.passed_on:
                rep.check(any(ENV == v for v in args.values()), 'filter',
                          '%s:%s:environ' % (c.name, method),
                          'the request is passed on with another '
                          'environment',
                          '%s:%s' % (ctx.func.module.rel, node.lineno))
        for method in ('POST', 'PUT', 'DELETE', 'MERGE', 'PATCH',
                       'OPTIONS', 'TRACE', 'GETS', 'XGET', 'HEADER', '',
                       'G', 'post', 'delete'):
            g = Trap(repo, mods, data, method, upper)
            start(g, repo, c, '__call__')
            where = ['%s:%s' % (ctx.func.module.rel, node.lineno)
                     for ctx, node, args, f in g.passed_on]
            rep.check(not g.passed_on, 'filter',
                      '%s:%s' % (c.name, method),
                      '%s passes on %r' % (c.name, method),
                      where[0] if where else None)
            bad = sorted(g.found.items())
            rep.check(not bad, 'filter', '%s:%s:data' % (c.name, method),
                      '%s: %r reaches %s' % (
                          c.name, method, bad[0][1][2] if bad else ''),
                      bad[0][1][0] if bad else None,
                      bad[0][1][1] if bad else None)
