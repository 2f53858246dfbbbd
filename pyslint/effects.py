"""What can be reached from a function when some of its arguments are known

An abstract interpreter over sets of known values (constants, instances
of classes, functions).  Tests that are decided by known values prune
the branch that cannot be taken; everything else is followed both ways,
handlers and finally clauses included.  Calls of known functions are
analysed once for each combination of known arguments.
"""

import ast

from .repo import BUILTINS, Class, Const, Ext, Func, ModRef, walk_own

CONSTS = (str, bytes, int, bool, float, type(None))
LIMIT = 12

# names of methods of the built-in containers, strings, files and locks:
# a receiver nothing is known of is taken to be one of those
PLAIN = set(dir(dict)) | set(dir(list)) | set(dir(str)) | set(dir(set)) | \
    set(dir(bytes)) | {
        'close', 'write', 'flush', 'seek', 'read', 'readline', 'tell',
        'acquire', 'release', 'wait', 'notify', 'notify_all', 'set',
        'start', 'run', 'appendleft', 'popleft', 'next', 'debug', 'info',
        'warning', 'error', 'group', 'match', 'unlock', 'lock',
        '__exit__', '__enter__', 'truncate', 'hexdigest', 'digest'}


class AV(object):

    """A set of possible values; rest is True when others are possible"""

    __slots__ = ('items', 'rest')

    def __init__(self, items=(), rest=False):
        items = frozenset(items)
        if len(items) > LIMIT:
            consts = [i for i in items if i[0] == 'c']
            if consts:
                items = items - frozenset(consts)
                rest = True
        self.items = items
        self.rest = rest

    def __eq__(self, other):
        return self.items == other.items and self.rest == other.rest

    def __hash__(self):
        return hash((self.items, self.rest))

    def __or__(self, other):
        return AV(self.items | other.items, self.rest or other.rest)

    def only(self):
        """The constant this is, as a 1-tuple, or None"""
        if not self.rest and len(self.items) == 1:
            i, = self.items
            if i[0] == 'c':
                return (i[1][1],)
        return None

    def consts(self):
        """All values if every one is a constant, or None"""
        if self.rest or not self.items:
            return None
        out = []
        for i in self.items:
            if i[0] != 'c':
                return None
            out.append(i[1][1])
        return out

    def of(self, kind):
        return [i for i in self.items if i[0] == kind]

    def classes(self):
        return [i[1] for i in self.items if i[0] == 'k']


TOP = AV((), True)
NONE = AV()


def const(v):
    try:
        hash(v)
    except TypeError:
        return TOP
    return AV([('c', (type(v).__name__, v))])


def inst(c):
    return AV([('k', c)])


def hint(c):
    return AV([('k', c)], True)


def flat(v):
    """Nested tuples of constants"""
    return isinstance(v, CONSTS) or (
        isinstance(v, (tuple, frozenset)) and all(flat(x) for x in v))


class Ctx(object):

    def __init__(self, func, cls, args, parent, node):
        self.func = func
        self.cls = cls
        self.args = args
        self.parent = parent
        self.node = node

    def chain(self):
        out = []
        c = self
        while c is not None:
            if c.parent is not None:
                out.append('%s (called at %s:%s)' % (
                    c.func.short, c.parent.func.module.rel,
                    getattr(c.node, 'lineno', '?')))
            else:
                out.append(c.func.short)
            c = c.parent
        return out[::-1]


class Stop(Exception):
    pass


class Env(dict):

    live = True

    def fork(self):
        e = Env(self)
        e.live = self.live
        return e

    def merge(self, *others):
        envs = [e for e in (self,) + others if e.live]
        self.live = bool(envs)
        if not envs:
            return
        names = set()
        for e in envs:
            names.update(e)
        new = {}
        for n in names:
            v = NONE
            for e in envs:
                v = v | e.get(n, NONE)
            new[n] = v
        self.clear()
        self.update(new)


class Reach(object):

    """Subclass: effect(ctx, what, node) is told of every call"""

    max_ctx = 30000

    def __init__(self, repo, modules):
        self.repo = repo
        self.modules = set(modules)
        self.memo = {}
        self.busy = set()
        self.byname = {}
        self.attrs = {}
        self.pending = []
        for c in repo.classes.values():
            if c.module not in self.modules:
                continue
            for n, f in c.methods.items():
                self.byname.setdefault(n, []).append(f)
        self.ncalls = 0
        self._attr_stores()

    # ---- to be overridden -------------------------------------------
    def call(self, ctx, name, targets, recv, args, kw, node):
        """None, or the value of the call, which is then not followed"""
        return None

    def sub_store(self, ctx, recv, node, delete):
        return None

    def attribute(self, ctx, base, name, node):
        return None

    def subscript(self, ctx, base, idx, node):
        return None

    # ---- attribute kinds --------------------------------------------
    def _attr_stores(self):
        """Classes of objects stored in attributes, by attribute name"""
        self.stored = set()
        for f in self.repo.funcs.values():
            if f.module not in self.modules:
                continue
            for n in walk_own(f.node):
                if isinstance(n, ast.Attribute) and not isinstance(
                        n.ctx, ast.Load):
                    self.stored.add(n.attr)
                if isinstance(n, ast.Assign) and isinstance(
                        n.value, ast.Call):
                    c = self.repo.resolve_expr(
                        n.value.func, f.module, f.cls, f)
                    if isinstance(c, Class):
                        for t in n.targets:
                            if isinstance(t, ast.Attribute):
                                self.attrs.setdefault(t.attr, set()).add(c)

    # ---- entry -------------------------------------------------------
    def root(self, f, cls=None, args=None, self_value=None):
        args = dict(args or {})
        if f.bound and f.cls is not None and 'self' not in args:
            p = f.params()[0]
            args.setdefault(p, self_value or inst(cls or f.cls))
        v = self.visit(f, cls or f.cls, args, None, None)
        while self.pending:
            todo, self.pending = self.pending, []
            for g, c, a, ctx, node in todo:
                self.visit(g, c, a, ctx, node)
        return v

    def visit(self, f, cls, args, parent, node):
        if f.module not in self.modules:
            return TOP
        key = (f.qual, id(f.node), cls.qual if isinstance(
            cls, Class) else None,
            tuple(sorted(((k, v) for k, v in args.items()),
                         key=lambda kv: kv[0])))
        if key in self.memo:
            return self.memo[key]
        if len(self.memo) > self.max_ctx:
            raise Stop('too many contexts')
        depth = 0
        p = parent
        while p is not None:
            depth += 1
            p = p.parent
        if depth > 60:
            self.pending.append((f, cls, args, parent, node))
            return TOP
        self.memo[key] = TOP        # while it is being analysed
        ctx = Ctx(f, cls, args, parent, node)
        env = Env()
        a = f.node.args
        allp = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        for n in allp:
            env[n] = args.get(n, TOP)
        df = list(zip([x.arg for x in a.posonlyargs + a.args][
            len(a.posonlyargs + a.args) - len(a.defaults):], a.defaults))
        df += [(x.arg, d) for x, d in zip(a.kwonlyargs, a.kw_defaults)
               if d is not None]
        for n, d in df:
            if n not in args:
                env[n] = self.ev(d, env, ctx)
        if a.vararg:
            env[a.vararg.arg] = args.get('*', TOP)
        if a.kwarg:
            env[a.kwarg.arg] = TOP
        ctx.ret = NONE
        ctx.closures = {}
        if isinstance(f.node, ast.Lambda):
            ctx.ret = self.ev(f.node.body, env, ctx)
        else:
            self.block(f.node.body, env, ctx)
            if any(isinstance(x, (ast.Yield, ast.YieldFrom))
                   for x in walk_own(f.node)):
                ctx.ret = TOP
            elif env.live:
                ctx.ret = ctx.ret | const(None)
        self.memo[key] = ctx.ret
        return ctx.ret

    # ---- statements --------------------------------------------------
    def block(self, body, env, ctx):
        for s in body:
            if not env.live:
                return
            getattr(self, 's_' + type(s).__name__, self.s_other)(
                s, env, ctx)

    def s_other(self, s, env, ctx):
        for n in ast.iter_child_nodes(s):
            if isinstance(n, ast.expr):
                self.ev(n, env, ctx)

    def s_Expr(self, s, env, ctx):
        self.ev(s.value, env, ctx)

    def s_Return(self, s, env, ctx):
        v = self.ev(s.value, env, ctx) if s.value else const(None)
        ctx.ret = ctx.ret | v
        env.live = False

    def s_Raise(self, s, env, ctx):
        for e in (s.exc, s.cause):
            if e is not None:
                self.ev(e, env, ctx)
        env.live = False

    def s_Break(self, s, env, ctx):
        if getattr(ctx, 'loops', None):
            ctx.loops[-1].append(env.fork())
        env.live = False

    s_Continue = s_Break

    def s_FunctionDef(self, s, env, ctx):
        g = ctx.func.nested.get(s.name) if hasattr(
            ctx.func, 'nested') else None
        if g is not None:
            env[s.name] = AV([('f', g)])
            # it may be called with the names it has now
            free = dict((k, v) for k, v in env.items())
            ctx.closures[g.qual] = free
            self.visit(g, g.cls, self.captured(g, free), ctx, s)
        else:
            env[s.name] = TOP

    def captured(self, g, free):
        a = g.node.args
        own = set(x.arg for x in a.posonlyargs + a.args + a.kwonlyargs)
        used = set(n.id for n in ast.walk(g.node)
                   if isinstance(n, ast.Name))
        return dict((k, v) for k, v in free.items()
                    if k in used and k not in own)

    def s_ClassDef(self, s, env, ctx):
        env[s.name] = TOP

    def s_Import(self, s, env, ctx):
        for a in s.names:
            env.pop((a.asname or a.name).split('.')[0], None)

    s_ImportFrom = s_Import

    def s_Assign(self, s, env, ctx):
        v = self.ev(s.value, env, ctx)
        for t in s.targets:
            self.assign(t, v, env, ctx, s.value)

    def s_AnnAssign(self, s, env, ctx):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, env, ctx), env, ctx,
                        s.value)

    def s_AugAssign(self, s, env, ctx):
        v = self.ev(s.value, env, ctx)
        if isinstance(s.target, ast.Name):
            old = env.get(s.target.id, TOP)
            env[s.target.id] = self.binop(s.op, old, v)
        else:
            self.assign(s.target, TOP, env, ctx, None)

    def assign(self, t, v, env, ctx, src):
        if isinstance(t, ast.Name):
            env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            c = v.only()
            vals = None
            if c is not None and isinstance(c[0], tuple) and \
                    len(c[0]) == len(t.elts):
                vals = [const(x) for x in c[0]]
            elif isinstance(src, (ast.Tuple, ast.List)) and len(
                    src.elts) == len(t.elts):
                vals = [self.ev(x, env, ctx) for x in src.elts]
            for i, e in enumerate(t.elts):
                self.assign(e, vals[i] if vals else TOP, env, ctx, None)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, TOP, env, ctx, None)
        elif isinstance(t, ast.Subscript):
            b = self.ev(t.value, env, ctx)
            self.ev(t.slice, env, ctx)
            self.item_call('__setitem__', b, t, ctx)
        elif isinstance(t, ast.Attribute):
            b = self.ev(t.value, env, ctx)
            for c in b.classes():
                f = self.setter(c, t.attr)
                if f is not None:
                    self.visit(f, c, {f.params()[0]: inst(c)}, ctx, t)

    def setter(self, c, name):
        for k in self.repo.mro(c):
            if isinstance(k, Class) and name in k.setters:
                return k.setters[name]
        return None

    def item_call(self, name, b, node, ctx):
        r = self.sub_store(ctx, b, node, name == '__delitem__')
        if r is not None:
            return
        for c in b.classes():
            for f in self.family(c, name):
                self.visit(f, self.owner(c, f), {
                    f.params()[0]: inst(self.owner(c, f))}, ctx, node)

    def s_Delete(self, s, env, ctx):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                b = self.ev(t.value, env, ctx)
                self.ev(t.slice, env, ctx)
                self.item_call('__delitem__', b, t, ctx)
            elif isinstance(t, ast.Name):
                env.pop(t.id, None)
                env[t.id] = TOP

    def s_If(self, s, env, ctx):
        v = self.truth(self.ev(s.test, env, ctx))
        e1 = env.fork()
        e2 = env.fork()
        if v is False or not self.refine(s.test, True, e1, ctx):
            e1.live = False
        if v is True or not self.refine(s.test, False, e2, ctx):
            e2.live = False
        self.block(s.body, e1, ctx)
        self.block(s.orelse, e2, ctx)
        env.clear()
        env.live = False
        env.merge(e1, e2)

    def s_While(self, s, env, ctx):
        self.loop(s, env, ctx, None)

    def s_For(self, s, env, ctx):
        it = self.ev(s.iter, env, ctx)
        self.iterated(it, s, ctx)
        c = it.only()
        elem = TOP
        if c is not None and isinstance(c[0], (tuple, str, bytes)):
            elem = NONE
            for x in c[0]:
                elem = elem | const(x)
        self.loop(s, env, ctx, (s.target, elem))

    def loop(self, s, env, ctx, target):
        if not hasattr(ctx, 'loops'):
            ctx.loops = []
        after = []
        for i in range(3):
            before = dict(env)
            body = env.fork()
            if target is None:
                v = self.truth(self.ev(s.test, body, ctx))
                if v is not True:
                    e = body.fork()
                    if self.refine(s.test, False, e, ctx):
                        after.append(e)
                if v is False or not self.refine(s.test, True, body, ctx):
                    break
            else:
                after.append(body.fork())
                self.assign(target[0], target[1], body, ctx, None)
            ctx.loops.append([])
            self.block(s.body, body, ctx)
            outs = ctx.loops.pop()
            after += outs
            env.merge(body, *outs)
            if not env.live:
                break
            if dict(env) == before:
                break
        else:
            # anything assigned in the loop
            for n in ast.walk(s):
                if isinstance(n, ast.Name) and isinstance(
                        n.ctx, ast.Store):
                    env[n.id] = TOP
            body = env.fork()
            ctx.loops.append([])
            self.block(s.body, body, ctx)
            after += ctx.loops.pop() + [body]
        e = Env()
        e.live = False
        e.merge(env, *after)
        if e.live and s.orelse:
            o = e.fork()
            self.block(s.orelse, o, ctx)
            e.merge(o)
        env.clear()
        env.live = e.live
        env.update(e)

    def iterated(self, it, node, ctx):
        for c in it.classes():
            for f in self.family(c, '__iter__'):
                self.visit(f, self.owner(c, f), {
                    f.params()[0]: inst(self.owner(c, f))}, ctx, node)

    def s_With(self, s, env, ctx):
        for i in s.items:
            v = self.ev(i.context_expr, env, ctx)
            for n in ('__enter__', '__exit__'):
                for c in v.classes():
                    for f in self.family(c, n):
                        self.visit(f, self.owner(c, f), {
                            f.params()[0]: inst(self.owner(c, f))}, ctx,
                            s)
            if i.optional_vars is not None:
                self.assign(i.optional_vars, v, env, ctx, None)
        self.block(s.body, env, ctx)

    def s_Try(self, s, env, ctx):
        start = env.fork()
        self.block(s.body, env, ctx)
        # what is known in a handler: anything the body may have set
        hs = []
        base = start.fork()
        for n in s.body:
            for x in ast.walk(n):
                if isinstance(x, ast.Name) and isinstance(
                        x.ctx, ast.Store):
                    base[x.id] = start.get(x.id, NONE) | env.get(
                        x.id, NONE) | TOP
        for h in s.handlers:
            e = base.fork()
            if h.type is not None:
                self.ev(h.type, e, ctx)
            if h.name:
                e[h.name] = TOP
            self.block(h.body, e, ctx)
            hs.append(e)
        if env.live and s.orelse:
            self.block(s.orelse, env, ctx)
        env.merge(*hs)
        if s.finalbody:
            fin = env if env.live else base.fork()
            self.block(s.finalbody, fin, ctx)

    def s_Assert(self, s, env, ctx):
        self.ev(s.test, env, ctx)

    # ---- truth -------------------------------------------------------
    def truth(self, v):
        if v.rest or not v.items:
            return None
        out = set()
        for i in v.items:
            if i[0] == 'c':
                out.add(bool(i[1][1]))
            elif i[0] == 'k':
                return None
            elif i[0] == 'd':
                out.add(bool(i[1]))
            else:
                out.add(True)
        return out.pop() if len(out) == 1 else None

    def refine(self, t, pol, env, ctx):
        """Adds what a test tells; False if it cannot have that result"""
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            return self.refine(t.operand, not pol, env, ctx)
        if isinstance(t, ast.BoolOp):
            conj = isinstance(t.op, ast.And)
            if conj == pol:
                return all(self.refine(x, pol, env, ctx)
                           for x in t.values)
            return True
        if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(
                t.left, ast.Name):
            v = env.get(t.left.id)
            r = self.ev(t.comparators[0], env, ctx).only()
            if v is not None and r is not None and v.consts():
                op = t.ops[0]
                keep = []
                for i in v.items:
                    b = self.compare(op, i[1][1], r[0])
                    if b is None or b == pol:
                        keep.append(i)
                if not keep:
                    return False
                env[t.left.id] = AV(keep)
            return True
        if isinstance(t, ast.Call) and isinstance(
                t.func, ast.Name) and t.func.id == 'isinstance' and len(
                t.args) == 2 and isinstance(t.args[0], ast.Name):
            v = env.get(t.args[0].id)
            cl = self.class_list(t.args[1], ctx)
            if v is None or cl is None:
                return True
            if pol:
                known = [c for c in v.classes()
                         if any(self.related(c, k) for k in cl)]
                if v.rest or known:
                    env[t.args[0].id] = AV(
                        [('k', c) for c in (known or [
                            k for k in cl if isinstance(k, Class)])],
                        v.rest)
                elif not v.items:
                    return True
            else:
                # not one of those any more
                env[t.args[0].id] = AV(
                    [i for i in v.items if not (i[0] == 'k' and any(
                        isinstance(k, Class) and
                        self.repo.is_subclass(i[1], k.qual)
                        for k in cl))], v.rest)
        return True

    def class_list(self, e, ctx):
        if isinstance(e, ast.Tuple):
            out = []
            for x in e.elts:
                r = self.class_list(x, ctx)
                if r is None:
                    return None
                out += r
            return out
        r = self.repo.resolve_expr(e, ctx.func.module, ctx.func.cls,
                                   ctx.func)
        if isinstance(r, (Class, Ext)):
            return [r]
        return None

    def related(self, a, b):
        if isinstance(a, Class) and isinstance(b, Class):
            return self.repo.is_subclass(a, b.qual) or \
                self.repo.is_subclass(b, a.qual)
        return True

    def compare(self, op, a, b):
        try:
            if isinstance(op, (ast.Eq, ast.Is)):
                return a == b
            if isinstance(op, (ast.NotEq, ast.IsNot)):
                return a != b
            if isinstance(op, ast.In):
                return a in b
            if isinstance(op, ast.NotIn):
                return a not in b
            if isinstance(op, ast.Lt):
                return a < b
            if isinstance(op, ast.LtE):
                return a <= b
            if isinstance(op, ast.Gt):
                return a > b
            if isinstance(op, ast.GtE):
                return a >= b
        except Exception:
            pass
        return None

    # ---- expressions -------------------------------------------------
    def ev(self, e, env, ctx):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            for n in ast.iter_child_nodes(e):
                if isinstance(n, ast.expr):
                    self.ev(n, env, ctx)
            return TOP
        return m(e, env, ctx)

    def e_Constant(self, e, env, ctx):
        return const(e.value)

    def e_Name(self, e, env, ctx):
        if e.id in env:
            return env[e.id]
        if e.id in ctx.args:
            return ctx.args[e.id]
        return self.ref(self.repo.resolve_expr(
            e, ctx.func.module, ctx.func.cls, ctx.func), ctx)

    def ref(self, r, ctx):
        if isinstance(r, Func):
            return AV([('f', r)])
        if isinstance(r, Class):
            return AV([('t', r)])
        if isinstance(r, ModRef):
            return AV([('m', r)])
        if isinstance(r, Const):
            return self.literal(r.value)
        if isinstance(r, Ext):
            return AV([('x', r.name)])
        return TOP

    def literal(self, node):
        if isinstance(node, ast.Call) and isinstance(
                node.func, ast.Name) and node.func.id in (
                'frozenset', 'set', 'tuple', 'list') and len(
                node.args) == 1 and not node.keywords:
            node = node.args[0]
        try:
            v = ast.literal_eval(node)
        except Exception:
            return TOP
        return self.lit(v)

    def lit(self, v):
        if isinstance(v, list):
            v = tuple(v)
        elif isinstance(v, set):
            v = frozenset(v)
        if isinstance(v, dict):
            try:
                return AV([('d', tuple(
                    (k, self.lit(x)) for k, x in v.items()))])
            except TypeError:
                return TOP
        if flat(v):
            return const(v)
        return TOP

    def seq(self, e, env, ctx):
        vals = [self.ev(x.value if isinstance(x, ast.Starred) else x,
                        env, ctx) for x in e.elts]
        cs = [v.only() for v in vals]
        if all(c is not None for c in cs) and not any(
                isinstance(x, ast.Starred) for x in e.elts):
            return const(tuple(c[0] for c in cs))
        return TOP

    e_Tuple = seq

    def e_List(self, e, env, ctx):
        v = self.seq(e, env, ctx)
        return v if e.elts else TOP

    def e_Set(self, e, env, ctx):
        v = self.seq(e, env, ctx).only()
        try:
            return const(frozenset(v[0])) if v else TOP
        except TypeError:
            return TOP

    def e_Dict(self, e, env, ctx):
        items = []
        ok = bool(e.keys)
        for k, x in zip(e.keys, e.values):
            kv = self.ev(k, env, ctx).only() if k is not None else None
            xv = self.ev(x, env, ctx)
            if kv is None:
                ok = False
            else:
                items.append((kv[0], xv))
        if ok:
            try:
                return AV([('d', tuple(items))])
            except TypeError:
                pass
        return TOP

    def e_UnaryOp(self, e, env, ctx):
        v = self.ev(e.operand, env, ctx)
        if isinstance(e.op, ast.Not):
            t = self.truth(v)
            return TOP if t is None else const(not t)
        return TOP

    def e_BoolOp(self, e, env, ctx):
        conj = isinstance(e.op, ast.And)
        out = NONE
        cur = env.fork()
        for x in e.values:
            v = self.ev(x, cur, ctx)
            t = self.truth(v)
            if t is not None and t != conj:
                return out | v
            if x is not e.values[-1]:
                if t is None:
                    out = out | v
                if not self.refine(x, conj, cur, ctx):
                    return out
            else:
                out = out | v
        return out

    def e_IfExp(self, e, env, ctx):
        t = self.truth(self.ev(e.test, env, ctx))
        out = NONE
        if t is not False:
            a = env.fork()
            if self.refine(e.test, True, a, ctx):
                out = out | self.ev(e.body, a, ctx)
        if t is not True:
            a = env.fork()
            if self.refine(e.test, False, a, ctx):
                out = out | self.ev(e.orelse, a, ctx)
        return out

    def e_Compare(self, e, env, ctx):
        vals = [self.ev(e.left, env, ctx)] + [
            self.ev(x, env, ctx) for x in e.comparators]
        res = set()
        if len(vals) == 2:
            a, b = vals[0].consts(), vals[1].consts()
            if a is None and not vals[0].rest and len(
                    vals[0].items) == 1 and isinstance(
                    e.ops[0], (ast.In, ast.NotIn)):
                a = None
            if isinstance(e.ops[0], (ast.In, ast.NotIn)) and b is None:
                d = vals[1].of('d')
                if len(d) == 1 and not vals[1].rest and len(
                        vals[1].items) == 1:
                    b = [tuple(k for k, x in d[0][1])]
            if a is not None and b is not None:
                for x in a:
                    for y in b:
                        res.add(self.compare(e.ops[0], x, y))
                if len(res) == 1:
                    r = res.pop()
                    if r is not None:
                        return const(bool(r))
                return TOP
            # an object is not None and is no string
            for x, y in ((vals[0], vals[1]), (vals[1], vals[0])):
                c = y.only()
                if c is not None and x.items and not x.rest and all(
                        i[0] != 'c' for i in x.items) and (
                        c[0] is None):
                    if isinstance(e.ops[0], (ast.Is, ast.Eq)):
                        return const(False)
                    if isinstance(e.ops[0], (ast.IsNot, ast.NotEq)):
                        return const(True)
        return TOP

    def e_BinOp(self, e, env, ctx):
        return self.binop(e.op, self.ev(e.left, env, ctx),
                          self.ev(e.right, env, ctx))

    def binop(self, op, a, b):
        x, y = a.only(), b.only()
        if x is not None and y is not None:
            try:
                if isinstance(op, ast.Add):
                    return const(x[0] + y[0])
                if isinstance(op, ast.Mod) and isinstance(x[0], str):
                    return const(x[0] % y[0])
            except Exception:
                pass
        return TOP

    def e_JoinedStr(self, e, env, ctx):
        out = ''
        for p in e.values:
            if isinstance(p, ast.Constant):
                out += str(p.value)
            else:
                v = self.ev(p.value, env, ctx).only()
                if v is None or p.format_spec is not None:
                    out = None
                    break
                out += str(v[0])
        return TOP if out is None else const(out)

    def comp(self, e, env, ctx):
        inner = env.fork()
        for g in e.generators:
            it = self.ev(g.iter, inner, ctx)
            self.iterated(it, e, ctx)
            self.assign(g.target, TOP, inner, ctx, None)
            for i in g.ifs:
                self.ev(i, inner, ctx)
        for n in ('elt', 'key', 'value'):
            if hasattr(e, n):
                self.ev(getattr(e, n), inner, ctx)
        return TOP

    e_ListComp = e_SetComp = e_GeneratorExp = e_DictComp = comp

    def e_Lambda(self, e, env, ctx):
        inner = env.fork()
        for x in e.args.args:
            inner[x.arg] = TOP
        self.ev(e.body, inner, ctx)
        return TOP

    def e_NamedExpr(self, e, env, ctx):
        v = self.ev(e.value, env, ctx)
        self.assign(e.target, v, env, ctx, None)
        return v

    def e_Yield(self, e, env, ctx):
        if e.value is not None:
            self.ev(e.value, env, ctx)
        return TOP

    def e_YieldFrom(self, e, env, ctx):
        self.iterated(self.ev(e.value, env, ctx), e, ctx)
        return TOP

    def e_Starred(self, e, env, ctx):
        return self.ev(e.value, env, ctx)

    def e_Subscript(self, e, env, ctx):
        b = self.ev(e.value, env, ctx)
        i = self.ev(e.slice, env, ctx)
        r = self.subscript(ctx, b, i, e)
        if r is not None:
            return r
        k = i.consts()
        d = b.of('d')
        if k is not None and d and not b.rest:
            out = NONE
            for x in d:
                for kk, v in x[1]:
                    if kk in k:
                        out = out | v
            return out
        c = b.only()
        if c is not None and k is not None and len(k) == 1:
            try:
                return self.lit(c[0][k[0]])
            except Exception:
                return TOP
        out = NONE
        for c in b.classes():
            for f in self.family(c, '__getitem__'):
                out = out | self.visit(f, self.owner(c, f), {
                    f.params()[0]: inst(self.owner(c, f))}, ctx, e)
        return out | TOP

    def e_Attribute(self, e, env, ctx):
        b = self.ev(e.value, env, ctx)
        return self.attr(b, e.attr, e, ctx)

    def attr(self, b, name, e, ctx):
        r = self.attribute(ctx, b, name, e)
        if r is not None:
            return r
        out = NONE
        found = False
        for i in b.items:
            if i[0] == 'k':
                fs = self.family(i[1], name)
                if fs:
                    found = True
                    for f in fs:
                        if self.is_property(f):
                            out = out | self.visit(
                                f, self.owner(i[1], f), {
                                    f.params()[0]: inst(self.owner(
                                        i[1], f))}, ctx, e)
                        else:
                            out = out | AV([('b', self.owner(
                                i[1], f), f)])
                else:
                    ca = self.class_attr(i[1], name)
                    if ca is not None:
                        found = True
                        out = out | ca
            elif i[0] == 's':           # super()
                f = self.repo.find_method(i[1], name, i[2])
                if f is not None:
                    found = True
                    out = out | AV([('b', i[1], f)])
            elif i[0] == 't':
                f = self.repo.find_method(i[1], name)
                if f is not None:
                    found = True
                    out = out | AV([('u', i[1], f)])
                else:
                    ca = self.class_attr(i[1], name)
                    if ca is not None:
                        found = True
                        out = out | ca
            elif i[0] == 'm':
                m = self.repo.member(i[1], name)
                if m is not None:
                    found = True
                    out = out | self.ref(m, ctx)
            elif i[0] == 'x':
                found = True
                out = out | AV([('x', i[1] + '.' + name)])
            elif i[0] == 'c' and isinstance(i[1][1], (str, bytes, tuple)):
                found = True
                out = out | AV([('cm', i[1], name)])
            elif i[0] == 'd':
                found = True
                out = out | AV([('dm', i[1], name)])
        if b.rest or not found:
            out = out | AV([('k', c) for c in self.attrs.get(name, ())],
                           True)
        return out

    def class_attr(self, c, name):
        for k in self.repo.mro(c):
            if isinstance(k, Class) and name in k.attrs:
                out = NONE
                for x in k.attrs[name]:
                    if isinstance(x, ast.expr):
                        v = self.literal(x)
                        if v is TOP:
                            r = self.repo.resolve_expr(x, k.module, k)
                            v = self.ref(r, None) if r is not None \
                                else TOP
                        out = out | v
                # an instance may have another one
                return out | TOP if name in self.stored else out
        return None

    def is_property(self, f):
        return f.prop

    # ---- families ----------------------------------------------------
    def family(self, c, name):
        """Methods an instance of c or one of its subclasses may run"""
        key = ('fam', c.qual, name)
        if key in self.memo:
            return self.memo[key]
        out = []
        f = self.repo.find_method(c, name)
        if f is not None:
            out.append(f)
        todo = list(self.repo.subclasses.get(c.qual, ()))
        seen = set()
        while todo:
            k = todo.pop()
            if k.qual in seen:
                continue
            seen.add(k.qual)
            todo += self.repo.subclasses.get(k.qual, ())
            g = k.methods.get(name)
            if g is not None and k.module in self.modules and \
                    g not in out:
                out.append(g)
        self.memo[key] = out
        return out

    def owner(self, c, f):
        if f.cls is None or self.repo.is_subclass(c, f.cls.qual):
            return c
        return f.cls

    # ---- calls -------------------------------------------------------
    def e_Call(self, e, env, ctx):
        self.ncalls += 1
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and \
                'super' not in env:
            cls = ctx.cls
            if isinstance(cls, Class) and ctx.func.cls is not None:
                return AV([('s', cls, ctx.func.cls)])
            return TOP
        if isinstance(e.func, ast.Attribute):
            recv = self.ev(e.func.value, env, ctx)
            fn = self.attr(recv, e.func.attr, e.func, ctx)
            name = e.func.attr
        else:
            recv = None
            fn = self.ev(e.func, env, ctx)
            name = e.func.id if isinstance(e.func, ast.Name) else None
        args = [self.ev(a, env, ctx) for a in e.args]
        star = any(isinstance(a, ast.Starred) for a in e.args)
        kw = dict((k.arg, self.ev(k.value, env, ctx)) for k in e.keywords)
        return self.apply(fn, name, recv, args, kw, star, e, env, ctx)

    def apply(self, fn, name, recv, args, kw, star, e, env, ctx):
        targets = [i for i in fn.items if i[0] in 'bftu']
        r = self.call(ctx, name, targets, recv, args, kw, e)
        if r is not None:
            return r
        out = NONE
        hit = False
        for i in fn.items:
            if i[0] == 'f':
                hit = True
                f = i[1]
                a = self.bind(f, None, args, kw, star)
                if f.qual in ctx.closures:
                    a.update(self.captured(f, ctx.closures[f.qual]))
                out = out | self.visit(f, f.cls, a, ctx, e)
            elif i[0] == 'b':
                hit = True
                out = out | self.visit(i[2], i[1], self.bind(
                    i[2], inst(i[1]), args, kw, star), ctx, e)
            elif i[0] == 'u':
                hit = True
                f = i[2]
                if f.static or f.classm:
                    out = out | self.visit(f, i[1], self.bind(
                        f, AV([('t', i[1])]), args, kw, star), ctx, e)
                elif f.bound and args:
                    out = out | self.visit(f, i[1], self.bind(
                        f, args[0], args[1:], kw, star), ctx, e)
            elif i[0] == 't':
                hit = True
                c = i[1]
                f = self.repo.find_method(c, '__init__')
                if f is not None:
                    self.visit(f, c, self.bind(
                        f, inst(c), args, kw, star), ctx, e)
                out = out | inst(c)
            elif i[0] == 'x':
                hit = True
                out = out | self.ext_call(i[1], args, e, env, ctx)
            elif i[0] == 'cm':
                hit = True
                out = out | self.str_call(i[1][1], i[2], args)
            elif i[0] == 'dm':
                hit = True
                out = out | self.dict_call(i[1], i[2], args)
        if fn.rest and not targets:
            if name == 'getattr' or name is None:
                return TOP
            if isinstance(e.func, ast.Attribute) and \
                    self.follow_name(name, e):
                for f in self.byname.get(name, ()):
                    if self.arity(f, args, kw, star):
                        out = out | self.visit(f, f.cls, self.bind(
                            f, inst(f.cls), args, kw, star), ctx, e)
            return out | TOP
        return out if hit else TOP

    def follow_name(self, name, e):
        return name not in PLAIN

    def arity(self, f, args, kw, star):
        a = f.node.args
        if star or '**' in kw or None in kw:
            return True
        n = len(a.posonlyargs + a.args) - (1 if f.bound else 0)
        names = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        if len(args) > n and not a.vararg:
            return False
        if not a.kwarg and any(k not in names for k in kw):
            return False
        return len(args) + len(kw) >= n - len(a.defaults)

    def bind(self, f, recv, args, kw, star):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        out = {}
        if f.bound and names:
            if recv is not None:
                out[names[0]] = recv
            names = names[1:]
        if not star:
            for n, v in zip(names, args):
                out[n] = self.passed(v)
            for k, v in kw.items():
                if k is not None:
                    out[k] = self.passed(v)
        return out

    def passed(self, v):
        """What a context keeps of an argument"""
        return v

    def ext_call(self, name, args, e, env, ctx):
        short = name.split('.')[-1]
        if name == 'builtins.getattr' and len(args) >= 2:
            n = args[1].consts()
            if n is not None:
                out = NONE
                for x in n:
                    if isinstance(x, str):
                        out = out | self.attr(args[0], x, e, ctx)
                if len(args) > 2:
                    out = out | args[2]
                return out
            return TOP
        if name == 'builtins.isinstance' and len(args) == 2:
            return self.isinst(args, e, ctx)
        if short in ('str', 'text_type') and args:
            v = args[0].only()
            if v is not None and isinstance(v[0], str):
                return args[0]
        if name in ('builtins.tuple', 'builtins.list') and args:
            v = args[0].only()
            if v is not None and isinstance(v[0], tuple):
                return args[0]
        if name in ('builtins.set', 'builtins.frozenset') and args:
            v = args[0].only()
            if v is not None:
                try:
                    return const(frozenset(v[0]))
                except TypeError:
                    pass
        if name == 'builtins.len' and args:
            for c in args[0].classes():
                for f in self.family(c, '__len__'):
                    self.visit(f, self.owner(c, f), {
                        f.params()[0]: inst(self.owner(c, f))}, ctx, e)
        if name in ('builtins.list', 'builtins.sorted', 'builtins.tuple',
                    'builtins.iter', 'builtins.set'):
            if args:
                self.iterated(args[0], e, ctx)
        return TOP

    def isinst(self, args, e, ctx):
        cl = self.class_list(e.args[1], ctx)
        v = args[0]
        if cl is None or v.rest or not v.items:
            return TOP
        res = set()
        for i in v.items:
            if i[0] == 'k' and all(isinstance(k, Class) for k in cl):
                if any(self.repo.is_subclass(i[1], k.qual) for k in cl):
                    res.add(True)
                elif any(self.repo.is_subclass(k, i[1].qual) for k in cl):
                    res.add(None)
                else:
                    # a subclass of both may exist
                    res.add(None)
            elif i[0] == 'c' and i[1][1] is None:
                res.add(False)
            else:
                res.add(None)
        if len(res) == 1 and None not in res:
            return const(res.pop())
        return TOP

    def str_call(self, v, name, args):
        cs = [a.only() for a in args]
        if all(c is not None for c in cs) and name in (
                'upper', 'lower', 'strip', 'lstrip', 'rstrip',
                'startswith', 'endswith', 'replace', 'split', 'title',
                'capitalize', 'encode', 'decode', 'format', 'join',
                'partition', 'casefold', 'isalpha', 'isupper', 'index',
                'count', 'find'):
            try:
                return self.lit(getattr(v, name)(*[c[0] for c in cs]))
            except Exception:
                return TOP
        return TOP

    def dict_call(self, items, name, args):
        if name == 'get' and args:
            k = args[0].consts()
            if k is not None:
                out = NONE
                for x in k:
                    for kk, v in items:
                        if kk == x:
                            out = out | v
                            break
                    else:
                        out = out | (args[1] if len(args) > 1
                                     else const(None))
                return out
            out = args[1] if len(args) > 1 else const(None)
            for kk, v in items:
                out = out | v
            return out
        if name == 'keys':
            return const(tuple(k for k, v in items))
        return TOP
