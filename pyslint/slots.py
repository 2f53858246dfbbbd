"""What get_children of an element class yields, one named member at a
time.

The evaluator runs the body of get_children (following the class's own
resolution order for base calls) with one member X of the element in
focus, once with X present and once with X absent.  A value is

    Obj(n, list)    the member itself (n=1 present, 0 absent)
    Seq(n)          an iterable containing the member's element(s) n times
    Tup([v..])      a tuple or list written out in the source
    OTHER           anything else

and the outcome is the set of numbers of times that X may be visited
(2 stands for more than once, 'none' for None having been yielded, and
'list' for a list having been yielded as if it was a child)."""

import ast

from .repo import Class, Func


class Unsupported(Exception):
    pass


class Obj(object):
    def __init__(self, present, islist):
        self.present = present
        self.islist = islist


class Seq(object):
    def __init__(self, n):
        self.n = n


class Tup(object):
    def __init__(self, items):
        self.items = items


OTHER = object()
NONE = object()
FALSE = object()
SELF = object()
ELEM = object()     # one of the elements of the member in focus


def add(a, b):
    if isinstance(a, str):
        return a
    if isinstance(b, str):
        return b
    return min(a + b, 2)


def copy_val(v):
    """containers that may be extended in place are copied"""
    return v


class Path(object):

    __slots__ = ('n', 'env', 'ret', 'how')

    def __init__(self, n=0, env=None, ret=None, how=None):
        self.n = n
        self.env = env if env is not None else {}
        self.ret = ret
        self.how = how      # None, 'return', 'raise', 'break', 'continue'

    def but(self, **kw):
        p = Path(self.n, dict(self.env), self.ret, self.how)
        for k, v in kw.items():
            setattr(p, k, v)
        return p

    def key(self):
        return (self.n, self.how, tuple(sorted(
            (k, valkey(v)) for k, v in self.env.items())), valkey(self.ret))


def valkey(v):
    if isinstance(v, Obj):
        return 'O%d%d' % (v.present, v.islist)
    if isinstance(v, Seq):
        return 'S%s' % v.n
    if isinstance(v, Tup):
        return 'T(%s)' % ','.join(valkey(i) for i in v.items)
    return {id(OTHER): 'o', id(NONE): 'N', id(SELF): 's', id(ELEM): 'e',
            id(FALSE): 'f', id(None): '-'}.get(id(v), 'o')


def dedup(paths):
    seen = {}
    for p in paths:
        seen.setdefault(p.key(), p)
    if len(seen) > 400:
        raise Unsupported('too many paths')
    return list(seen.values())


class Evaluator(object):

    def __init__(self, repo, cls, slot, kind, present, slots):
        self.repo = repo
        self.cls = cls
        self.slot = slot
        self.kind = kind
        self.present = present
        self.slots = slots
        self.mro = [k for k in repo.mro(cls) if isinstance(k, Class)]
        self.depth = 0
        self.used = set()

    # ------------------------------------------------------- methods
    def find(self, name, start=0):
        for i, k in enumerate(self.mro[start:], start):
            f = k.methods.get(name)
            if f is not None:
                return f, i
        return None, None

    def call_method(self, name, start, args):
        f, i = self.find(name, start)
        if f is None:
            raise Unsupported('%s not found' % name)
        return self.call_func(f, i, args)

    def call_func(self, f, where, args, env0=None):
        """the values that a call may return"""
        self.used.add(f.qual)
        if self.depth > 12:
            raise Unsupported('recursion')
        self.depth += 1
        try:
            a = f.node.args
            names = [x.arg for x in a.args]
            env = {'@class': where, '@module': f.module}
            if a.vararg:
                env[a.vararg.arg] = Tup(args[len(names):])
                args = args[:len(names)]
            if len(args) > len(names):
                raise Unsupported('arguments')
            for k, v in zip(names, args):
                env[k] = v
            for k, d in zip(names[len(names) - len(a.defaults):],
                            a.defaults):
                if k not in env:
                    env[k] = OTHER
            gen = is_generator(f.node)
            out = []
            for p in self.block(f.node.body, [Path(0, env)]):
                if p.how == 'raise':
                    continue
                if gen:
                    out.append(Seq(p.n))
                elif p.how == 'return':
                    out.append(p.ret)
                else:
                    out.append(NONE)
            seen = {}
            for v in out:
                seen.setdefault(valkey(v), v)
            return list(seen.values())
        finally:
            self.depth -= 1

    # --------------------------------------------------- statements
    def block(self, body, paths):
        for s in body:
            nxt = []
            for p in paths:
                if p.how is not None:
                    nxt.append(p)
                else:
                    nxt.extend(self.stmt(s, p))
            paths = dedup(nxt)
        return paths

    def stmt(self, s, p):
        if isinstance(s, ast.Expr):
            v = s.value
            if isinstance(v, ast.Constant):
                return [p]
            if isinstance(v, ast.Yield):
                return [self.yielded(val, q) for val, q in self.ev(
                    v.value, p)] if v.value else [p.but(n='none')]
            if isinstance(v, ast.YieldFrom):
                return [q.but(n=add(q.n, self.count(val)))
                        for val, q in self.ev(v.value, p)]
            return [q for val, q in self.ev(v, p)]
        if isinstance(s, (ast.Pass, ast.Import, ast.ImportFrom, ast.Assert)):
            return [p]
        if isinstance(s, ast.Return):
            if s.value is None:
                return [p.but(how='return', ret=NONE)]
            return [q.but(how='return', ret=val)
                    for val, q in self.ev(s.value, p)]
        if isinstance(s, ast.Raise):
            return [p.but(how='raise')]
        if isinstance(s, ast.Break):
            return [p.but(how='break')]
        if isinstance(s, ast.Continue):
            return [p.but(how='continue')]
        if isinstance(s, ast.If):
            out = []
            for b, q in self.cond(s.test, p):
                out.extend(self.block(s.body if b else s.orelse, [q]))
            return out
        if isinstance(s, ast.For):
            return self.loop(s, p)
        if isinstance(s, (ast.Assign, ast.AnnAssign)):
            tgts = s.targets if isinstance(s, ast.Assign) else [s.target]
            if s.value is None:
                return [p]
            out = []
            for val, q in self.ev(s.value, p):
                for t in tgts:
                    q = self.bind(t, val, q)
                out.append(q)
            return out
        if isinstance(s, ast.AugAssign) and isinstance(s.op, ast.Add) and \
                isinstance(s.target, ast.Name):
            out = []
            for val, q in self.ev(s.value, p):
                old = q.env.get(s.target.id, OTHER)
                if old is OTHER:
                    out.append(q)
                else:
                    out.append(self.bind(s.target,
                                         self.plus(old, val), q))
            return out
        if isinstance(s, ast.FunctionDef):
            q = p.but()
            q.env[s.name] = OTHER
            return [q]
        if isinstance(s, ast.Try) and not s.handlers:
            return self.block(s.body + s.finalbody, [p])
        raise Unsupported(type(s).__name__)

    def bind(self, t, val, p):
        q = p.but()
        if isinstance(t, ast.Name):
            q.env[t.id] = val
        elif isinstance(t, (ast.Tuple, ast.List)) and \
                isinstance(val, Tup) and len(val.items) == len(t.elts):
            for x, v in zip(t.elts, val.items):
                q = self.bind(x, v, q)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                q = self.bind(x, OTHER, q)
        elif isinstance(t, ast.Attribute) and isinstance(
                t.value, ast.Name) and p.env.get(t.value.id) is SELF:
            if t.attr == self.slot or t.attr in self.slots:
                raise Unsupported('assignment to %s' % t.attr)
        return q

    def yielded(self, val, q):
        if val is ELEM:
            return q.but(n=add(q.n, 1))
        if isinstance(val, Obj):
            if val.islist:
                return q.but(n='list')
            if not val.present:
                return q.but(n='none')
            return q.but(n=add(q.n, 1))
        if val is NONE:
            return q.but(n='none')
        if isinstance(val, (Seq, Tup)):
            return q.but(n='list') if self.count(val) else q
        return q

    def loop(self, s, p):
        out = []
        for val, q in self.ev(s.iter, p):
            if isinstance(val, Tup):
                ps = [q]
                done = []
                for item in val.items:
                    nxt = []
                    for r in ps:
                        for r2 in self.block(
                                s.body, [self.bind(s.target, item, r)]):
                            if r2.how == 'break':
                                done.append(r2.but(how=None))
                            elif r2.how == 'continue':
                                nxt.append(r2.but(how=None))
                            elif r2.how:
                                done.append(r2)
                            else:
                                nxt.append(r2)
                    ps = dedup(nxt)
                for r in ps:
                    done.extend(self.block(s.orelse, [r]))
                out.extend(done)
                continue
            n = self.count(val)
            if isinstance(n, str):
                out.append(q.but(n=n))
                continue
            # any number of other children, the member's n times, others
            ps = [q]
            ends = []
            for item in [OTHER] + [ELEM, OTHER] * n:
                nxt = list(ps) if item is OTHER else []
                for r in ps:
                    for r2 in self.block(
                            s.body, [self.bind(s.target, item, r)]):
                        if r2.how == 'break':
                            ends.append(r2.but(how=None))
                        elif r2.how == 'continue':
                            nxt.append(r2.but(how=None))
                        elif r2.how:
                            ends.append(r2)
                        else:
                            nxt.append(r2)
                ps = dedup(nxt)
            for r in ps:
                ends.extend(self.block(s.orelse, [r]))
            out.extend(ends)
        return out

    # -------------------------------------------------- expressions
    def count(self, val):
        """how often iterating val visits the member"""
        if isinstance(val, Seq):
            return val.n
        if isinstance(val, Obj):
            if val.islist:
                return 1 if val.present else 0
            return 'none' if not val.present else 'item'
        if isinstance(val, Tup):
            n = 0
            for i in val.items:
                q = self.yielded(i, Path(0))
                n = add(n, q.n)
            return n
        if val is NONE:
            return 'none'
        return 0

    def plus(self, a, b):
        if isinstance(a, Tup) and isinstance(b, Tup):
            return Tup(a.items + b.items)
        return Seq(add(self.count(a), self.count(b)))

    def truth(self, val):
        """True, False or None when it is not known"""
        if isinstance(val, Obj):
            return bool(val.present)
        if val is NONE or val is FALSE:
            return False
        if val is ELEM or val is SELF:
            return True
        if isinstance(val, Tup):
            return bool(val.items)
        if isinstance(val, Seq) and val.n:
            return True
        return None

    def cond(self, e, p):
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return [(not b, q) for b, q in self.cond(e.operand, p)]
        if isinstance(e, ast.BoolOp):
            conj = isinstance(e.op, ast.And)
            out = []
            todo = [p]
            for x in e.values:
                nxt = []
                for q in todo:
                    for b, r in self.cond(x, q):
                        if b == conj:
                            nxt.append(r)
                        else:
                            out.append((b, r))
                todo = nxt
            return out + [(conj, q) for q in todo]
        if isinstance(e, ast.Compare) and len(e.ops) == 1:
            op, right = e.ops[0], e.comparators[0]
            if isinstance(op, (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)) and \
                    isinstance(right, ast.Constant) and \
                    right.value is None:
                out = []
                neg = isinstance(op, (ast.IsNot, ast.NotEq))
                for val, q in self.ev(e.left, p):
                    if val is NONE:
                        b = True
                    elif isinstance(val, Obj):
                        b = not val.present and not val.islist
                    elif val is OTHER:
                        b = None
                    else:
                        b = False
                    out.extend((x != neg, q)
                               for x in ((True, False) if b is None
                                         else (b,)))
                return out
            v = self.ev(e.left, p)
            if len(v) == 1 and isinstance(v[0][0], LenOf) and isinstance(
                    right, ast.Constant) and isinstance(right.value, int):
                n = v[0][0].n
                if n is not None and right.value == 0:
                    t = {ast.Gt: n > 0, ast.Eq: n == 0, ast.NotEq: n > 0,
                         ast.LtE: n == 0, ast.Lt: False,
                         ast.GtE: True}.get(type(op))
                    if t is not None:
                        return [(t, v[0][1])]
            return [(True, p), (False, p)]
        out = []
        for val, q in self.ev(e, p):
            if isinstance(val, LenOf):
                b = None if val.n is None else bool(val.n)
            elif isinstance(e, ast.Constant):
                b = bool(e.value)
            else:
                b = self.truth(val)
            out.extend((x, q) for x in ((True, False) if b is None
                                        else (b,)))
        return out

    def evs(self, exprs, p):
        out = [([], p)]
        for e in exprs:
            nxt = []
            for vals, q in out:
                star = isinstance(e, ast.Starred)
                for v, r in self.ev(e.value if star else e, q):
                    if star:
                        if isinstance(v, Tup):
                            nxt.append((vals + list(v.items), r))
                            continue
                        n = self.count(v)
                        if n == 0:
                            nxt.append((vals, r))
                            continue
                        if n == 1:
                            nxt.append((vals + [ELEM], r))
                            continue
                        raise Unsupported('starred')
                    nxt.append((vals + [v], r))
            out = nxt
        return out

    def member(self, name):
        if name == self.slot:
            return Obj(self.present, self.kind == 'list')
        return OTHER

    def is_self(self, e, p):
        return isinstance(e, ast.Name) and p.env.get(e.id) is SELF

    def ev(self, e, p):
        """[(value, path)]"""
        if isinstance(e, ast.Constant):
            if e.value is None:
                return [(NONE, p)]
            return [(FALSE if not e.value else OTHER, p)]
        if isinstance(e, ast.Name):
            return [(p.env.get(e.id, OTHER), p)]
        if isinstance(e, ast.Attribute):
            if self.is_self(e.value, p):
                f = None
                for k in self.mro:
                    f = k.methods.get(e.attr)
                    if f is not None:
                        break
                if f is not None and e.attr != self.slot and any(
                        isinstance(d, ast.Name) and d.id == 'property'
                        for d in f.node.decorator_list):
                    return [(v, p) for v in
                            self.call_method(e.attr, 0, [SELF])]
                return [(self.member(e.attr), p)]
            return [(OTHER, p)]
        if isinstance(e, (ast.Tuple, ast.List)):
            return [(Tup(v), q) for v, q in self.evs(e.elts, p)]
        if isinstance(e, ast.IfExp):
            out = []
            for b, q in self.cond(e.test, p):
                out.extend(self.ev(e.body if b else e.orelse, q))
            return out
        if isinstance(e, ast.BoolOp):
            isor = isinstance(e.op, ast.Or)
            out = []
            todo = [p]
            for i, x in enumerate(e.values):
                nxt = []
                for q in todo:
                    for v, r in self.ev(x, q):
                        if i == len(e.values) - 1:
                            out.append((v, r))
                            continue
                        t = self.truth(v)
                        if t is None or t == isor:
                            out.append((v, r))
                        if t is None or t != isor:
                            nxt.append(r)
                todo = nxt
            return out
        if isinstance(e, ast.BinOp):
            if isinstance(e.op, ast.Add):
                out = []
                for v, q in self.ev(e.left, p):
                    for w, r in self.ev(e.right, q):
                        if v is OTHER and w is OTHER:
                            out.append((OTHER, r))
                        else:
                            out.append((self.plus(v, w), r))
                return out
            return [(OTHER, p)]
        if isinstance(e, (ast.Compare, ast.UnaryOp)):
            return [(OTHER if b else FALSE, q) for b, q in self.cond(e, p)]
        if isinstance(e, (ast.ListComp, ast.GeneratorExp, ast.SetComp)):
            return self.comp(e, p)
        if isinstance(e, ast.Call):
            return self.call(e, p)
        if isinstance(e, ast.Subscript):
            out = []
            for v, q in self.ev(e.value, p):
                if isinstance(e.slice, ast.Slice) and not e.slice.lower \
                        and not e.slice.upper:
                    out.append((v, q))
                elif isinstance(v, (Obj, Seq, Tup)) and self.touches(v):
                    raise Unsupported('subscript')
                else:
                    out.append((OTHER, q))
            return out
        if isinstance(e, (ast.JoinedStr, ast.Lambda, ast.Dict)):
            return [(OTHER, p)]
        raise Unsupported(type(e).__name__)

    def touches(self, v):
        if isinstance(v, Obj):
            return True
        if isinstance(v, Tup):
            return any(self.touches(i) for i in v.items)
        return v is ELEM or (isinstance(v, Seq) and v.n != 0)

    def comp(self, e, p):
        """as the nested loops that it stands for"""
        body = [ast.Expr(value=ast.Yield(value=e.elt))]
        for g in reversed(e.generators):
            for c in reversed(g.ifs):
                body = [ast.If(test=c, body=body, orelse=[])]
            body = [ast.For(target=g.target, iter=g.iter, body=body,
                            orelse=[])]
        out = []
        for q in self.block(body, [p.but(n=0)]):
            out.append((Seq(q.n), p))
        return out

    def call(self, e, p):
        f = e.func
        if isinstance(f, ast.Name):
            name = f.id
            if name in ('iter', 'list', 'tuple', 'reversed', 'sorted') and \
                    e.args:
                out = []
                for v, q in self.ev(e.args[0], p):
                    if isinstance(v, Tup):
                        out.append((Tup(list(v.items)), q))
                    else:
                        out.append((Seq(self.count(v))
                                    if v is not OTHER else OTHER, q))
                return out
            if name in ('list', 'tuple') and not e.args:
                return [(Tup([]), p)]
            if name == 'len' and e.args:
                return [(LenOf(self.length(v)), q)
                        for v, q in self.ev(e.args[0], p)]
            if name == 'getattr' and len(e.args) in (2, 3) and \
                    self.is_self(e.args[0], p) and \
                    isinstance(e.args[1], ast.Constant):
                return [(self.member(e.args[1].value), p)]
            if name == 'filter' and len(e.args) == 2 and \
                    isinstance(e.args[0], ast.Constant) and \
                    e.args[0].value is None:
                out = []
                for v, q in self.ev(e.args[1], p):
                    if isinstance(v, Tup):
                        v = Tup([i for i in v.items
                                 if self.truth(i) is not False])
                    out.append((v, q))
                return out
            if name in ('isinstance', 'hasattr', 'callable', 'bool', 'type',
                        'any', 'all', 'is_text', 'is_unicode'):
                return [(OTHER, p)]
            if name in p.env:
                raise Unsupported('call of a local')
        if isinstance(f, ast.Attribute):
            name = f.attr
            if name in ('chain', 'from_iterable') and self.is_chain(f, p):
                if name == 'chain':
                    out = []
                    for vals, q in self.evs(e.args, p):
                        n = 0
                        for v in vals:
                            n = add(n, self.count(v))
                        out.append((Seq(n), q))
                    return out
                out = []
                for v, q in self.ev(e.args[0], p):
                    if not isinstance(v, Tup):
                        raise Unsupported('from_iterable')
                    n = 0
                    for i in v.items:
                        n = add(n, self.count(i))
                    out.append((Seq(n), q))
                return out
            # super().m(), Base.m(self), self.m()
            start = None
            args = list(e.args)
            if isinstance(f.value, ast.Call) and isinstance(
                    f.value.func, ast.Name) and f.value.func.id == 'super':
                start = p.env['@class'] + 1
                if f.value.args:
                    k = self.repo.resolve_expr(
                        f.value.args[0], p.env['@module'])
                    if k in self.mro:
                        start = self.mro.index(k) + 1
                vals = [([SELF] + v, q) for v, q in self.evs(args, p)]
                out = []
                for v, q in vals:
                    if self.find(name, start)[0] is None:
                        out.append((OTHER, q))
                        continue
                    out.extend((r, q)
                               for r in self.call_method(name, start, v))
                return out
            if self.is_self(f.value, p):
                g, i = self.find(name)
                if g is None:
                    return [(OTHER, q) for v, q in self.evs(args, p)]
                out = []
                for v, q in self.evs(args, p):
                    if any(isinstance(d, ast.Name) and
                           d.id == 'staticmethod'
                           for d in g.node.decorator_list):
                        vv = v
                    else:
                        vv = [SELF] + v
                    out.extend((r, q) for r in self.call_func(g, i, vv))
                return out
            if args and self.is_self(args[0], p):
                k = self.repo.resolve_expr(f.value, p.env['@module'])
                if isinstance(k, Class):
                    out = []
                    g = None
                    mro = [x for x in self.repo.mro(k)
                           if isinstance(x, Class)]
                    for x in mro:
                        g = x.methods.get(name)
                        if g is not None:
                            break
                    if g is None:
                        raise Unsupported('%s.%s' % (k.name, name))
                    where = self.mro.index(x) if x in self.mro else 0
                    for v, q in self.evs(args, p):
                        out.extend((r, q)
                                   for r in self.call_func(g, where, v))
                    return out
            # methods of local lists
            if isinstance(f.value, ast.Name) and name in (
                    'append', 'extend', 'insert') and e.args:
                old = p.env.get(f.value.id, OTHER)
                if isinstance(old, (Tup, Seq)):
                    out = []
                    for v, q in self.ev(e.args[-1], p):
                        if name == 'extend':
                            new = self.plus(old, v)
                        elif isinstance(old, Tup):
                            new = Tup(old.items + [v])
                        else:
                            new = self.plus(old, Tup([v]))
                        out.append((OTHER, self.bind(f.value, new, q)))
                    return out
                raise Unsupported('%s of %s' % (name, f.value.id))
        g = self.repo.resolve_expr(f, p.env['@module']) \
            if not isinstance(f, ast.Call) else None
        if isinstance(g, Func):
            out = []
            for v, q in self.evs(args_of(e), p):
                if any(self.touches(i) or i is SELF for i in v):
                    out.extend((r, q) for r in self.call_func(
                        g, p.env['@class'], v))
                else:
                    out.append((OTHER, q))
            return out
        if isinstance(f, ast.Name) and f.id == 'chain':
            out = []
            for vals, q in self.evs(e.args, p):
                n = 0
                for v in vals:
                    n = add(n, self.count(v))
                out.append((Seq(n), q))
            return out
        out = []
        for v, q in self.evs(args_of(e), p):
            if any(self.touches(i) for i in v):
                raise Unsupported('call %s' % ast.unparse(f))
            out.append((OTHER, q))
        return out

    def length(self, v):
        if isinstance(v, Obj) and v.islist:
            return int(v.present)
        if isinstance(v, Tup):
            return len(v.items)
        return None

    def is_chain(self, f, p):
        return 'chain' in ast.unparse(f)


class LenOf(object):
    def __init__(self, n):
        self.n = n


def args_of(e):
    if e.keywords:
        return list(e.args) + [k.value for k in e.keywords]
    return list(e.args)


def is_generator(node):
    todo = list(node.body)
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef,
                          ast.GeneratorExp, ast.ListComp)):
            continue
        todo.extend(ast.iter_child_nodes(n))
    return False


def visits(repo, cls, slot, kind, present, slots):
    """(set of counts, functions used)"""
    ev = Evaluator(repo, cls, slot, kind, present, slots)
    f, i = ev.find('get_children')
    out = set()
    for v in ev.call_func(f, i, [SELF]):
        out.add(ev.count(v) if not (v is OTHER) else 0)
    return out, ev.used
