"""C28: value objects"""

import ast

from .. import guards as g
from .. import rulebase
from ..repo import Class, Func, walk_own

FROZEN = ('iso8601.Date', 'iso8601.Time', 'iso8601.TimePoint', 'rfc2396.URI',
          'http.params.SortableParameter', 'http.params.FullDate',
          'rfc5023.Slug', 'vfs.VirtualFilePath', 'html401.Color')
MUTATORS = {'append', 'extend', 'insert', 'pop', 'popitem', 'remove',
            'clear', 'update', 'setdefault', 'sort', 'reverse', 'add',
            'discard', '__setitem__', '__delitem__'}
# conversions that keep values that differ different
PLAIN = {'to_text', 'str', 'force_text', 'bstr', 'bytes', 'tuple', 'list',
         'hash', 'encode', 'decode', 'len', 'repr', 'force_bytes', 'int',
         'sortkey', 'iter', 'sorted', 'id'}
TESTS = {'isinstance', 'is_text', 'is_string', 'is_unicode', 'hasattr',
         'type', 'issubclass'}


def classes(repo, c):
    return [k for k in repo.mro(c) if isinstance(k, Class)]


def assigned(k, name):
    """Whether the body of class k binds name, and to what"""
    if name in k.methods:
        return k.methods[name]
    for n in k.node.body:
        if isinstance(n, ast.Assign) and any(
                isinstance(t, ast.Name) and t.id == name
                for t in n.targets):
            return n.value
    return None


def method(repo, c, name):
    for k in classes(repo, c):
        v = assigned(k, name)
        if isinstance(v, ast.Name) and v.id in k.methods:
            return k.methods[v.id]
        if v is not None:
            return v
    return None


def hasher(repo, c):
    """The hash function in force: a Func, None (not hashable) or
    'identity'"""
    for k in classes(repo, c):
        v = assigned(k, '__hash__')
        if isinstance(v, Func):
            return v
        if isinstance(v, ast.Constant) and v.value is None:
            return None
        if v is not None:
            f = repo.resolve_expr(v, k.module)
            if isinstance(f, Func):
                return f
            return 'identity'
        if assigned(k, '__eq__') is not None:
            return None
    return 'identity'


def self_of(f):
    a = f.node.args
    a = a.posonlyargs + a.args
    return a[0].arg if a else None


class Leaves(object):

    """The members of self that the value of a method depends on, with the
    conversions applied to each"""

    def __init__(self, repo, c):
        self.repo = repo
        self.c = c
        self.out = set()
        self.seen = set()

    def method(self, name):
        f = method(self.repo, self.c, name)
        if isinstance(f, Func):
            self.func(f)
        return self

    def func(self, f):
        if f in self.seen:
            return self
        self.seen.add(f)
        me = self_of(f)
        up = {}
        for n in walk_own(f.node):
            for k in ast.iter_child_nodes(n):
                up[k] = n
        for n in walk_own(f.node):
            if not (isinstance(n, ast.Name) and n.id == me):
                continue
            p = up.get(n)
            if isinstance(p, ast.Attribute) and p.value is n:
                self.member(p, up, f)
            elif isinstance(p, ast.Call) and n in p.args:
                self.passed(p, n, f)
        return self

    def passed(self, p, n, f):
        """self as an argument"""
        if isinstance(p.func, ast.Name):
            name = p.func.id
            if name in ('to_text', 'str'):
                self.method('__unicode__')
                if method(self.repo, self.c, '__unicode__') is None:
                    self.method('__str__')
                return
            if name == 'bytes':
                self.method('__bytes__')
                return
            if name == 'id':
                self.out.add(('@id', frozenset()))
                return
            h = self.repo.resolve_expr(p.func, f.module)
            if isinstance(h, Func):
                self.func(h)
        elif isinstance(p.func, ast.Attribute):
            # Base.method(self)
            k = self.repo.resolve_expr(p.func.value, f.module)
            if isinstance(k, Class):
                h = self.repo.find_method(k, p.func.attr)
                if isinstance(h, Func):
                    self.func(h)

    def member(self, n, up, f):
        a = n.attr
        p = up.get(n)
        if isinstance(n.ctx, ast.Store) or a in ('__class__', '__dict__'):
            if a == '__dict__':
                self.out.add((a, frozenset()))
            return
        h = method(self.repo, self.c, a)
        if isinstance(h, Func):
            if (isinstance(p, ast.Call) and p.func is n) or any(
                    isinstance(d, ast.Name) and d.id == 'property'
                    for d in h.node.decorator_list):
                self.func(h)
            return
        conv = set()
        cur = n
        while True:
            p = up.get(cur)
            if isinstance(p, ast.Attribute) and isinstance(
                    up.get(p), ast.Call) and up[p].func is p:
                conv.add(p.attr)
                cur = up[p]
            elif isinstance(p, ast.Attribute):
                cur = p
            elif isinstance(p, ast.Call) and cur in p.args:
                conv.add(p.func.id if isinstance(p.func, ast.Name) else
                         p.func.attr if isinstance(p.func, ast.Attribute)
                         else '?')
                cur = p
            elif isinstance(p, ast.UnaryOp) and isinstance(
                    p.op, ast.USub):
                cur = p
            else:
                break
        if conv & TESTS:
            return
        if isinstance(p, ast.Compare) and any(
                isinstance(x, ast.Constant) and x.value is None
                for x in p.comparators):
            return
        self.out.add((a, frozenset(conv - PLAIN)))


def stored(repo, c):
    """Members that instances of c have"""
    out = {}
    for k in classes(repo, c):
        for f in k.methods.values():
            me = self_of(f)
            for n in walk_own(f.node):
                if isinstance(n, ast.Attribute) and isinstance(
                        n.ctx, ast.Store) and isinstance(
                        n.value, ast.Name) and n.value.id == me:
                    out.setdefault(n.attr, set()).add(k)
    return out


def determines(repo, c, t, me):
    """Members of self that the value of t determines"""
    out = set()
    todo = [t]
    while todo:
        x = g.unver(todo.pop())
        if x.op == 'attr' and x.args[0].op == 'param' and \
                x.args[0].args[0] == me:
            out.add(x.args[1])
        elif x.op in ('tuple', 'list'):
            todo += list(x.args[0])
        elif x.op == 'bin' and x.args[0] == 'Add':
            todo += [x.args[1], x.args[2]]
        elif x.op == 'phi':
            todo += [y for y in x.args if hasattr(y, 'op')]
        elif x.op == 'call':
            r = x.args[2]
            if r is not None and g.unver(r).op == 'param' and \
                    g.unver(r).args[0] == me:
                # a method of self
                out |= set(a for a, conv in Leaves(repo, c).method(
                    x.args[0]).out if not conv)
            elif x.args[0] in PLAIN | {'lower', 'upper'}:
                if r is not None and r.op != 'glob':
                    todo.append(r)
                todo += list(x.args[3])
                for a in x.args[3]:
                    if g.unver(a).op == 'param' and x.args[0] in (
                            'to_text', 'str'):
                        out |= set(a for a, conv in Leaves(
                            repo, c).method('__unicode__').out)
    return out


MIXIN = {'pyslet.py2.SortableMixin.__eq__': 'sortkey',
         'pyslet.py2.CmpMixin.__eq__': '__cmp__'}


def key_rule(repo, rep):
    rep.rule('key', 'a hash is computed from the values compared, or fewer')
    rep.rule('hashable', 'the value hashed does not contain lists')
    for c in sorted(repo.classes.values(), key=lambda k: k.qual):
        h = hasher(repo, c)
        if not isinstance(h, Func):
            continue
        e = method(repo, c, '__eq__')
        if not isinstance(e, Func):
            continue        # identity, which any constant hash agrees with
        want = Leaves(repo, c)
        if e.qual in MIXIN:
            want.method(MIXIN[e.qual])
        else:
            want.func(e)
        have = Leaves(repo, c).func(h)
        mine = stored(repo, c)
        where = '%s:%d' % (h.module.rel, h.node.lineno)
        k = method(repo, c, 'sortkey')
        if isinstance(k, Func) and e.qual in MIXIN:
            where = '%s:%d' % (k.module.rel, k.node.lineno)
        keys = {}
        for a, conv in want.out:
            keys.setdefault(a, []).append(conv)
        # what Element.__eq__ compares
        if e.qual == 'pyslet.xml.structures.Element.__eq__':
            for k in classes(repo, c):
                for n in k.node.body:
                    if isinstance(n, ast.Assign) and any(
                            isinstance(t, ast.Name) and
                            t.id.startswith('XMLATTR_')
                            for t in n.targets):
                        v = n.value
                        if isinstance(v, ast.Tuple) and v.elts:
                            v = v.elts[0]
                        if isinstance(v, ast.Constant):
                            keys.setdefault(v.value, []).append(frozenset())
        paths = None
        if isinstance(k, Func) and e.qual in MIXIN and k not in have.seen:
            ch = Other(rep, c)
            rulebase.run_func(repo, ch, k, c)
            paths = [determines(repo, c, v, self_of(k))
                     for v, t in ch.vals if g.unver(v).op != 'glob']
        for a, conv in sorted(have.out, key=str):
            if a not in mine and a != '@id':
                continue
            ok = any(w <= conv for w in keys.get(a, ()))
            if ok and paths:
                ok = all(a in x for x in paths)
            rep.check(ok, 'key', '%s:%s' % (c.short, a),
                      '%s: the hash is computed from %s, %s' % (
                          c.short, a, 'which is not compared as it is (%s)' %
                          ', '.join(sorted(set().union(*keys[a])))
                          if a in keys else 'which is not compared'), where)
            bad = kinds(repo, c, a) & {'list', 'dict', 'set'}
            rep.check(not bad, 'hashable', '%s:%s' % (c.short, a),
                      '%s.%s is a %s, so instances can not be hashed' % (
                          c.short, a, '/'.join(sorted(bad))), where)
        for f in have.seen:
            if f is h or f.name == 'sortkey':
                for n in walk_own(f.node):
                    if isinstance(n, ast.Return) and n.value is not None:
                        rep.check(kind(n.value, {}) not in (
                            'list', 'dict', 'set'), 'hashable',
                            '%s:%s' % (c.short, f.name),
                            '%s.%s returns a list, so instances can not be '
                            'hashed' % (c.short, f.name),
                            '%s:%d' % (f.module.rel, n.lineno))


def kind(v, env):
    if isinstance(v, (ast.List, ast.ListComp)):
        return 'list'
    if isinstance(v, (ast.Dict, ast.DictComp)):
        return 'dict'
    if isinstance(v, (ast.Set, ast.SetComp)):
        return 'set'
    if isinstance(v, ast.Call) and isinstance(v.func, ast.Name):
        return {'sorted': 'list', 'list': 'list', 'dict': 'dict',
                'set': 'set'}.get(v.func.id, 'other')
    if isinstance(v, ast.Name):
        return env.get(v.id, 'other')
    if isinstance(v, ast.BinOp) and isinstance(v.op, ast.Add):
        for x in (v.left, v.right):
            if kind(x, env) == 'list':
                return 'list'
    return 'other'


def kinds(repo, c, a):
    """How the constructors leave member a"""
    for k in classes(repo, c):
        f = k.methods.get('__init__')
        if f is None:
            continue
        out = flow(repo, c, f, f.node.body, self_of(f), a, {}, None, 0)
        if out:
            return out
    return set()


def flow(repo, c, f, body, me, a, env, out, depth):
    """The kinds of value that a may have after body; None if not set"""
    for s in body:
        if isinstance(s, ast.Assign):
            for t in s.targets:
                if isinstance(t, ast.Attribute) and t.attr == a and \
                        isinstance(t.value, ast.Name) and t.value.id == me:
                    out = {kind(s.value, env)}
                elif isinstance(t, ast.Name):
                    env[t.id] = kind(s.value, env)
        elif isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and \
                isinstance(s.value.func, ast.Attribute) and depth < 4:
            n = s.value.func
            h = None
            if isinstance(n.value, ast.Name) and n.value.id == me:
                h = method(repo, c, n.attr)
            elif n.attr == '__init__':
                k = repo.resolve_expr(n.value, f.module)
                if isinstance(k, Class):
                    h = repo.find_method(k, '__init__')
                elif isinstance(n.value, ast.Call):
                    ks = classes(repo, c)
                    own = [k for k in ks if f in k.methods.values()]
                    if own:
                        for k in ks[ks.index(own[0]) + 1:]:
                            if '__init__' in k.methods:
                                h = k.methods['__init__']
                                break
            if isinstance(h, Func) and h is not f:
                r = flow(repo, c, h, h.node.body, self_of(h), a, {}, None,
                         depth + 1)
                if r is not None:
                    out = r
        elif isinstance(s, (ast.If, ast.For, ast.While, ast.With, ast.Try)):
            alts = [s.body] + [b for b in (
                getattr(s, 'orelse', None), getattr(s, 'finalbody', None))
                if b]
            alts += [x.body for x in getattr(s, 'handlers', [])]
            full = isinstance(s, ast.If) and bool(s.orelse)
            got = set() if full else set(out or ())
            any_ = False
            for b in alts:
                r = flow(repo, c, f, b, me, a, env, out, depth)
                if r is not None:
                    any_ = True
                    got |= r
            if any_:
                out = got
    return out


# -------------------------------------------------------- other keys
class Other(g.EventCheck):

    def __init__(self, rep, c):
        g.EventCheck.__init__(self, rep)
        self.c = c
        self.vals = []

    def func_exit(self, it, st, func, kind, payload, fr):
        if kind != 'raise' and payload is not None:
            self.vals.append((payload, st.trace))


def other_rule(repo, rep):
    rep.rule('other', 'values are compared by the same key')
    for c in sorted(repo.classes.values(), key=lambda k: k.qual):
        f = c.methods.get('otherkey')
        if f is None or not repo.is_subclass(c, 'pyslet.py2.SortableMixin'):
            continue
        own = Other(rep, c)
        k = method(repo, c, 'sortkey')
        if not isinstance(k, Func):
            continue
        rulebase.run_func(repo, own, k)
        chk = Other(rep, c)
        rulebase.run_func(repo, chk, f)
        me, oth = self_of(f), f.node.args.args[1].arg
        keys = set(shape(v, self_of(k)) for v, t in own.vals)
        for v, t in chk.vals:
            v = g.unver(v)
            if v.op == 'glob' or (v.op == 'const'):
                continue
            ok = (g.is_call(v, 'sortkey') and v.args[2] is not None and
                  g.has(v.args[2], lambda x: x.op == 'param' and
                        x.args[0] == oth)) or shape(v, oth) in keys
            rep.check(ok, 'other', c.short,
                      '%s: others are compared by another key' % f.short,
                      '%s:%d' % (f.module.rel, f.node.lineno), t)


def shape(t, me):
    """A value written with the parameter me left open"""
    t = g.unver(t)
    if t.op == 'param':
        return '@' if t.args[0] == me else str(t)
    if t.op == 'call':
        return 'call %s(%s)' % (t.args[0], ','.join(
            [shape(t.args[2], me) if t.args[2] is not None else ''] +
            [shape(a, me) for a in t.args[3]]))
    if t.op == 'attr':
        return shape(t.args[0], me) + '.' + str(t.args[1])
    if t.op == 'glob':
        return str(getattr(t.args[0], 'qual', t.args[0]))
    return '%s(%s)' % (t.op, ','.join(
        shape(a, me) if hasattr(a, 'op') else
        '(%s)' % ','.join(shape(b, me) if hasattr(b, 'op') else str(b)
                          for b in a) if isinstance(a, tuple) else str(a)
        for a in t.args))


# -------------------------------------------------------- immutability
class Frozen(object):

    def __init__(self, repo, rep):
        self.repo = repo
        self.rep = rep
        self.family = []
        for s in FROZEN:
            for k in g.family(repo, s):
                if k not in self.family:
                    self.family.append(k)
        self.members = {}
        for k in self.family:
            for a in stored(repo, k):
                self.members.setdefault(a, []).append(k)
        # members of classes that are not values
        self.shared = set()
        for k in repo.classes.values():
            if k in self.family:
                continue
            for f in k.methods.values():
                me = self_of(f)
                for n in walk_own(f.node):
                    if isinstance(n, ast.Attribute) and isinstance(
                            n.ctx, ast.Store) and isinstance(
                            n.value, ast.Name) and n.value.id == me:
                        self.shared.add(n.attr)
        self.modules = set(k.module for k in self.family)
        self.calls = {}
        for m in repo.modules.values():
            for f in self.functions(m):
                for n in walk_own(f.node):
                    if isinstance(n, ast.Call) and isinstance(
                            n.func, ast.Attribute):
                        self.calls.setdefault(n.func.attr, []).append((f, n))
        self.memo = {}

    def functions(self, m):
        return [f for f in self.repo.funcs.values() if f.module is m]

    def owner(self, f):
        for k in self.family:
            if f in k.methods.values():
                return k
        return None

    def deprecated(self, f):
        for n in walk_own(f.node):
            if isinstance(n, ast.Name) and n.id == 'DeprecationWarning':
                return True
        return False

    def fresh(self, f, name):
        """Whether a local name is only bound to new objects"""
        vals = []
        a = f.node.args
        if name in [x.arg for x in a.args + a.kwonlyargs + a.posonlyargs]:
            return False
        for n in walk_own(f.node):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name) and t.id == name:
                        vals.append(n.value)
                    elif isinstance(t, (ast.Tuple, ast.List)) and any(
                            isinstance(x, ast.Name) and x.id == name
                            for x in ast.walk(t)):
                        return False
            elif isinstance(n, (ast.For, ast.comprehension)) and any(
                    isinstance(x, ast.Name) and x.id == name
                    for x in ast.walk(n.target)):
                return False
            elif isinstance(n, ast.withitem) and n.optional_vars is not \
                    None and any(isinstance(x, ast.Name) and x.id == name
                                 for x in ast.walk(n.optional_vars)):
                return False
        return bool(vals) and all(self.creates(f, v) for v in vals)

    def creates(self, f, v):
        if not isinstance(v, ast.Call):
            return False
        x = v.func
        if isinstance(x, ast.Name) and x.id == 'cls':
            return True
        if isinstance(x, ast.Attribute) and x.attr in ('__class__',
                                                       '__new__'):
            return True
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and \
                x.func.id == 'type':
            return True
        r = self.repo.resolve_expr(x, f.module)
        if isinstance(r, Class):
            return True
        if isinstance(r, Func) and rulebase_new(r):
            rets = [n.value for n in walk_own(r.node)
                    if isinstance(n, ast.Return)]
            return bool(rets) and all(
                e is not None and (
                    self.creates(r, e) or (isinstance(e, ast.Name) and
                                           self.fresh(r, e.id)))
                for e in rets)
        return False

    def builder(self, f, stack=()):
        """Whether f only ever runs while an instance is being made"""
        if f.name in ('__init__', '__new__', '__setstate__'):
            return True
        if f in self.memo:
            return self.memo[f]
        if f in stack:
            return True
        k = self.owner(f)
        sites = [(h, n) for h, n in self.calls.get(f.name, ())
                 if not self.elsewhere(h, n, f)]
        ok = bool(sites)
        for h, n in sites:
            if not self.making(h, n, stack + (f,)):
                ok = False
                break
        if not stack:
            self.memo[f] = ok
        return ok

    def elsewhere(self, h, n, f):
        """A call of a method of the same name of another class"""
        r = n.func.value
        k = h.cls if isinstance(getattr(h, 'cls', None), Class) else None
        if isinstance(r, ast.Name):
            if k is not None and r.id == self_of(h):
                return k not in self.family
            c = self.repo.resolve_expr(r, h.module)
            if isinstance(c, Class):
                return c not in self.family
            if h.module not in self.modules:
                # a local variable of code that has nothing to do with us
                return f.name not in ('set_from_string',)
        return False

    def making(self, h, n, stack):
        r = n.func.value
        me = self_of(h)
        if isinstance(r, ast.Name) and r.id == me and self.owner(h):
            return self.builder(h, stack) or self.deprecated(h)
        if isinstance(r, ast.Name) and self.fresh(h, r.id):
            return True
        if isinstance(r, ast.Call) and isinstance(r.func, ast.Name) and \
                r.func.id == 'super':
            return self.builder(h, stack) or self.deprecated(h)
        if n.args and isinstance(n.args[0], ast.Name):
            c = self.repo.resolve_expr(r, h.module)
            if isinstance(c, Class):
                if n.args[0].id == me:
                    return self.builder(h, stack) or self.deprecated(h)
                return self.fresh(h, n.args[0].id)
        return self.creates(h, r)

    def run(self):
        rep = self.rep
        rep.rule('frozen', 'values are not changed once they are made')
        for k in self.family:
            for f in k.methods.values():
                self.func(f, k)
        for m in self.repo.modules.values():
            for f in self.functions(m):
                if self.owner(f) is None:
                    self.func(f, None)

    def func(self, f, k):
        me = self_of(f) if k is not None else None
        memo = self.memos(f)
        named = {}
        for n in walk_own(f.node):
            if isinstance(n, ast.Assign) and isinstance(
                    n.value, ast.Attribute):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        named[t.id] = n.value
        for n in walk_own(f.node):
            for base, a, node, how in self.changes(n, named):
                if not isinstance(base, ast.Name):
                    if isinstance(base, ast.Attribute) and \
                            base.attr == '__class__':
                        continue
                    if how == 'store' and a in self.members and \
                            a not in self.shared:
                        self.rep.bad('frozen', '%s:%s' % (f.short, a),
                                     '%s changes %s of a value' % (
                                         f.short, ast.unparse(node)),
                                     '%s:%d' % (f.module.rel, node.lineno))
                    continue
                if a not in self.members:
                    continue
                inst = '%s:%s' % (f.short, a)
                where = '%s:%d' % (f.module.rel, node.lineno)
                if k is not None and base.id == me:
                    if a not in stored(self.repo, k):
                        continue
                    ok = self.builder(f) or self.deprecated(f) or \
                        (base.id, a) in memo
                    if 'classmethod' in [getattr(d, 'id', '') for d in
                                         f.node.decorator_list]:
                        continue
                elif k is None and f.cls is not None and base.id == \
                        self_of(f):
                    continue
                else:
                    if a in self.shared and (
                            f.module not in self.modules):
                        continue
                    if a in self.shared and not self.valued(f, base.id):
                        continue
                    ok = self.fresh(f, base.id) or (base.id, a) in memo
                self.rep.check(ok, 'frozen', inst,
                               '%s changes %s after it was made' % (
                                   f.short, ast.unparse(node)), where)

    def valued(self, f, name):
        """Whether a local is known to be a value"""
        return name in ('other', 'src', 'base') and self.owner(f) is not None

    def memos(self, f):
        """members set when they are None"""
        out = set()
        for n in walk_own(f.node):
            if isinstance(n, ast.If) and isinstance(
                    n.test, ast.Compare) and isinstance(
                    n.test.ops[0], ast.Is) and isinstance(
                    n.test.left, ast.Attribute) and isinstance(
                    n.test.left.value, ast.Name):
                out.add((n.test.left.value.id, n.test.left.attr))
        return out

    def changes(self, n, named):
        if isinstance(n, ast.Attribute) and isinstance(
                n.ctx, (ast.Store, ast.Del)):
            yield n.value, n.attr, n, 'store'
        elif isinstance(n, ast.Subscript) and isinstance(
                n.ctx, (ast.Store, ast.Del)) and isinstance(
                n.value, ast.Attribute):
            yield n.value.value, n.value.attr, n, 'item'
        elif isinstance(n, ast.Call) and isinstance(
                n.func, ast.Attribute) and n.func.attr in MUTATORS and \
                isinstance(n.func.value, ast.Attribute):
            yield n.func.value.value, n.func.value.attr, n, 'call'
        elif isinstance(n, ast.Subscript) and isinstance(
                n.ctx, (ast.Store, ast.Del)) and isinstance(
                n.value, ast.Name) and n.value.id in named:
            v = named[n.value.id]
            yield v.value, v.attr, n, 'item'
        elif isinstance(n, ast.Call) and isinstance(
                n.func, ast.Attribute) and n.func.attr in MUTATORS and \
                isinstance(n.func.value, ast.Name) and \
                n.func.value.id in named:
            v = named[n.func.value.id]
            yield v.value, v.attr, n, 'call'
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and \
                n.func.id in ('setattr', 'delattr') and len(n.args) > 1 \
                and isinstance(n.args[1], ast.Constant):
            yield n.args[0], n.args[1].value, n, 'store'


BASE = rulebase.baseline()


def rulebase_new(f):
    return f.qual not in BASE


def alias_rule(repo, rep, fr):
    rep.rule('alias', 'lists and dictionaries given to the constructor of a '
             'value are copied')
    for c in fr.family:
        f = c.methods.get('__init__')
        if f is None:
            continue
        me = self_of(f)
        h = hasher(repo, c)
        names = set(a for a, _ in Leaves(repo, c).func(h).out) if isinstance(
            h, Func) else set()
        args = f.node.args
        params = [a.arg for a in args.args[1:] + args.kwonlyargs]
        defaults = dict(zip(reversed([a.arg for a in args.args]),
                            reversed(args.defaults)))
        for n in walk_own(f.node):
            if not isinstance(n, ast.Assign):
                continue
            raw = isinstance(n.value, ast.Name) and n.value.id in params
            for t in n.targets:
                if isinstance(t, ast.Attribute) and isinstance(
                        t.value, ast.Name) and t.value.id == me:
                    d = defaults.get(n.value.id) if raw else None
                    all_ = containers(repo, c, t.attr) | (
                        {kind(d, {})} if d is not None else set())
                    if not all_ & {'list', 'dict', 'set'}:
                        continue
                    if t.attr not in names and not feeds(f, me, t.attr,
                                                         names):
                        continue
                    rebound = not raw or any(
                        isinstance(x, ast.Assign) and any(
                            isinstance(y, ast.Name) and
                            y.id == n.value.id for y in x.targets)
                        for x in walk_own(f.node))
                    rep.check(rebound, 'alias',
                              '%s:%s' % (c.short, t.attr),
                              '%s keeps the object it is given in %s, '
                              'which its caller can change later' % (
                                  f.short, t.attr),
                              '%s:%d' % (f.module.rel, n.lineno))


def containers(repo, c, a):
    out = set()
    for k in classes(repo, c):
        for f in k.methods.values():
            me = self_of(f)
            for n in walk_own(f.node):
                if isinstance(n, ast.Assign):
                    for t in n.targets:
                        if isinstance(t, ast.Attribute) and t.attr == a and \
                                isinstance(t.value, ast.Name) and \
                                t.value.id == me:
                            out.add(kind(n.value, {}))
    return out


def feeds(f, me, a, names):
    """member a is used to compute one of names"""
    for n in walk_own(f.node):
        if isinstance(n, ast.Assign) and any(
                isinstance(t, ast.Attribute) and t.attr in names
                for t in n.targets):
            for x in ast.walk(n.value):
                if isinstance(x, ast.Attribute) and x.attr == a:
                    return True
    return False


def usable_rule(repo, rep, fr):
    rep.rule('usable', 'values have a hash')
    for c in fr.family:
        rep.check(hasher(repo, c) is not None, 'usable', c.short,
                  '%s defines equality without a hash, so that its '
                  'instances are not usable as keys' % c.short,
                  '%s:%d' % (c.module.rel, c.node.lineno))


def run(repo, rep):
    rep.part(key_rule, repo, rep)
    rep.part(other_rule, repo, rep)
    fr = Frozen(repo, rep)
    fr.run()
    rep.part(alias_rule, repo, rep, fr)
    rep.part(usable_rule, repo, rep, fr)
