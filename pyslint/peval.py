"""Partial evaluation of small functions over abstract values

Values are Python constants, tuples, PList/PDict (containers whose
members are known), Str (text with unknown pieces), Enum (a member of an
xsi.Enumeration class), Obj (an instance of a class of the package whose
attributes are tracked), references to functions and classes, and Sym
(everything else: a term that only says where the value came from).

A condition that is not decided by these values forks the evaluation;
the same condition has the same outcome for the rest of the path.  The
result of evaluate() is the list of paths, each with its outcome
('return', value) or ('raise', exception name), the decisions taken and
the events that were recorded by the hook."""

import ast
import builtins

from .repo import Class, Const, Ext, Func, ModRef, ext_class


class Cut(Exception):
    """The path is abandoned (loop bound)"""


class TooMany(Exception):
    pass


class Unsupported(Exception):
    pass


class Raised(Exception):

    def __init__(self, name, args=(), node=None):
        Exception.__init__(self, name)
        self.name = name
        self.eargs = args
        self.node = node


class Ret(Exception):

    def __init__(self, value):
        self.value = value


class Brk(Exception):
    pass


class Cont(Exception):
    pass


class Sym(object):

    """An unknown value; op and args say where it came from"""

    __slots__ = ('op', 'args', '_h')

    def __init__(self, op, *args):
        self.op = op
        self.args = args
        self._h = None

    def __eq__(self, other):
        return self is other or (
            isinstance(other, Sym) and hash(self) == hash(other) and
            self.op == other.op and self.args == other.args)

    def __hash__(self):
        if self._h is None:
            self._h = hash((self.op,) + tuple(hkey(a) for a in self.args))
        return self._h

    def __repr__(self):
        return '%s(%s)' % (self.op, ', '.join(map(show, self.args)))


class Enum(object):

    __slots__ = ('cls', 'name')

    def __init__(self, cls, name):
        self.cls = cls
        self.name = name

    def __eq__(self, other):
        return isinstance(other, Enum) and (self.cls, self.name) == (
            other.cls, other.name)

    def __hash__(self):
        return hash((self.cls, self.name))

    def __repr__(self):
        return '%s.%s' % (self.cls.rpartition('.')[2], self.name)


class Str(object):

    """Text made of constant and unknown pieces"""

    __slots__ = ('parts',)

    def __init__(self, parts):
        self.parts = tuple(parts)

    def __eq__(self, other):
        return isinstance(other, Str) and self.parts == other.parts

    def __hash__(self):
        return hash(tuple(hkey(p) for p in self.parts))

    def __repr__(self):
        return ''.join(p if isinstance(p, str) else '{%s}' % show(p)
                       for p in self.parts)


class PList(object):

    def __init__(self, items, kind='list'):
        self.items = list(items)
        self.kind = kind
        self.open = False      # other items may have been added

    def __repr__(self):
        return '[%s]' % ', '.join(map(show, self.items))


class PDict(object):

    def __init__(self, items=()):
        self.items = list(items)     # [(key, value)]

    def get(self, k):
        for a, b in self.items:
            if same(a, k):
                return b
        return None

    def has(self, k):
        return any(same(a, k) for a, b in self.items)

    def put(self, k, v):
        self.items = [(a, b) for a, b in self.items if not same(a, k)]
        self.items.append((k, v))

    def __repr__(self):
        return '{%s}' % ', '.join('%s: %s' % (show(a), show(b))
                                  for a, b in self.items)


class Obj(object):

    n = 0

    def __init__(self, cls, attrs=None):
        self.cls = cls
        self.attrs = dict(attrs or {})
        Obj.n += 1
        self.id = Obj.n

    def __repr__(self):
        return '<%s>' % self.cls.name


class Bound(object):

    def __init__(self, recv, func):
        self.recv = recv
        self.func = func

    def __repr__(self):
        return '%s.%s' % (show(self.recv), self.func.name)


class Closure(object):

    def __init__(self, node, env, fr):
        self.node = node
        self.env = env
        self.fr = fr


class Super(object):

    def __init__(self, recv, cls, after):
        self.recv = recv
        self.cls = cls
        self.after = after


class BMeth(object):

    """method of a known container or text"""

    def __init__(self, recv, name):
        self.recv = recv
        self.name = name


CONST = (type(None), bool, int, float, str, bytes)


def hkey(a):
    try:
        return hash(a)
    except TypeError:
        return id(a)


def show(a):
    if isinstance(a, (Func, Class)):
        return a.short
    return repr(a)


def known(a):
    return isinstance(a, CONST) or isinstance(a, (
        Enum, Obj, PList, PDict, Func, Class, Closure, Bound)) or (
        isinstance(a, tuple) and all(known(x) for x in a))


def same(a, b):
    """True, False or None"""
    if isinstance(a, CONST) and isinstance(b, CONST):
        return a == b
    if isinstance(a, Enum) and isinstance(b, Enum):
        return a == b
    if isinstance(a, (Class, Func, Obj, ModRef)) or \
            isinstance(b, (Class, Func, Obj, ModRef)):
        if a is b:
            return True
        if known(a) and known(b):
            return False
        return None
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return False
        r = [same(x, y) for x, y in zip(a, b)]
        if False in r:
            return False
        return True if all(x is True for x in r) else None
    if type(a) is type(b) and isinstance(a, (Sym, Str, Ext)) and a == b:
        return True
    if isinstance(a, (PList, PDict)) and a is b:
        return True
    if known(a) and known(b) and type(a) is not type(b):
        return False
    if isinstance(a, Str) and isinstance(b, str) or \
            isinstance(b, Str) and isinstance(a, str):
        s, c = (a, b) if isinstance(a, Str) else (b, a)
        fixed = sum(len(p) for p in s.parts if isinstance(p, str))
        if fixed > len(c):
            return False
        return None
    return None


class Frame(object):

    def __init__(self, func, module, cls, depth):
        self.func = func
        self.module = module
        self.cls = cls
        self.depth = depth
        self.env = {}
        self.exc = None


class Path(object):

    def __init__(self):
        self.kind = None
        self.value = None
        self.events = []
        self.facts = []
        self.node = None

    def __repr__(self):
        return 'Path(%s %s)' % (self.kind, show(self.value))


class Hooks(object):

    """Override to supply knowledge"""

    max_paths = 4000
    max_depth = 12
    max_loop = 2
    max_while = 40

    def inline(self, ev, f, recv, args, kw):
        """True to evaluate the body of the function f"""
        return True

    def call(self, ev, name, fn, recv, args, kw, node, fr):
        """NotImplemented, or the value of the call"""
        return NotImplemented

    def attr(self, ev, base, name, fr):
        return NotImplemented

    def cond(self, ev, v, fr):
        """Truth of the undecided v or None"""
        return None

    def compare(self, ev, op, a, b, fr):
        return NotImplemented

    def store(self, ev, base, name, v, node, fr):
        return None


class PEval(object):

    def __init__(self, repo, hooks=None):
        self.repo = repo
        self.hooks = hooks or Hooks()
        self.assigned = {}
        for m in repo.modules.values():
            for s in m.tree.body:
                if isinstance(s, ast.Assign) and len(s.targets) == 1 and \
                        isinstance(s.targets[0], ast.Attribute):
                    c = repo.resolve_expr(s.targets[0].value, m)
                    if isinstance(c, Class):
                        self.assigned[(c.qual, s.targets[0].attr)] = (
                            s.value, m)
        self.cache = {}

    # ---- driver ------------------------------------------------------
    def paths(self, thunk):
        """Runs thunk(self) under every sequence of decisions"""
        script = []
        out = []
        while True:
            self.script = list(script)
            self.taken = []
            self.facts = {}
            self.path = Path()
            self.counter = 0
            p = self.path
            try:
                p.value = thunk(self)
                p.kind = 'return'
            except Raised as e:
                p.kind = 'raise'
                p.value = e.name
                p.node = e.node
                p.eargs = e.eargs
            except Cut:
                p.kind = 'cut'
            p.facts = list(self.facts.items())
            out.append(p)
            if len(out) > self.hooks.max_paths:
                raise TooMany()
            t = self.taken
            while t and t[-1][0] == t[-1][1] - 1:
                t.pop()
            if not t:
                return out
            script = [x for x, n in t[:-1]] + [t[-1][0] + 1]

    def choose(self, n):
        k = len(self.taken)
        c = self.script[k] if k < len(self.script) else 0
        self.taken.append((c, n))
        return c

    def event(self, kind, *data):
        self.path.events.append((kind,) + data)

    def fresh(self, *args):
        self.counter += 1
        return Sym('val', self.counter, *args)

    def func(self, f, args, kw=None, recv=None, cls=None):
        return self.invoke(f, recv, list(args), dict(kw or {}), None, None,
                           cls)

    def run(self, f, args=(), kw=None, recv=None, cls=None):
        def thunk(ev):
            a = args(ev) if callable(args) else args
            r = recv(ev) if callable(recv) and not isinstance(
                recv, Sym) else recv
            return self.func(f, a, kw, r, cls)
        return self.paths(thunk)

    # ---- truth -------------------------------------------------------
    def truth(self, v, fr=None):
        if isinstance(v, CONST):
            return bool(v)
        if isinstance(v, tuple):
            return bool(v)
        if isinstance(v, PList):
            if v.items:
                return True
            if not v.open:
                return False
        if isinstance(v, PDict):
            return bool(v.items)
        if isinstance(v, (Func, Class, Bound, Closure, ModRef, Ext, Enum)):
            return True
        if isinstance(v, Str):
            if any(isinstance(p, str) and p for p in v.parts):
                return True
        if isinstance(v, Sym) and v.op == 'not':
            return not self.truth(v.args[0], fr)
        r = self.hooks.cond(self, v, fr)
        if r is not None:
            return r
        if isinstance(v, Obj):
            for n in ('__bool__', '__len__', '__nonzero__'):
                f = self.repo.find_method(v.cls, n)
                if f is not None:
                    break
            else:
                return True
        return self.decide(v)

    def decide(self, key):
        k = key if not isinstance(key, (PList, PDict, Obj)) else (
            'id', id(key))
        if k in self.facts:
            return self.facts[k]
        r = self.choose(2) == 0
        self.facts[k] = r
        return r

    # ---- functions ---------------------------------------------------
    def invoke(self, f, recv, args, kw, node, fr, cls=None):
        depth = fr.depth + 1 if fr is not None else 0
        if depth > self.hooks.max_depth:
            raise Cut()
        nf = Frame(f, f.module, cls or (
            recv.cls if isinstance(recv, Obj) else f.cls), depth)
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        vals = list(args)
        if f.bound:
            if recv is None and f.cls is not None:
                recv = Sym('param', 'self')
            vals = [recv] + vals
        env = nf.env
        for n, v in zip(names, vals):
            env[n] = v
        if len(vals) > len(names):
            if a.vararg:
                env[a.vararg.arg] = tuple(vals[len(names):])
            else:
                raise Raised('builtins.TypeError', ('too many arguments',),
                             node)
        elif a.vararg:
            env[a.vararg.arg] = ()
        extra = []
        for k, v in kw.items():
            if k in names or k in [x.arg for x in a.kwonlyargs]:
                env[k] = v
            elif k == '**':
                continue
            else:
                extra.append((k, v))
        if a.kwarg:
            env[a.kwarg.arg] = PDict(extra)
        elif extra:
            raise Raised('builtins.TypeError', ('unexpected keyword',),
                         node)
        df = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                df[x.arg] = d
        for n in names + [x.arg for x in a.kwonlyargs]:
            if n not in env:
                if n in df:
                    env[n] = self.ev(df[n], nf)
                elif '**' in kw:
                    env[n] = self.fresh('kwarg', n)
                else:
                    raise Raised('builtins.TypeError',
                                 ('missing argument ' + n,), node)
        if isinstance(f.node, ast.Lambda):
            return self.ev(f.node.body, nf)
        if any(isinstance(x, (ast.Yield, ast.YieldFrom))
               for x in own(f.node)):
            lst = PList([], 'generator')
            nf.gen = lst
            try:
                self.block(f.node.body, nf)
            except Ret:
                pass
            return lst
        try:
            self.block(f.node.body, nf)
        except Ret as r:
            return r.value
        return None

    def construct(self, c, args, kw, node, fr):
        o = Obj(c)
        f = self.repo.find_method(c, '__init__')
        if f is not None and not self.is_exc(c):
            r = self.hooks.call(self, '__init__', f, o, args, kw, node, fr)
            if r is NotImplemented and self.hooks.inline(self, f, o, args,
                                                         kw):
                self.invoke(f, o, args, kw, node, fr)
        return o

    def is_exc(self, c):
        if isinstance(c, Class):
            for k in self.repo.mro(c):
                if isinstance(k, Ext):
                    e = ext_class(k.name)
                    if isinstance(e, type) and issubclass(
                            e, BaseException):
                        return True
            return False
        if isinstance(c, Ext):
            e = ext_class(c.name)
            return isinstance(e, type) and issubclass(e, BaseException)
        return False

    # ---- statements --------------------------------------------------
    def block(self, body, fr):
        for s in body:
            self.stmt(s, fr)

    def stmt(self, s, fr):
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            raise Unsupported(type(s).__name__)
        return m(s, fr)

    def s_Expr(self, s, fr):
        if isinstance(s.value, ast.Constant):
            return
        self.ev(s.value, fr)

    def s_Pass(self, s, fr):
        pass

    s_Global = s_Nonlocal = s_Import = s_ImportFrom = s_Pass

    def s_Delete(self, s, fr):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                b = self.ev(t.value, fr)
                i = self.ev(t.slice, fr)
                if isinstance(b, PDict):
                    b.items = [(k, v) for k, v in b.items
                               if same(k, i) is not True]
                elif isinstance(b, PList) and isinstance(i, int) and \
                        -len(b.items) <= i < len(b.items):
                    del b.items[i]
                self.event('del', b, i)

    def s_Assert(self, s, fr):
        self.ev(s.test, fr)

    def s_FunctionDef(self, s, fr):
        f = fr.func.nested.get(s.name) if fr.func is not None else None
        if f is None:
            fr.env[s.name] = self.fresh('def', s.name)
        else:
            fr.env[s.name] = Closure(f, fr.env, fr)

    def s_ClassDef(self, s, fr):
        fr.env[s.name] = self.fresh('class', s.name)

    def s_Return(self, s, fr):
        raise Ret(None if s.value is None else self.ev(s.value, fr))

    def s_Assign(self, s, fr):
        v = self.ev(s.value, fr)
        for t in s.targets:
            self.assign(t, v, fr, s)

    def s_AnnAssign(self, s, fr):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, fr), fr, s)

    def s_AugAssign(self, s, fr):
        t = s.target
        load = ast.copy_location(
            ast.Name(t.id, ast.Load()) if isinstance(t, ast.Name) else
            ast.Attribute(t.value, t.attr, ast.Load())
            if isinstance(t, ast.Attribute) else
            ast.Subscript(t.value, t.slice, ast.Load()), t)
        a = self.ev(load, fr)
        b = self.ev(s.value, fr)
        if isinstance(a, PList) and isinstance(s.op, ast.Add):
            if isinstance(b, (PList, tuple)):
                a.items += list(b.items if isinstance(b, PList) else b)
            else:
                a.items.append(Sym('splat', b))
            return
        self.assign(t, self.binop(s.op, a, b, fr), fr, s)

    def assign(self, t, v, fr, node):
        if isinstance(t, ast.Name):
            fr.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            if any(isinstance(x, ast.Starred) for x in t.elts):
                for x in t.elts:
                    self.assign(x.value if isinstance(x, ast.Starred)
                                else x, self.fresh('star'), fr, node)
                return
            if isinstance(v, PList) and not v.open:
                v = tuple(v.items)
            if isinstance(v, tuple):
                if len(v) != n:
                    raise Raised('builtins.ValueError', ('unpack',), node)
                for x, y in zip(t.elts, v):
                    self.assign(x, y, fr, node)
            else:
                for i, x in enumerate(t.elts):
                    self.assign(x, self.subscript(v, i, fr, node), fr,
                                node)
        elif isinstance(t, ast.Attribute):
            b = self.ev(t.value, fr)
            self.hooks.store(self, b, t.attr, v, node, fr)
            if isinstance(b, Obj):
                b.attrs[t.attr] = v
            else:
                self.facts_store(b, t.attr, v)
        elif isinstance(t, ast.Subscript):
            b = self.ev(t.value, fr)
            if isinstance(t.slice, ast.Slice):
                lo, hi = [None if x is None else self.ev(x, fr)
                          for x in (t.slice.lower, t.slice.upper)]
                if not isinstance(b, PList):
                    raise Unsupported('Slice')
                if isinstance(v, (tuple, bytes)):
                    v = PList(v)
                if t.slice.step is None and isinstance(v, PList) and \
                        all(x is None or type(x) is int for x in (lo, hi)):
                    b.items[lo:hi] = list(v.items)
                    b.open = b.open or v.open
                else:
                    b.items = [Sym('maybe', x) for x in b.items]
                    b.open = True
                return
            i = self.ev(t.slice, fr)
            self.hooks.store(self, b, i, v, node, fr)
            if isinstance(b, PDict):
                b.put(i, v)
            elif isinstance(b, PList):
                if isinstance(i, int) and -len(b.items) <= i < len(
                        b.items):
                    b.items[i] = v
                else:
                    b.items = [Sym('maybe', x) for x in b.items]
                    b.open = True

    def facts_store(self, b, name, v):
        if isinstance(b, Sym):
            self.facts[('heap', b, name)] = v

    def s_If(self, s, fr):
        if self.truth(self.ev(s.test, fr), fr):
            self.block(s.body, fr)
        else:
            self.block(s.orelse, fr)

    def s_With(self, s, fr):
        for i in s.items:
            v = self.ev(i.context_expr, fr)
            if i.optional_vars is not None:
                self.assign(i.optional_vars, Sym('enter', v) if not
                            isinstance(v, Obj) else v, fr, s)
        self.block(s.body, fr)

    def s_While(self, s, fr):
        n = 0
        while True:
            if not self.truth(self.ev(s.test, fr), fr):
                self.block(s.orelse, fr)
                return
            n += 1
            if n > self.hooks.max_while:
                raise Cut()
            try:
                self.block(s.body, fr)
            except Brk:
                return
            except Cont:
                pass

    def s_For(self, s, fr):
        it = self.ev(s.iter, fr)
        try:
            for x in self.iterate(it, fr, s):
                self.assign(s.target, x, fr, s)
                try:
                    self.block(s.body, fr)
                except Cont:
                    pass
        except Brk:
            return
        self.block(s.orelse, fr)

    def iterate(self, it, fr, node):
        if isinstance(it, tuple):
            for x in it:
                yield x
            return
        if isinstance(it, (str, bytes)):
            for x in it:
                yield x
            return
        if isinstance(it, PList):
            for x in list(it.items):
                yield x
            if not it.open:
                return
        if isinstance(it, PDict):
            for k, v in list(it.items):
                yield k
            return
        n = 0
        base = it if isinstance(it, Sym) else Sym('iter', id(it))
        while True:
            self.counter += 1
            if not self.decide(Sym('more', base, self.counter)):
                return
            n += 1
            if n > self.hooks.max_loop:
                raise Cut()
            yield Sym('elem', base, self.counter)

    def s_Break(self, s, fr):
        raise Brk()

    def s_Continue(self, s, fr):
        raise Cont()

    def s_Raise(self, s, fr):
        if s.exc is None:
            if fr.exc is not None:
                raise fr.exc
            raise Raised('builtins.RuntimeError', (), s)
        v = self.ev(s.exc, fr)
        if isinstance(v, (Class, Ext)):
            raise Raised(v.qual, (), s)
        if isinstance(v, Obj):
            raise Raised(v.cls.qual, getattr(v, 'eargs', ()), s)
        if isinstance(v, Sym) and v.op == 'excobj':
            raise Raised(v.args[0], v.args[1:], s)
        raise Raised('?', (v,), s)

    def s_Try(self, s, fr):
        try:
            try:
                self.block(s.body, fr)
            except Raised as e:
                for h in s.handlers:
                    if self.matches(e, h.type, fr):
                        if h.name:
                            fr.env[h.name] = Sym('excobj', e.name,
                                                 *e.eargs)
                        old = fr.exc
                        fr.exc = e
                        try:
                            self.block(h.body, fr)
                        finally:
                            fr.exc = old
                        break
                else:
                    raise
            else:
                self.block(s.orelse, fr)
        finally:
            self.block(s.finalbody, fr)

    s_TryStar = s_Try

    def matches(self, e, t, fr):
        if t is None:
            return True
        ts = t.elts if isinstance(t, ast.Tuple) else [t]
        for x in ts:
            r = self.repo.resolve_expr(x, fr.module, None, fr.func)
            if r is not None and self.subexc(e.name, r):
                return True
        return False

    def subexc(self, name, r):
        if r.qual == name:
            return True
        c = self.repo.classes.get(name)
        if c is not None:
            for k in self.repo.mro(c):
                if k is r or getattr(k, 'qual', None) == r.qual:
                    return True
                if isinstance(k, Ext) and isinstance(r, Ext) and \
                        self.extsub(k.name, r.name):
                    return True
            return False
        return isinstance(r, Ext) and self.extsub(name, r.name)

    def extsub(self, a, b):
        x, y = ext_class(a), ext_class(b)
        return isinstance(x, type) and isinstance(y, type) and \
            issubclass(x, y)

    # ---- expressions -------------------------------------------------
    def ev(self, e, fr):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise Unsupported(type(e).__name__)
        return m(e, fr)

    def e_Constant(self, e, fr):
        return e.value

    def e_Name(self, e, fr):
        if e.id in fr.env:
            return fr.env[e.id]
        f = fr.func
        env = getattr(fr, 'closure', None)
        if env is not None and e.id in env:
            return env[e.id]
        r = self.repo.lookup(fr.module, e.id)
        if r is None and hasattr(builtins, e.id):
            r = Ext('builtins.' + e.id)
        return self.ref(r, e.id)

    def ref(self, r, name):
        if r is None:
            return Sym('name', name)
        if isinstance(r, Const):
            return self.constant(r)
        return r

    def constant(self, r):
        if r.qual in self.cache:
            return self.cache[r.qual]
        self.cache[r.qual] = Sym('glob', r.qual)   # recursion guard
        v = Sym('glob', r.qual)
        if isinstance(r.value, ast.AST):
            fr = Frame(None, r.module, None, 0)
            fr.static = True
            try:
                x = self.ev(r.value, fr)
                if known(x) or isinstance(x, (tuple, Str, Ext)):
                    v = x
            except (Unsupported, Raised, Cut):
                pass
        self.cache[r.qual] = v
        return v

    def e_Attribute(self, e, fr):
        b = self.ev(e.value, fr)
        return self.getattr(b, e.attr, fr, e)

    def enum_member(self, c, name):
        """The member called name of an enumeration class"""
        for k in self.repo.mro(c):
            if not isinstance(k, Class):
                continue
            if 'decode' in k.attrs:
                d = k.attrs['decode'][-1]
                if not isinstance(d, ast.Dict):
                    return None
                names = [x.value for x in d.keys
                         if isinstance(x, ast.Constant)]
                al = {}
                if 'aliases' in k.attrs and isinstance(
                        k.attrs['aliases'][-1], ast.Dict):
                    a = k.attrs['aliases'][-1]
                    for x, y in zip(a.keys, a.values):
                        if isinstance(x, ast.Constant) and isinstance(
                                y, ast.Constant):
                            al[x.value] = y.value
                n = al.get(name, name)
                if n in names:
                    return Enum(k.qual, n)
                return None
        return None

    def enum_names(self, c):
        for k in self.repo.mro(c):
            if isinstance(k, Class) and 'decode' in k.attrs:
                d = k.attrs['decode'][-1]
                return [x.value for x in d.keys]
        return []

    def getattr(self, b, name, fr, node=None):
        r = self.hooks.attr(self, b, name, fr)
        if r is not NotImplemented:
            return r
        if isinstance(b, Obj):
            if name in b.attrs:
                return b.attrs[name]
            if name == '__class__':
                return b.cls
            v = self.class_attr(b.cls, name, b)
            if v is not None:
                return v[0]
            return Sym('attr', Sym('obj', b.id), name)
        if isinstance(b, Super):
            f = self.repo.find_method(b.cls, name, b.after)
            if f is not None:
                return Bound(b.recv, f)
            return Sym('attr', Sym('super', b.after.qual), name)
        if isinstance(b, Class):
            v = self.class_attr(b, name, None)
            if v is not None:
                return v[0]
            m = self.enum_member(b, name)
            if m is not None:
                return m
            return Sym('attr', Sym('class', b.qual), name)
        if isinstance(b, (ModRef, Ext)):
            x = self.repo.member(b, name)
            return self.ref(x, name) if x is not None else Sym(
                'attr', Sym('mod', b.qual), name)
        if isinstance(b, (PList, PDict, str, Str, bytes)) or isinstance(
                b, tuple):
            return BMeth(b, name)
        if isinstance(b, Sym):
            k = ('heap', b, name)
            if k in self.facts:
                return self.facts[k]
        if b is None:
            self.event('none-attr', name, node)
            raise Raised('builtins.AttributeError', (name,), node)
        return Sym('attr', b, name)

    def class_attr(self, c, name, recv):
        for k in self.repo.mro(c):
            if not isinstance(k, Class):
                continue
            if (k.qual, name) in self.assigned:
                v, m = self.assigned[(k.qual, name)]
                return (self.constant(Const(m, name, v,
                                            k.qual + '.' + name)),)
            if name in k.methods:
                f = k.methods[name]
                if is_property(f):
                    return (self.invoke(f, recv, [], {}, None, None),) \
                        if recv is not None else (Sym('prop', f.qual),)
                if recv is not None and f.bound:
                    return (Bound(recv, f),)
                if recv is None and f.bound and is_classmethod(f):
                    return (Bound(c, f),)
                return (f,)
            if name in k.attrs:
                v = k.attrs[name][-1]
                if isinstance(v, Class):
                    return (v,)
                if isinstance(v, ast.AST):
                    r = self.repo.resolve_expr(v, k.module, k)
                    if isinstance(r, Func):
                        return (Bound(recv, r) if recv is not None and
                                r.bound else r,)
                    if isinstance(r, Class):
                        return (r,)
                    return (self.constant(Const(k.module, name, v,
                                                k.qual + '.' + name)),)
                return (Sym('glob', k.qual + '.' + name),)
        return None

    def e_Tuple(self, e, fr):
        return tuple(self.splat(e.elts, fr))

    def splat(self, elts, fr):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value, fr)
                if isinstance(v, PList) and not v.open:
                    out += v.items
                elif isinstance(v, tuple):
                    out += list(v)
                else:
                    out.append(Sym('splat', v))
            else:
                out.append(self.ev(x, fr))
        return out

    def e_List(self, e, fr):
        return PList(self.splat(e.elts, fr))

    def e_Set(self, e, fr):
        return PList(self.splat(e.elts, fr), 'set')

    def e_Dict(self, e, fr):
        d = PDict()
        for k, v in zip(e.keys, e.values):
            if k is None:
                x = self.ev(v, fr)
                if isinstance(x, PDict):
                    for a, b in x.items:
                        d.put(a, b)
                continue
            a = self.ev(k, fr)
            b = self.ev(v, fr)
            d.items.append((a, b))
        return d

    def e_JoinedStr(self, e, fr):
        parts = []
        for v in e.values:
            if isinstance(v, ast.FormattedValue):
                parts.append(self.to_str(self.ev(v.value, fr)))
            else:
                parts.append(v.value)
        return self.text(parts)

    def to_str(self, v):
        if isinstance(v, (str, Str)):
            return v
        if isinstance(v, bool) or v is None or isinstance(v, int):
            return str(v)
        return v

    def text(self, parts):
        """Normalised text from pieces"""
        out = []
        for p in parts:
            ps = p.parts if isinstance(p, Str) else (p,)
            for q in ps:
                if isinstance(q, str) and out and isinstance(out[-1], str):
                    out[-1] += q
                elif q != '' or not isinstance(q, str):
                    out.append(q)
        if not out:
            return ''
        if len(out) == 1 and isinstance(out[0], str):
            return out[0]
        return Str(out)

    def e_UnaryOp(self, e, fr):
        v = self.ev(e.operand, fr)
        if isinstance(e.op, ast.Not):
            if isinstance(v, Sym):
                return Sym('not', v)
            return not self.truth(v, fr)
        if isinstance(v, (int, float)) and isinstance(e.op, ast.USub):
            return -v
        return Sym('un', type(e.op).__name__, v)

    def e_BoolOp(self, e, fr):
        isand = isinstance(e.op, ast.And)
        v = None
        for n, x in enumerate(e.values):
            v = self.ev(x, fr)
            if n == len(e.values) - 1:
                return v
            if self.truth(v, fr) is not isand:
                return v
        return v

    def e_IfExp(self, e, fr):
        if self.truth(self.ev(e.test, fr), fr):
            return self.ev(e.body, fr)
        return self.ev(e.orelse, fr)

    def e_NamedExpr(self, e, fr):
        v = self.ev(e.value, fr)
        fr.env[e.target.id] = v
        return v

    def e_BinOp(self, e, fr):
        a = self.ev(e.left, fr)
        b = self.ev(e.right, fr)
        return self.binop(e.op, a, b, fr)

    def binop(self, op, a, b, fr):
        if isinstance(op, ast.Mod) and isinstance(a, (str, Str)):
            return self.format(a, b)
        if isinstance(op, ast.Add):
            if isinstance(a, (str, Str)) and (
                    isinstance(b, (str, Str, Sym))) or \
                    isinstance(b, (str, Str)) and isinstance(a, Sym):
                return self.text([a, b])
            if isinstance(a, PList) and isinstance(b, PList):
                r = PList(a.items + b.items)
                r.open = a.open or b.open
                return r
            if isinstance(a, tuple) and isinstance(b, tuple):
                return a + b
            if isinstance(a, PList):
                return PList(a.items + [Sym('splat', b)])
        if isinstance(a, bytes) and isinstance(op, ast.Mod) and isinstance(
                b, tuple) and all(isinstance(x, (int, bytes)) for x in b):
            try:
                return a % b
            except (TypeError, ValueError):
                raise Raised('builtins.TypeError', ('format',))
        if isinstance(a, CONST) and isinstance(b, CONST):
            try:
                if isinstance(op, ast.Add):
                    return a + b
                if isinstance(op, ast.Sub):
                    return a - b
                if isinstance(op, ast.Mult):
                    return a * b
                if isinstance(op, ast.FloorDiv):
                    return a // b
                if isinstance(op, ast.Mod):
                    return a % b
                if isinstance(op, ast.BitAnd):
                    return a & b
                if isinstance(op, ast.BitOr):
                    return a | b
            except Exception:
                raise Raised('builtins.TypeError', ('operand',))
        return Sym('bin', type(op).__name__, a, b)

    def format(self, a, b):
        """%-formatting"""
        if isinstance(a, Str):
            return self.text([a, Sym('fmtargs', b)])
        args = list(b) if isinstance(b, tuple) else [b]
        if isinstance(b, PDict) or isinstance(b, Sym) and '%(' in a:
            return self.text([Sym('fmt', a, b)])
        out = []
        i = 0
        import re
        pos = 0
        for m in re.finditer(
                r'%([-+ #0]*)(\d+|\*)?(\.(\d+|\*))?([a-zA-Z%])', a):
            out.append(a[pos:m.start()])
            pos = m.end()
            if m.group(5) == '%':
                out.append('%')
                continue
            if i >= len(args):
                raise Raised('builtins.TypeError',
                             ('not enough arguments for format',))
            v = args[i]
            i += 1
            if m.group(0) in ('%s', '%i', '%d'):
                out.append(self.to_str(v))
            elif isinstance(v, (int, str)) and m.group(2) != '*' and \
                    m.group(4) != '*':
                try:
                    out.append(m.group(0) % v)
                except (TypeError, ValueError):
                    raise Raised('builtins.TypeError', ('format',))
            else:
                out.append(Sym('fmt', m.group(0), v))
        out.append(a[pos:])
        if i < len(args):
            raise Raised('builtins.TypeError',
                         ('not all arguments converted',))
        return self.text(out)

    def e_Compare(self, e, fr):
        left = self.ev(e.left, fr)
        res = None
        for n, (op, c) in enumerate(zip(e.ops, e.comparators)):
            right = self.ev(c, fr)
            res = self.compare(op, left, right, fr)
            if n < len(e.ops) - 1 and not self.truth(res, fr):
                return False
            left = right
        return res

    def compare(self, op, a, b, fr):
        r = self.hooks.compare(self, op, a, b, fr)
        if r is not NotImplemented:
            return r
        n = type(op).__name__
        neg = n in ('NotEq', 'IsNot', 'NotIn')
        if n in ('Eq', 'NotEq', 'Is', 'IsNot'):
            s = same(a, b)
            if s is None and n in ('Eq', 'NotEq'):
                x, y = (z.items if isinstance(z, PList) and not z.open and
                        not getattr(z, 'each', False) else
                        z if isinstance(z, tuple) else None
                        for z in (a, b))
                if x is not None and y is not None:
                    s = len(x) == len(y) and all(
                        self.truth(self.compare(ast.Eq(), i, j, fr), fr)
                        for i, j in zip(x, y))
            if s is None and (a is None or b is None):
                x = b if a is None else a
                if isinstance(x, (Str, tuple, BMeth, Ext, ModRef)):
                    s = False
            if s is None:
                x, y = (a, b)
                if known(x) and not known(y):
                    x, y = y, x
                s = Sym('cmp', '==' if n in ('Eq', 'NotEq') and
                        y is not None else 'is', x, y)
                return Sym('not', s) if neg else s
            return s is not neg
        if n in ('In', 'NotIn'):
            items = None
            if isinstance(b, tuple):
                items = list(b)
            elif isinstance(b, PList) and not b.open:
                items = b.items
            elif isinstance(b, PDict):
                items = [k for k, v in b.items]
            elif isinstance(b, (str, bytes)) and type(a) is type(b):
                return (a in b) is not neg
            if items is not None:
                rs = [same(a, x) for x in items]
                if True in rs:
                    return not neg
                if all(x is False for x in rs):
                    return neg
            s = Sym('cmp', 'in', a, b if not isinstance(
                b, (PList, PDict)) else tuple(items or ()))
            return Sym('not', s) if neg else s
        ops = {'Lt': lambda x, y: x < y, 'LtE': lambda x, y: x <= y,
               'Gt': lambda x, y: x > y, 'GtE': lambda x, y: x >= y}
        if isinstance(a, CONST) and isinstance(b, CONST):
            try:
                return ops[n](a, b)
            except TypeError:
                raise Raised('builtins.TypeError', ('compare',))
        if n == 'Gt':
            return Sym('cmp', '<', b, a)
        if n == 'GtE':
            return Sym('not', Sym('cmp', '<', a, b))
        if n == 'LtE':
            return Sym('not', Sym('cmp', '<', b, a))
        return Sym('cmp', '<', a, b)

    def e_Subscript(self, e, fr):
        b = self.ev(e.value, fr)
        if isinstance(e.slice, ast.Slice):
            lo, hi, st = [None if x is None else self.ev(x, fr) for x in (
                e.slice.lower, e.slice.upper, e.slice.step)]
            if all(isinstance(x, (int, type(None))) for x in (lo, hi, st)):
                s = slice(lo, hi, st)
                if isinstance(b, (str, bytes, tuple)):
                    return b[s]
                if isinstance(b, PList) and not b.open:
                    return PList(b.items[s])
            return Sym('slice', b if not isinstance(b, (PList, PDict))
                       else id(b), lo, hi, st)
        i = self.ev(e.slice, fr)
        return self.subscript(b, i, fr, e)

    def subscript(self, b, i, fr, node):
        if isinstance(b, tuple) or isinstance(b, PList) and not b.open:
            items = list(b) if isinstance(b, tuple) else b.items
            if isinstance(i, int):
                if -len(items) <= i < len(items):
                    return items[i]
                raise Raised('builtins.IndexError', (), node)
        elif isinstance(b, PList):
            if isinstance(i, int) and 0 <= i < len(b.items):
                return b.items[i]
        elif isinstance(b, PDict):
            rs = [same(k, i) for k, v in b.items]
            if True in rs:
                return b.items[rs.index(True)][1]
            if all(r is False for r in rs):
                raise Raised('builtins.KeyError', (i,), node)
        elif isinstance(b, (str, bytes)) and isinstance(i, int):
            if -len(b) <= i < len(b):
                return b[i]
            raise Raised('builtins.IndexError', (), node)
        elif isinstance(b, Obj):
            f = self.repo.find_method(b.cls, '__getitem__')
            if f is not None:
                return self.callv(Bound(b, f), [i], {}, node, fr,
                                  '__getitem__')
        if isinstance(b, Sym):
            k = ('heap', b, i)
            try:
                if k in self.facts:
                    return self.facts[k]
            except TypeError:
                pass
        return Sym('sub', b if not isinstance(b, (PList, PDict)) else
                   id(b), i)

    def e_Lambda(self, e, fr):
        f = Func(fr.module, e, fr.func.cls if fr.func else None, fr.func,
                 (fr.func.qual if fr.func else fr.module.name) +
                 '.<lambda>')
        return Closure(f, fr.env, fr)

    def e_Await(self, e, fr):
        raise Unsupported('await')

    def e_Yield(self, e, fr):
        v = self.ev(e.value, fr) if e.value is not None else None
        fr.gen.items.append(v)
        self.event('yield', v)
        return None

    def e_YieldFrom(self, e, fr):
        v = self.ev(e.value, fr)
        for x in self.iterate(v, fr, e):
            fr.gen.items.append(x)
        return None

    def e_Starred(self, e, fr):
        return Sym('splat', self.ev(e.value, fr))

    def comp(self, e, fr, fn):
        saved = dict(fr.env)
        out = []
        opened = [False]

        def go(gs):
            if not gs:
                out.append(fn())
                return
            g = gs[0]
            it = self.ev(g.iter, fr)
            if isinstance(it, (tuple, PDict)) or isinstance(
                    it, PList) and not it.open:
                for x in self.iterate(it, fr, e):
                    self.assign(g.target, x, fr, e)
                    if all(self.truth(self.ev(c, fr), fr) for c in g.ifs):
                        go(gs[1:])
            else:
                opened[0] = True
                base = it if isinstance(it, Sym) else Sym('iter', id(it))
                self.counter += 1
                self.assign(g.target, Sym('elem', base, self.counter), fr,
                            e)
                go(gs[1:])
        go(e.generators)
        fr.env.clear()
        fr.env.update(saved)
        return out, opened[0]

    def e_ListComp(self, e, fr):
        out, op = self.comp(e, fr, lambda: self.ev(e.elt, fr))
        r = PList([Sym('each', x) for x in out] if op else out)
        r.open = False
        r.each = op
        return r

    e_GeneratorExp = e_ListComp

    def e_SetComp(self, e, fr):
        r = self.e_ListComp(e, fr)
        r.kind = 'set'
        return r

    def e_DictComp(self, e, fr):
        out, op = self.comp(e, fr, lambda: (self.ev(e.key, fr),
                                            self.ev(e.value, fr)))
        if op:
            return self.fresh('dictcomp')
        return PDict(out)

    # ---- calls -------------------------------------------------------
    def e_Call(self, e, fr):
        fn = e.func
        recv = None
        if isinstance(fn, ast.Name) and fn.id == 'super' and \
                'super' not in fr.env:
            c = fr.func.cls
            ps = fr.func.params()
            if e.args:
                r = self.repo.resolve_expr(e.args[0], fr.module)
                if isinstance(r, Class):
                    c = r
            r = fr.env.get(ps[0]) if ps else None
            return Super(r, fr.cls or c, c)
        f = self.ev(fn, fr)
        args = self.splat(e.args, fr)
        kw = {}
        for k in e.keywords:
            v = self.ev(k.value, fr)
            if k.arg is None:
                if isinstance(v, PDict) and all(isinstance(a, str)
                                                for a, b in v.items):
                    kw.update(v.items)
                else:
                    kw['**'] = v
            else:
                kw[k.arg] = v
        name = fn.attr if isinstance(fn, ast.Attribute) else fn.id \
            if isinstance(fn, ast.Name) else ''
        return self.callv(f, args, kw, e, fr, name)

    def callv(self, f, args, kw, node, fr, name=''):
        recv = None
        func = f
        if isinstance(f, Bound):
            recv, func = f.recv, f.func
            name = func.name
        elif isinstance(f, BMeth):
            recv = f.recv
            func = None
        elif isinstance(f, Sym) and f.op == 'attr':
            recv = f.args[0]
            func = None
        if name in ('', None):
            name = getattr(func, 'name', '')
        r = self.hooks.call(self, name, func, recv, args, kw, node, fr)
        if r is not NotImplemented:
            return r
        if any(isinstance(a, Sym) and a.op == 'splat' for a in args) and \
                isinstance(func, Func):
            return self.fresh('call', name)
        if isinstance(f, BMeth):
            return self.container_call(recv, f.name, args, kw, node, fr)
        if isinstance(func, Func):
            if recv is None and func.bound and func.cls is not None and \
                    args:
                recv, args = args[0], args[1:]
            if self.hooks.inline(self, func, recv, args, kw):
                return self.invoke(func, recv, args, kw, node, fr,
                                   recv if isinstance(recv, Class)
                                   else None)
            return self.fresh('call', name, recv if not isinstance(
                recv, (Obj, PList, PDict)) else id(recv)) \
                if False else self.opaque(name, recv, args, kw)
        if isinstance(func, Closure):
            nf = func.node
            r = self.closure_call(func, args, kw, node, fr)
            return r
        if isinstance(func, Class):
            if self.is_exc(func):
                o = Obj(func)
                o.eargs = tuple(args)
                return o
            return self.construct(func, args, kw, node, fr)
        if isinstance(func, Ext):
            if self.is_exc(func):
                return Sym('excobj', func.name, *[
                    a for a in args if not isinstance(a, (PList, PDict))])
            r = self.builtin(func.name, args, kw, node, fr)
            if r is not NotImplemented:
                return r
        return self.opaque(name, recv, args, kw)

    def opaque(self, name, recv, args, kw):
        self.counter += 1

        def clean(x):
            if isinstance(x, (PList, PDict)):
                return Sym('box', repr(x))
            return x
        return Sym('call', name, clean(recv), tuple(map(clean, args)),
                   tuple((k, clean(v)) for k, v in kw.items()),
                   self.counter)

    def closure_call(self, c, args, kw, node, fr):
        f = c.node if isinstance(c.node, Func) else None
        if f is None:
            return self.fresh('closure')
        nf = Frame(f, f.module, f.cls, fr.depth + 1 if fr else 1)
        nf.closure = c.env
        # closures see the defining environment
        a = f.node.args
        names = [x.arg for x in a.args]
        nf.env = dict(zip(names, args))
        nf.env.update((k, v) for k, v in kw.items() if k in names)
        for n, d in zip(names[len(names) - len(a.defaults):], a.defaults):
            if n not in nf.env:
                nf.env[n] = self.ev(d, nf)
        if isinstance(f.node, ast.Lambda):
            return self.ev(f.node.body, nf)
        try:
            self.block(f.node.body, nf)
        except Ret as r:
            return r.value
        return None

    def container_call(self, b, name, args, kw, node, fr):
        if isinstance(b, PList):
            if name in ('append', 'add', 'appendleft'):
                if b.kind == 'set' and any(same(x, args[0])
                                           for x in b.items):
                    return None
                b.items.append(args[0]) if name != 'appendleft' else \
                    b.items.insert(0, args[0])
                return None
            if name in ('extend', 'update'):
                v = args[0]
                if isinstance(v, (PList, tuple)):
                    b.items += list(v.items if isinstance(v, PList)
                                    else v)
                else:
                    b.items.append(Sym('splat', v))
                return None
            if name == 'insert' and isinstance(args[0], int):
                b.items.insert(args[0], args[1])
                return None
            if name == 'pop' and not b.open:
                if not b.items:
                    raise Raised('builtins.IndexError', (), node)
                i = args[0] if args else -1
                if isinstance(i, int) and -len(b.items) <= i < len(
                        b.items):
                    return b.items.pop(i)
            if name == 'reverse':
                b.items.reverse()
                return None
            if name == 'copy':
                return PList(b.items, b.kind)
            if name in ('remove', 'discard'):
                for n, x in enumerate(b.items):
                    if same(x, args[0]):
                        del b.items[n]
                        return None
            if name == 'index':
                for n, x in enumerate(b.items):
                    if same(x, args[0]):
                        return n
        elif isinstance(b, PDict):
            if name == 'get':
                for k, v in b.items:
                    if same(k, args[0]):
                        return v
                if all(same(k, args[0]) is False for k, v in b.items):
                    return args[1] if len(args) > 1 else None
                return self.opaque('get', Sym('dict', repr(b)), args, {})
            if name in ('items', 'iteritems'):
                return PList([(k, v) for k, v in b.items])
            if name in ('keys', 'iterkeys'):
                return PList([k for k, v in b.items])
            if name in ('values', 'itervalues'):
                return PList([v for k, v in b.items])
            if name == 'copy':
                return PDict(b.items)
            if name == 'update' and args and isinstance(args[0], PDict):
                for k, v in args[0].items:
                    b.put(k, v)
                return None
            if name == 'setdefault':
                if b.has(args[0]):
                    return b.get(args[0])
                b.put(args[0], args[1] if len(args) > 1 else None)
                return args[1] if len(args) > 1 else None
            if name == 'pop' and b.has(args[0]):
                v = b.get(args[0])
                b.items = [(k, x) for k, x in b.items
                           if not same(k, args[0])]
                return v
        elif isinstance(b, (str, Str)):
            if name == 'join' and len(args) == 1:
                v = args[0]
                if isinstance(v, tuple):
                    v = PList(v)
                if isinstance(v, PList) and not v.open:
                    parts = []
                    for n, x in enumerate(v.items):
                        if n:
                            parts.append(b)
                        if x is None:
                            raise Raised('builtins.TypeError',
                                         ('join',), node)
                        parts.append(x)
                    return self.text(parts)
                return self.opaque('join', b, [v], {})
            if name == 'format' and isinstance(b, str) and not kw:
                parts = b.split('{}')
                if len(parts) == len(args) + 1 and '{' not in ''.join(
                        parts):
                    out = [parts[0]]
                    for p, a in zip(parts[1:], args):
                        out += [self.to_str(a), p]
                    return self.text(out)
            if isinstance(b, str) and all(isinstance(a, (CONST, tuple))
                                          for a in args) and not kw and \
                    name in ('lower', 'upper', 'strip', 'startswith',
                             'endswith', 'split', 'replace', 'isdigit',
                             'find', 'lstrip', 'rstrip', 'title',
                             'rpartition', 'partition', 'encode'):
                v = getattr(b, name)(*args)
                return PList(v) if isinstance(v, list) else v
        elif isinstance(b, bytes):
            if name == 'join' and len(args) == 1 and isinstance(
                    args[0], (PList, tuple)) and not getattr(
                        args[0], 'open', False):
                v = list(getattr(args[0], 'items', args[0]))
                if all(isinstance(x, bytes) for x in v):
                    return b.join(v)
            elif all(isinstance(a, (CONST, tuple)) for a in args) and \
                    not kw and name in (
                        'lower', 'upper', 'strip', 'startswith', 'endswith',
                        'split', 'replace', 'isdigit', 'find', 'lstrip',
                        'rstrip', 'rpartition', 'partition', 'decode',
                        'index', 'rfind', 'count', 'isspace'):
                try:
                    v = getattr(b, name)(*args)
                except (TypeError, ValueError) as e:
                    raise Raised('builtins.' + type(e).__name__, (), node)
                return PList(v) if isinstance(v, list) else v
        elif isinstance(b, tuple) and name == 'index':
            for n, x in enumerate(b):
                if same(x, args[0]):
                    return n
        return self.opaque(name, b if not isinstance(b, (PList, PDict))
                           else Sym('box', repr(b)), args, kw)

    def isinstance_(self, v, c):
        """True, False or None"""
        if isinstance(c, tuple):
            rs = [self.isinstance_(v, x) for x in c]
            if True in rs:
                return True
            return False if all(r is False for r in rs) else None
        if isinstance(v, Obj):
            if isinstance(c, Class):
                return c in self.repo.mro(v.cls)
            if isinstance(c, Ext):
                return any(isinstance(k, Ext) and k.name == c.name
                           for k in self.repo.mro(v.cls))
            return None
        if isinstance(v, CONST) or isinstance(v, tuple):
            if isinstance(c, Class):
                return False
            if isinstance(c, Ext) and c.name.startswith('builtins.'):
                t = getattr(builtins, c.name[9:], None)
                if isinstance(t, type):
                    return isinstance(v, t)
        if isinstance(v, (PList, PDict)):
            if isinstance(c, Ext):
                n = 'dict' if isinstance(v, PDict) else v.kind
                return c.name == 'builtins.' + n
            return False
        if isinstance(v, (Str, str)) and isinstance(c, Class):
            return False
        return None

    def builtin(self, name, args, kw, node, fr):
        n = name[9:] if name.startswith('builtins.') else name
        a = args
        if n == 'isinstance' and len(a) == 2:
            r = self.isinstance_(a[0], a[1])
            if r is not None:
                return r
            return Sym('isinstance', a[0], tuple(a[1]) if isinstance(
                a[1], tuple) else a[1])
        if n == 'len' and len(a) == 1:
            if isinstance(a[0], (tuple, str, bytes)):
                return len(a[0])
            if isinstance(a[0], (PList, PDict)) and not getattr(
                    a[0], 'open', False) and not getattr(
                        a[0], 'each', False):
                return len(a[0].items)
            return Sym('len', a[0] if not isinstance(a[0], (PList, PDict))
                       else id(a[0]))
        if n == 'getattr' and len(a) >= 2 and isinstance(a[1], str):
            if isinstance(a[0], (Obj, Class)):
                v = a[0].attrs.get(a[1]) if isinstance(a[0], Obj) and \
                    a[1] in a[0].attrs else None
                if v is not None:
                    return v
                r = self.class_attr(a[0].cls if isinstance(a[0], Obj)
                                    else a[0], a[1], a[0] if isinstance(
                                        a[0], Obj) else None)
                if r is not None:
                    return r[0]
                if isinstance(a[0], Class):
                    m = self.enum_member(a[0], a[1])
                    if m is not None:
                        return m
                if len(a) > 2:
                    return a[2]
                raise Raised('builtins.AttributeError', (a[1],), node)
            return self.getattr(a[0], a[1], fr, node)
        if n == 'setattr' and len(a) == 3 and isinstance(a[1], str):
            if isinstance(a[0], Obj):
                a[0].attrs[a[1]] = a[2]
            return None
        if n in ('tuple', 'list', 'set', 'frozenset', 'sorted',
                 'iter', 'reversed'):
            if not a:
                return () if n == 'tuple' else PList(
                    [], 'set' if n == 'set' else 'list')
            v = a[0]
            if isinstance(v, PList) and not v.open:
                items = list(v.items)
            elif isinstance(v, tuple):
                items = list(v)
            elif isinstance(v, PDict):
                items = [k for k, x in v.items]
            elif v is None:
                raise Raised('builtins.TypeError', (n,), node)
            else:
                return NotImplemented
            if n == 'reversed':
                items.reverse()
            if n == 'tuple':
                return tuple(items)
            return PList(items, 'set' if 'set' in n else 'list')
        if n == 'dict':
            d = PDict()
            if a:
                v = a[0]
                if isinstance(v, PDict):
                    d = PDict(v.items)
                elif isinstance(v, (PList, tuple)):
                    for x in (v.items if isinstance(v, PList) else v):
                        if isinstance(x, tuple) and len(x) == 2:
                            d.put(x[0], x[1])
                        else:
                            return NotImplemented
                else:
                    return NotImplemented
            for k, v in kw.items():
                d.put(k, v)
            return d
        if n == 'zip' and all(isinstance(x, (tuple, PList)) for x in a):
            its = [x.items if isinstance(x, PList) else x for x in a]
            return PList([tuple(x) for x in zip(*its)])
        if n == 'enumerate' and isinstance(a[0], (tuple, PList)):
            its = a[0].items if isinstance(a[0], PList) else a[0]
            return PList([(i, x) for i, x in enumerate(its)])
        if n == 'range' and all(isinstance(x, int) for x in a):
            if len(range(*a)) < 200:
                return PList(range(*a))
        if n in ('str', 'repr') and len(a) == 1:
            if isinstance(a[0], (str, Str)) and n == 'str':
                return a[0]
            if isinstance(a[0], (bool, int)) or a[0] is None:
                return str(a[0])
        if n == 'int' and a and isinstance(
                a[0], (int, str, bytes, type(None))) and \
                all(isinstance(x, int) for x in a[1:]):
            try:
                return int(*a)
            except (ValueError, TypeError) as e:
                raise Raised('builtins.' + type(e).__name__, (), node)
        if n in ('bytes', 'bytearray') and len(a) == 1:
            x = a[0].items if isinstance(a[0], PList) and not a[0].open \
                else a[0]
            if isinstance(x, bytes):
                return x
            if isinstance(x, (list, tuple)) and all(
                    type(i) is int and 0 <= i < 256 for i in x):
                return bytes(x)
        if n == 'bool' and len(a) == 1:
            return self.truth(a[0], fr)
        if n in ('max', 'min', 'abs', 'ord', 'chr') and all(isinstance(
                x, (int, str)) for x in a) and a:
            try:
                return getattr(builtins, n)(*a)
            except (TypeError, ValueError) as e:
                raise Raised('builtins.' + type(e).__name__, (), node)
        if n == 'type' and len(a) == 1 and isinstance(a[0], Obj):
            return a[0].cls
        if n == 'callable' and len(a) == 1:
            if isinstance(a[0], (Func, Bound, Closure, Class)):
                return True
        if n == 'next' and a and isinstance(a[0], PList) and \
                not a[0].open and not getattr(a[0], 'each', False):
            if a[0].items:
                return a[0].items[0]
            if len(a) > 1:
                return a[1]
            raise Raised('builtins.StopIteration', (), node)
        if n in ('any', 'all') and len(a) == 1 and isinstance(
                a[0], PList) and not a[0].open and not getattr(
                    a[0], 'each', False):
            for x in a[0].items:
                if self.truth(x, fr) is (n == 'any'):
                    return n == 'any'
            return n == 'all'
        return NotImplemented


def own(fnode):
    todo = list(fnode.body) if not isinstance(fnode, ast.Lambda) else [
        fnode.body]
    while todo:
        n = todo.pop()
        yield n
        for c in ast.iter_child_nodes(n):
            if not isinstance(c, (ast.FunctionDef, ast.Lambda,
                                  ast.ClassDef)):
                todo.append(c)


def is_property(f):
    return any(isinstance(d, ast.Name) and d.id == 'property'
               for d in getattr(f.node, 'decorator_list', ()))


def is_classmethod(f):
    return any(isinstance(d, ast.Name) and d.id == 'classmethod'
               for d in getattr(f.node, 'decorator_list', ()))
