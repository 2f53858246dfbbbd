"""Structured abstract interpreter (property simulation).

A forward dataflow analysis over the statements of a function.  The
state holds an environment of interned value terms, the branch facts
that must hold on the path and a rule specific automaton state.  No
values are computed and no solver is used: conditions are compared
syntactically after normalisation (value numbering)."""

import ast
import sys

from .repo import Class, Const, Ext, Func, ModRef, ext_class, walk_own

sys.setrecursionlimit(20000)


# ------------------------------------------------------------- terms
class T(object):

    """An interned value term"""

    __slots__ = ('op', 'args', 'depth', 'loops', '_h', 'uid')
    table = {}

    def __new__(cls, op, *args):
        key = (op,) + tuple(
            (type(a).__name__, a) if isinstance(
                a, (bool, int, float, str, bytes)) else a for a in args)
        r = cls.table.get(key)
        if r is not None:
            return r
        r = object.__new__(cls)
        r.op = op
        r.args = args
        d = 0
        loops = frozenset()
        for a in args:
            if isinstance(a, T):
                d = max(d, a.depth)
                loops |= a.loops
            elif isinstance(a, tuple):
                for b in a:
                    if isinstance(b, T):
                        d = max(d, b.depth)
                        loops |= b.loops
                    elif isinstance(b, Loop):
                        loops |= frozenset([b])
                    elif isinstance(b, tuple):
                        for c in b:
                            if isinstance(c, T):
                                d = max(d, c.depth)
                                loops |= c.loops
            elif isinstance(a, Loop):
                loops |= frozenset([a])
        r.depth = d + 1
        r.loops = loops
        r._h = hash(key)
        r.uid = len(cls.table)
        cls.table[key] = r
        return r

    def __hash__(self):
        return self._h

    def __eq__(self, other):
        return self is other

    def __ne__(self, other):
        return self is not other

    def __lt__(self, other):
        return self.uid < other.uid

    def subterms(self):
        todo = [self]
        seen = set()
        while todo:
            t = todo.pop()
            if t in seen:
                continue
            seen.add(t)
            yield t
            for a in t.args:
                if isinstance(a, T):
                    todo.append(a)
                elif isinstance(a, tuple):
                    for b in a:
                        if isinstance(b, T):
                            todo.append(b)
                        elif isinstance(b, tuple):
                            todo += [c for c in b if isinstance(c, T)]

    def mentions(self, pred):
        if isinstance(pred, T):
            return any(t is pred for t in self.subterms())
        return any(pred(t) for t in self.subterms())

    def __repr__(self):
        return show(self)


class Loop(object):

    """A loop tag"""

    __slots__ = ('key',)
    table = {}

    def __new__(cls, key):
        r = cls.table.get(key)
        if r is None:
            r = object.__new__(cls)
            r.key = key
            cls.table[key] = r
        return r


def show(t, d=0):
    if not isinstance(t, T):
        return repr(t)
    a = t.args
    if d > 6:
        return '..'
    if t.op == 'const':
        return repr(a[0])
    if t.op in ('param', 'free'):
        return a[0]
    if t.op == 'glob':
        return a[0].qual.replace('pyslet.', '')
    if t.op == 'attr':
        return show(a[0], d + 1) + '.' + a[1]
    if t.op == 'call':
        return "%s%s(%s)" % (
            show(a[2], d + 1) + '.' if a[2] is not None else '', a[0],
            ', '.join([show(x, d + 1) for x in a[3]] +
                      ["%s=%s" % (k, show(x, d + 1)) for k, x in a[4]]))
    if t.op == 'cmp':
        return "(%s %s %s)" % (show(a[1], d + 1), a[0], show(a[2], d + 1))
    if t.op == 'bin':
        return "(%s %s %s)" % (show(a[1], d + 1), a[0], show(a[2], d + 1))
    if t.op == 'sub':
        return "%s[%s]" % (show(a[0], d + 1), show(a[1], d + 1))
    if t.op in ('tuple', 'list', 'set'):
        return "%s(%s)" % (t.op, ', '.join(show(x, d + 1) for x in a[0]))
    if t.op == 'phi':
        return "phi(%s)" % (a[1],)
    if t.op == 'elem':
        return "elem(%s)" % show(a[0], d + 1)
    if t.op == 'new':
        return "new %s(%s)" % (a[0].name, ', '.join(
            show(x, d + 1) for x in a[1]))
    if t.op in ('unk', 'exc'):
        return t.op
    return "%s(%s)" % (t.op, ', '.join(
        show(x, d + 1) if isinstance(x, T) else '' for x in a))


def const(v):
    return T('const', v)


NONE = const(None)
TRUE = const(True)
FALSE = const(False)


def is_const(t, v=Ellipsis):
    if t.op != 'const':
        return False
    if v is Ellipsis:
        return True
    return type(t.args[0]) is type(v) and t.args[0] == v


PURE = {'len', 'isinstance', 'issubclass', 'hasattr', 'str', 'int', 'bool',
        'type', 'lower', 'upper', 'strip', 'startswith', 'endswith',
        'lstrip', 'rstrip', 'is_text', 'is_string', 'is_unicode', 'tuple',
        'abs', 'id', 'repr', 'ord', 'chr', 'callable', 'isdigit',
        'is_bytes', 'frozenset', 'splitlines', 'encode', 'decode',
        'is_absolute', 'is_unary', 'canonicalize', 'get_canonical_root',
        'to_text', 'isinstance'}

NORAISE = {'len', 'isinstance', 'hasattr', 'issubclass', 'bool', 'type',
           'id', 'repr', 'callable', 'list', 'dict', 'set', 'tuple',
           'append', 'debug', 'info', 'warning', 'error', 'critical',
           'warn', 'exception', 'lower', 'upper', 'strip', 'startswith',
           'endswith', 'super', 'notify', 'notify_all', 'notifyAll',
           'release', 'is_text', 'time', 'format_exception', 'is_string',
           'join', 'keys', 'values', 'items', 'get', 'exc_info', 'range',
           'range3', 'str', 'dict_keys', 'dict_values', 'dict_items',
           'copy', 'isEnabledFor', 'log', 'currentThread', 'locals',
           'current_thread', 'Lock', 'RLock', 'Condition', 'print_exc',
           'discard', 'add', 'cast', 'object', 'frozenset', 'iter',
           'isdigit', 'min', 'max', 'sorted', 'enumerate', 'zip'}

MUTATORS = {'append', 'add', 'pop', 'remove', 'update', 'clear', 'insert',
            'extend', 'discard', 'setdefault', 'sort', 'popitem',
            'popleft', 'appendleft', 'reverse', 'write', 'truncate'}


# ------------------------------------------------------------- states
class State(object):

    __slots__ = ('env', 'heap', 'facts', 'auto', 'trace')

    def __init__(self, env=None, heap=None, facts=None, auto=None,
                 trace=()):
        self.env = env if env is not None else {}
        self.heap = heap if heap is not None else {}
        self.facts = facts if facts is not None else {}
        self.auto = auto
        self.trace = trace

    def with_env(self, env):
        return State(env, self.heap, self.facts, self.auto, self.trace)

    def set(self, name, t):
        e = dict(self.env)
        e[name] = t
        return State(e, self.heap, self.facts, self.auto, self.trace)

    def put(self, base, attr, t):
        h = dict(self.heap)
        h[(base, attr)] = t
        return State(self.env, h, self.facts, self.auto, self.trace)

    def with_auto(self, auto):
        return State(self.env, self.heap, self.facts, auto, self.trace)

    def add(self, t, pol):
        if self.facts.get(t) is pol:
            return self
        f = dict(self.facts)
        f[t] = pol
        return State(self.env, self.heap, f, self.auto, self.trace)

    def step(self, msg):
        tr = self.trace
        if len(tr) > 60:
            tr = tr[-40:]
        return State(self.env, self.heap, self.facts, self.auto,
                     tr + (msg,))

    def key(self):
        return (frozenset(self.env.items()), frozenset(self.heap.items()),
                frozenset(self.facts.items()), self.auto)

    def has(self, pred, pol):
        """True if a fact satisfying pred(term) is known with polarity"""
        return any(p is pol and pred(t) for t, p in self.facts.items())


class Frame(object):

    def __init__(self, func, cls, outer=None, call_node=None):
        self.func = func
        self.cls = cls          # concrete class of self, if any
        self.outer = outer
        self.call_node = call_node
        self.ctx = (outer.ctx + (id(call_node),)) if outer else ()
        self.loops = outer.loops if outer else ()
        self.handling = None    # current exception term in a handler
        self.module = func.module
        self.locals = assigned_names(func.node)

    def depth(self):
        n = 0
        f = self
        while f.outer:
            n += 1
            f = f.outer
        return n

    def stack(self):
        f = self
        out = []
        while f:
            out.append(f.func)
            f = f.outer
        return out


_assigned = {}


def assigned_names(fnode):
    r = _assigned.get(id(fnode))
    if r is not None:
        return r[1]
    names = set()
    glob = set()
    a = fnode.args
    for x in a.posonlyargs + a.args + a.kwonlyargs:
        names.add(x.arg)
    if a.vararg:
        names.add(a.vararg.arg)
    if a.kwarg:
        names.add(a.kwarg.arg)
    for n in walk_own(fnode):
        if isinstance(n, ast.Name) and isinstance(
                n.ctx, (ast.Store, ast.Del)):
            names.add(n.id)
        elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            names.add(n.name)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            names.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for al in n.names:
                names.add((al.asname or al.name).split('.')[0])
        elif isinstance(n, ast.Global):
            glob.update(n.names)
    names -= glob
    _assigned[id(fnode)] = (fnode, names)
    return names


class CallInfo(object):

    def __init__(self, node, name, targets, recv, args, kw, star, fr, fterm):
        self.node = node
        self.name = name          # last component of the called name
        self.targets = targets    # resolved Func/Class/Ext, maybe empty
        self.recv = recv          # receiver term or None
        self.args = args
        self.kw = kw
        self.star = star
        self.fr = fr
        self.fterm = fterm

    @property
    def target(self):
        return self.targets[0] if len(self.targets) == 1 else None

    def quals(self):
        return [t.qual for t in self.targets]

    def is_(self, *quals):
        """True if any resolved target has one of the given names

        'a.b.C.m' matches definitions of m in C or its bases when the
        resolved function was looked up through C."""
        for t in self.targets:
            q = t.qual
            if q.startswith('pyslet.'):
                q = q[7:]
            if q in quals:
                return True
        return False

    def bind(self, skip_self=True):
        """Maps parameter names to argument terms for a repo target"""
        f = self.target
        if isinstance(f, Class):
            return None
        if not isinstance(f, Func):
            return None
        ps = f.params()
        if f.bound and skip_self:
            ps = ps[1:]
        out = {}
        for p, a in zip(ps, self.args):
            out[p] = a
        out.update(self.kw)
        return out

    def arg(self, i, name=None, default=None):
        if i is not None and i < len(self.args):
            return self.args[i]
        if name is not None and name in self.kw:
            return self.kw[name]
        return default

    @property
    def where(self):
        return "%s:%s" % (self.fr.module.rel, self.node.lineno)


class Check(object):

    """Hooks for rules; override what is needed"""

    implicit = False      # exceptional exits of opaque calls everywhere
    cap = 48
    hard_cap = 200
    inline_depth = 5
    inline_size = 14      # statements of helpers always inlined

    def start(self, it, st, func):
        return st

    def call(self, it, st, ci):
        """Return None for default handling, or a list of (st, term)"""
        return None

    def after_call(self, it, st, ci, term):
        return st

    def inline(self, it, ci, func):
        """None for default policy, or True/False"""
        return None

    def attr_store(self, it, st, base, attr, value, node, fr):
        return st

    def attr_load(self, it, st, base, attr, node, fr):
        return st

    def sub_store(self, it, st, base, idx, value, node, fr):
        return st

    def sub_del(self, it, st, base, idx, node, fr):
        return st

    def enter(self, it, st, ctx, node, fr):
        return st

    def leave(self, it, st, ctx, node, fr, kind):
        return st

    def iterate(self, it, st, iterable, node, fr):
        return st

    def yield_(self, it, st, value, node, fr):
        return st

    def func_exit(self, it, st, func, kind, payload, fr):
        """Called when the root function finishes on a path"""
        return None

    def frame_enter(self, it, st, func, fr):
        return st

    def frame_leave(self, it, st, func, fr, value):
        return st

    def relevant(self, t):
        """True if facts about t should be kept apart when merging"""
        return False

    def stmt(self, it, st, node, fr):
        return st

    def may_raise(self, it, ci):
        return ci.name not in NORAISE

    def type_hint(self, it, t, fr):
        return None

    def loop_back(self, it, st, node, fr):
        """Called for each state that goes round a loop again"""
        return st

    def attr_value(self, it, st, base, attr, fr):
        """May return a term to be used for base.attr"""
        return None


class Budget(Exception):
    pass


class Interp(object):

    def __init__(self, repo, check, budget=400000):
        self.repo = repo
        self.check = check
        self.sinks = []
        self.steps = 0
        self.budget = budget
        self.attr_types = {}
        self.writes = {}
        self.truncated = 0
        self.inlined = set()
        self.closures = {}

    # ---- entry ------------------------------------------------------
    def run(self, func, cls=None, args=None, auto=None, facts=None,
            self_term=None):
        """Analyses func (with self of class cls) as an entry point"""
        self.steps = 0
        st = State(auto=auto)
        cls = cls or func.cls
        fr = Frame(func, cls if func.bound else None)
        env = {}
        ps = func.params()
        if func.bound and ps:
            env[ps[0]] = self_term or T('param', ps[0])
        a = func.node.args
        for p in ps + [x.arg for x in a.kwonlyargs]:
            if p not in env:
                env[p] = T('param', p)
        if a.vararg:
            env[a.vararg.arg] = T('param', '*' + a.vararg.arg)
        if a.kwarg:
            env[a.kwarg.arg] = T('param', '**' + a.kwarg.arg)
        if args:
            env.update(args)
        st = st.with_env(env)
        if facts:
            for t, p in facts:
                r = self.assume(st, t, p)
                st = r[0]
        st = self.check.start(self, st, func)
        self.sinks = [[]]
        outs = self.exec_body(func, [st], fr)
        res = []
        for s, v in outs:
            res.append((s, 'return', v))
        for s, e in self.sinks[0]:
            res.append((s, 'raise', e))
        self.sinks = []
        for s, k, p in res:
            self.check.func_exit(self, s, func, k, p, fr)
        return res

    def exec_body(self, func, states, fr):
        node = func.node
        if isinstance(node, ast.Lambda):
            out = []
            for s in states:
                out += self.ev(node.body, s, fr)
            return out
        o = self.block(node.body, states, fr)
        outs = [(s, NONE) for s in o['next']] + o['return']
        return outs

    # ---- states -----------------------------------------------------
    def dedupe(self, states, cap=None, site=None):
        if len(states) < 2:
            return states
        seen = {}
        for s in states:
            seen.setdefault(s.key(), s)
        states = list(seen.values())
        cap = cap or self.check.cap
        if len(states) <= cap:
            return states
        groups = {}
        for s in states:
            groups.setdefault(self.group_key(s), []).append(s)
        if len(groups) > self.check.hard_cap:
            self.truncated += 1
            groups = {}
            for s in states:
                groups.setdefault(self.coarse_key(s), []).append(s)
        out = []
        for g in groups.values():
            out.append(self.merge(g, site))
        return out

    def group_key(self, s):
        return (s.auto, frozenset((t, p) for t, p in s.facts.items()
                                  if self.check.relevant(t)))

    def coarse_key(self, s):
        return s.auto

    def merge(self, g, site):
        if len(g) == 1:
            return g[0]
        a = g[0]
        env = {}
        for k in a.env:
            v = a.env[k]
            if all(s.env.get(k) is v for s in g):
                env[k] = v
            else:
                env[k] = T('phi', (id(site), tuple(sorted(
                    {s.env[k].uid for s in g if k in s.env}))), str(k))
        heap = {}
        keys = set()
        for s in g:
            keys |= set(s.heap)
        for k in keys:
            vs = [s.heap.get(k) for s in g]
            if all(v is vs[0] for v in vs):
                heap[k] = vs[0]
            else:
                heap[k] = T('phi', (id(site), tuple(sorted(
                    {v.uid if v is not None else -1 for v in vs}))),
                    "%s.%s" % (show(k[0]), k[1]))
        facts = {t: p for t, p in a.facts.items()
                 if all(s.facts.get(t) is p for s in g)}
        return State(env, heap, facts, a.auto, a.trace)

    def raise_(self, st, exc):
        self.sinks[-1].append((st, exc))
        if len(self.sinks[-1]) > 64:
            self.sinks[-1][:] = self.dedupe_pairs(self.sinks[-1])

    def dedupe_pairs(self, pairs, cap=24):
        by = {}
        for s, v in pairs:
            if v is None:
                k = None
            elif v.op == 'new':
                k = v.args[0]
            else:
                k = v
            by.setdefault(k, []).append((s, v))
        out = []
        for g in by.values():
            v = g[0][1]
            for s in self.dedupe([x for x, _ in g], cap=cap):
                out.append((s, v))
        return out

    # ---- statements -------------------------------------------------
    def block(self, stmts, states, fr):
        out = {'next': [], 'return': [], 'break': [], 'continue': []}
        cur = states
        for s in stmts:
            if not cur:
                break
            cur = self.dedupe(cur, site=s)
            nxt = []
            for st in cur:
                self.steps += 1
                if self.steps > self.budget:
                    raise Budget(fr.func.qual)
                st = self.check.stmt(self, st, s, fr)
                o = self.statement(s, st, fr)
                nxt += o.get('next', ())
                for k in ('return', 'break', 'continue'):
                    out[k] += o.get(k, ())
            cur = nxt
        out['next'] = self.dedupe(cur, site=stmts[-1] if stmts else None)
        for k in ('break', 'continue'):
            out[k] = self.dedupe(out[k], site=stmts[0] if stmts else None)
        if len(out['return']) > self.check.cap:
            out['return'] = self.dedupe_ret(out['return'])
        return out

    def dedupe_ret(self, pairs):
        by = {}
        for s, v in pairs:
            by.setdefault(v, []).append(s)
        out = []
        for v, g in by.items():
            for s in self.dedupe(g, cap=max(8, self.check.cap // 2)):
                out.append((s, v))
        return out

    def statement(self, s, st, fr):
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            return {'next': [st]}
        return m(s, st, fr)

    def s_Expr(self, s, st, fr):
        return {'next': [x for x, _ in self.ev(s.value, st, fr)]}

    def s_Pass(self, s, st, fr):
        return {'next': [st]}

    def s_Global(self, s, st, fr):
        return {'next': [st]}

    def s_Assign(self, s, st, fr):
        out = []
        for x, v in self.ev(s.value, st, fr):
            xs = [x]
            for t in s.targets:
                nx = []
                for y in xs:
                    nx += self.assign(t, v, y, fr, s)
                xs = nx
            out += xs
        return {'next': out}

    def s_AnnAssign(self, s, st, fr):
        if s.value is None:
            return {'next': [st]}
        out = []
        for x, v in self.ev(s.value, st, fr):
            out += self.assign(s.target, v, x, fr, s)
        return {'next': out}

    def s_AugAssign(self, s, st, fr):
        out = []
        load = ast.copy_location(self.as_load(s.target), s.target)
        for x, a in self.ev(load, st, fr):
            for y, b in self.ev(s.value, x, fr):
                v = self.binop(type(s.op).__name__, a, b, s, fr)
                out += self.assign(s.target, v, y, fr, s)
        return {'next': out}

    def as_load(self, t):
        key = id(t)
        c = self.__dict__.setdefault('_loads', {})
        if key in c:
            return c[key][1]
        if isinstance(t, ast.Name):
            r = ast.Name(t.id, ast.Load())
        elif isinstance(t, ast.Attribute):
            r = ast.Attribute(t.value, t.attr, ast.Load())
        else:
            r = ast.Subscript(t.value, t.slice, ast.Load())
        ast.copy_location(r, t)
        c[key] = (t, r)
        return r

    def assign(self, t, v, st, fr, node):
        if isinstance(t, ast.Name):
            if t.id not in fr.locals:
                return [st.put(T('modvars', fr.module.name), t.id, v)]
            return [st.set(t.id, v)]
        if isinstance(t, ast.Attribute):
            out = []
            for x, b in self.ev(t.value, st, fr):
                out += self.store_attr(x, b, t.attr, v, node, fr)
            return out
        if isinstance(t, ast.Subscript):
            out = []
            for x, b in self.ev(t.value, st, fr):
                for y, i in self.ev(t.slice, x, fr):
                    y = self.check.sub_store(self, y, b, i, v, node, fr)
                    out.append(self.bump(y, b, node, fr))
            return out
        if isinstance(t, (ast.Tuple, ast.List)):
            xs = [st]
            for n, e in enumerate(t.elts):
                if isinstance(e, ast.Starred):
                    e = e.value
                    iv = self.fresh('unk', e, fr)
                elif v.op in ('tuple', 'list') and \
                        len(v.args[0]) == len(t.elts):
                    iv = v.args[0][n]
                else:
                    iv = T('sub', v, const(n))
                nx = []
                for x in xs:
                    nx += self.assign(e, iv, x, fr, node)
                xs = nx
            return xs
        if isinstance(t, ast.Starred):
            return self.assign(t.value, v, st, fr, node)
        return [st]

    def store_attr(self, st, b, attr, v, node, fr):
        st = self.check.attr_store(self, st, b, attr, v, node, fr)
        c = self.typeof(b, fr)
        if isinstance(c, Class):
            for k in self.repo.mro(c):
                if isinstance(k, Class) and attr in k.setters:
                    f = k.setters[attr]
                    ci = CallInfo(node, attr, [f], b, [v], {}, False, fr,
                                  None)
                    if self.want_inline(ci, f, fr):
                        return [x for x, _ in self.do_inline(st, ci, f)]
                    return [st]
                if isinstance(k, Class) and attr in k.methods:
                    break
        if b.op in ('sub', 'call', 'attr', 'phi', 'elem'):
            # the store succeeded
            st = st.add(T('cmp', 'is', b, NONE), False)
        return [st.put(b, attr, v)]

    def bump(self, st, b, node, fr):
        """Container b was mutated"""
        return st.put(b, '#ver', T('v', id(node), fr.ctx, fr.loops))

    def cont(self, st, b):
        v = st.heap.get((b, '#ver'))
        if v is None:
            return b
        return T('ver', b, v)

    def s_Delete(self, s, st, fr):
        xs = [st]
        for t in s.targets:
            nx = []
            for x in xs:
                if isinstance(t, ast.Subscript):
                    for y, b in self.ev(t.value, x, fr):
                        for z, i in self.ev(t.slice, y, fr):
                            z = self.check.sub_del(self, z, b, i, s, fr)
                            nx.append(self.bump(z, b, s, fr))
                            self.implicit_raise(z, None, fr)
                elif isinstance(t, ast.Attribute):
                    for y, b in self.ev(t.value, x, fr):
                        y = self.check.attr_store(
                            self, y, b, t.attr, None, s, fr)
                        nx.append(y.put(b, t.attr,
                                        self.fresh('unk', t, fr)))
                elif isinstance(t, ast.Name):
                    e = dict(x.env)
                    e.pop(t.id, None)
                    nx.append(x.with_env(e))
                else:
                    nx.append(x)
            xs = nx
        return {'next': xs}

    def s_Return(self, s, st, fr):
        if s.value is None:
            return {'return': [(st, NONE)]}
        return {'return': self.ev(s.value, st, fr)}

    def s_Break(self, s, st, fr):
        return {'break': [st]}

    def s_Continue(self, s, st, fr):
        return {'continue': [st]}

    def s_Raise(self, s, st, fr):
        if s.exc is None:
            self.raise_(st, fr.handling)
            return {}
        for x, v in self.ev(s.exc, st, fr):
            if v.op == 'glob' and v.args[0].kind in ('class', 'ext'):
                v = T('new', v.args[0], (), (), id(s), fr.ctx, fr.loops)
            self.raise_(x, v)
        return {}

    def s_Assert(self, s, st, fr):
        t, f = self.cond(s.test, st, fr)
        for x in f:
            self.raise_(x, T('new', Ext('builtins.AssertionError'), (), (),
                             id(s), fr.ctx, fr.loops))
        return {'next': t}

    def s_If(self, s, st, fr):
        t, f = self.cond(s.test, st, fr)
        o1 = self.block(s.body, t, fr)
        if s.orelse:
            o2 = self.block(s.orelse, f, fr)
        else:
            o2 = {'next': f}
        return self.join(o1, o2)

    def join(self, *os):
        r = {}
        for o in os:
            for k, v in o.items():
                r[k] = r.get(k, []) + list(v)
        return r

    def s_FunctionDef(self, s, st, fr):
        f = fr.func.nested.get(s.name)
        if f is None:
            return {'next': [st.set(s.name, self.fresh('unk', s, fr))]}
        t = T('closure', id(s), fr.ctx)
        self.closures[t] = (f, st.env, fr)
        xs = [(st, t)]
        for d in reversed(s.decorator_list):
            nx = []
            for x, v in xs:
                for y, dt in self.ev(d, x, fr):
                    nx.append((y, T('deco', dt, v)))
            xs = nx
        return {'next': [x.set(s.name, v) for x, v in xs]}

    def s_ClassDef(self, s, st, fr):
        c = fr.func.nested.get(s.name)
        if isinstance(c, Class):
            return {'next': [st.set(s.name, T('glob', c))]}
        return {'next': [st.set(s.name, self.fresh('unk', s, fr))]}

    def s_Import(self, s, st, fr):
        for a in s.names:
            n = (a.asname or a.name.split('.')[0])
            full = a.name if a.asname else a.name.split('.')[0]
            if full in self.repo.modules:
                st = st.set(n, T('glob', ModRef(self.repo.modules[full])))
            else:
                st = st.set(n, T('glob', Ext(full)))
        return {'next': [st]}

    def s_ImportFrom(self, s, st, fr):
        src = self.repo._from_module(fr.module, s)
        for a in s.names:
            r = self.repo.resolve_binding(('from', src, a.name))
            st = st.set(a.asname or a.name,
                        T('glob', r) if r is not None else
                        self.fresh('unk', s, fr))
        return {'next': [st]}

    # loops
    def s_While(self, s, st, fr):
        return self.loop(s, [st], fr, None)

    def s_For(self, s, st, fr):
        out = {}
        for x, v in self.ev(s.iter, st, fr):
            x = self.check.iterate(self, x, v, s, fr)
            if v.op in ('tuple', 'list') and len(v.args[0]) <= 8 and \
                    len(v.args) < 2:
                o = self.unroll(s, x, v.args[0], fr)
            else:
                o = self.loop(s, [x], fr, v)
            out = self.join(out, o)
        return out

    def unroll(self, s, st, elems, fr):
        out = {'next': [], 'return': []}
        cur = [st]
        brk = []
        for e in elems:
            nx = []
            for x in cur:
                nx += self.assign(s.target, e, x, fr, s)
            o = self.block(s.body, nx, fr)
            cur = self.dedupe(o['next'] + o['continue'], site=s)
            brk += o['break']
            out['return'] += o['return']
        if s.orelse:
            o = self.block(s.orelse, cur, fr)
            cur = o['next']
            out['return'] += o['return']
            out['break'] = o['break']
            out['continue'] = o['continue']
        out['next'] = cur + brk
        return out

    def loop(self, s, states, fr, iterable):
        tag = Loop((id(s), fr.ctx))
        saved = fr.loops
        fr.loops = fr.loops + (tag,)
        exits = []
        brk = []
        rets = []
        seen = set()
        vals = {}
        cur = states
        try:
            for n in range(6):
                heads = []
                for x in cur:
                    k = x.key()
                    if k in seen:
                        continue
                    seen.add(k)
                    heads.append(x)
                if not heads:
                    break
                if isinstance(s, ast.While):
                    ts, fs = [], []
                    for x in heads:
                        t, f = self.cond(s.test, x, fr)
                        ts += t
                        fs += f
                    exits += fs
                    body = ts
                else:
                    if n > 0 or not self.nonempty(iterable, heads):
                        exits += heads
                    el = self.elem_of(iterable, s, fr)
                    body = []
                    for x in heads:
                        if iterable.op not in ('param', 'const', 'tuple'):
                            self.implicit_raise(x, None, fr, it=True)
                        body += self.assign(s.target, el, x, fr, s)
                body = self.dedupe(body, site=s)
                o = self.block(s.body, body, fr)
                brk += o['break']
                rets += o['return']
                again = self.dedupe(o['next'] + o['continue'], site=s)
                cur = []
                for x in again:
                    x = self.check.loop_back(self, x, s, fr)
                    cur.append(self.widen(x, tag, vals, n, s, fr))
                cur = self.dedupe(cur, cap=16 if n < 3 else 4, site=s)
                if n >= 3:
                    # force convergence: merge with equal automaton state
                    g = {}
                    for x in cur:
                        g.setdefault(self.coarse_key(x), []).append(x)
                    cur = [self.merge(v, s) for v in g.values()]
        finally:
            fr.loops = saved
        out = {'return': rets, 'break': [], 'continue': []}
        exits = self.dedupe(exits, site=s)
        if s.orelse:
            o = self.block(s.orelse, exits, fr)
            exits = o['next']
            out['return'] = rets + o['return']
            out['break'] = o['break']
            out['continue'] = o['continue']
        out['next'] = self.dedupe(exits + brk, site=s)
        return out

    def nonempty(self, t, heads):
        """The iterable certainly has an element"""
        if t.op == 'call' and t.args[0] in ('range', 'range3') and \
                t.args[3]:
            a = t.args[3]
            if len(a) == 1 and a[0].op == 'const':
                return a[0].args[0] > 0
            if len(a) == 2 and a[0].op == 'const' and \
                    a[1].op == 'const':
                return a[0].args[0] < a[1].args[0]
        return all(self.truth(s, t) is True for s in heads)

    def elem_of(self, iterable, s, fr):
        # look through dict_values(x), list(x), sorted(x), x.values()
        t = iterable
        return T('elem', t, id(s), fr.ctx, fr.loops)

    def widen(self, st, tag, vals, n, s, fr):
        sub = {}
        env = dict(st.env)
        for k, t in st.env.items():
            if tag in t.loops:
                env[k] = T('phi', (id(s), fr.ctx), str(k), fr.loops)
                if t.op != 'phi' or t is not env[k]:
                    sub.setdefault(t, env[k])
            elif t.op not in ('const', 'param', 'glob'):
                vs = vals.setdefault(k, set())
                vs.add(t)
                if len(vs) > 3:
                    env[k] = T('phi', (id(s), fr.ctx), str(k), fr.loops)
                    sub.setdefault(t, env[k])
            else:
                vs = vals.setdefault((k, 'c'), set())
                vs.add(t)
                if len(vs) > (4 if t.op == 'const' and type(
                        t.args[0]) is int else 12):
                    env[k] = T('phi', (id(s), fr.ctx), str(k), fr.loops)
        heap = {}
        for k, t in st.heap.items():
            if tag in k[0].loops:
                continue
            if tag in t.loops:
                p = T('phi', (id(s), fr.ctx),
                      "%s.%s" % (k[0].uid, k[1]), fr.loops)
                heap[k] = p
                if p is not t and k[1] != '#ver':
                    sub.setdefault(t, p)
            else:
                vs = vals.setdefault(('h', k), set())
                vs.add(t)
                if len(vs) > 3:
                    heap[k] = T('phi', (id(s), fr.ctx),
                                "%s.%s" % (k[0].uid, k[1]), fr.loops)
                else:
                    heap[k] = t
        facts = {}
        for t, p in st.facts.items():
            if tag not in t.loops:
                facts[t] = p
            else:
                # rename facts about values that are now phi terms; facts
                # about other values of the last iteration are dropped
                if any(x.op == 'phi' and tag in x.loops
                       for x in t.subterms()):
                    continue
                nt = self.subst(t, sub)
                if nt is not t and all(
                        x.op == 'phi' or tag not in x.loops or
                        any(y.op == 'phi' for y in x.subterms()) and
                        x.op != 'call'
                        for x in nt.subterms()):
                    facts[nt] = p
        for k, t in st.env.items():
            # what is known about the value carried into the variable
            p = env[k]
            if p.op == 'phi' and tag in t.loops:
                for old, new in ((t, p), (T('cmp', 'is', t, NONE),
                                          T('cmp', 'is', p, NONE))):
                    v = self.truth(st, old)
                    if v is not None:
                        facts.setdefault(new, v)
        for k, t in st.heap.items():
            if k[1] == '#ver' and k in heap and heap[k] is not t or (
                    k[1] == '#ver' and k in heap and t.op == 'phi'):
                v = st.facts.get(T('ver', k[0], t))
                if v is not None:
                    facts.setdefault(T('ver', k[0], heap[k]), v)
        r = State(env, heap, facts, st.auto, st.trace)
        return self.check.loop_widen(self, r, tag, sub) if hasattr(
            self.check, 'loop_widen') else r

    def subst(self, t, sub):
        if t in sub:
            return sub[t]
        if not sub:
            return t

        def one(a):
            if isinstance(a, T):
                return self.subst(a, sub)
            if isinstance(a, tuple):
                return tuple(one(b) for b in a)
            return a
        args = tuple(one(a) for a in t.args)
        if args == t.args:
            return t
        return T(t.op, *args)

    # try / with
    def s_Try(self, s, st, fr):
        self.sinks.append([])
        o = self.block(s.body, [st], fr)
        raised = self.sinks.pop()
        self.sinks.append([])   # exceptions leaving handlers
        if s.orelse:
            oe = self.block(s.orelse, o['next'], fr)
            o = dict(o)
            o['next'] = []
            o = self.join(o, oe)
        for x, exc in self.dedupe_pairs(raised):
            rest = True
            for h in s.handlers:
                m = self.matches(h.type, exc, fr)
                if m == 'no':
                    continue
                y = x
                saved = fr.handling
                hexc = exc
                if exc is None or m == 'maybe':
                    hc = self.handler_class(h.type, fr)
                    hexc = T('exc', hc, id(h), fr.ctx, fr.loops)
                if h.name:
                    y = y.set(h.name, hexc)
                fr.handling = hexc
                oh = self.block(h.body, [y], fr)
                fr.handling = saved
                if h.name:
                    for k in oh:
                        pass
                o = self.join(o, oh)
                if m == 'yes':
                    rest = False
                    break
            if rest:
                self.raise_(x, exc)
        leaving = self.sinks.pop()
        if not s.finalbody:
            for x, e in leaving:
                self.raise_(x, e)
            return o
        out = {'next': [], 'return': [], 'break': [], 'continue': []}

        def fin(states):
            of = self.block(s.finalbody, states, fr)
            for k in ('return', 'break', 'continue'):
                out[k] += of[k]
            return of['next']
        for k in ('next', 'break', 'continue'):
            if o.get(k):
                out[k] += fin(self.dedupe(o[k], site=s))
        by = {}
        for x, v in o.get('return', ()):
            by.setdefault(v, []).append(x)
        for v, xs in by.items():
            out['return'] += [(x, v) for x in fin(self.dedupe(xs, site=s))]
        for x, e in self.dedupe_pairs(leaving):
            for y in fin([x]):
                self.raise_(y, e)
        return out

    s_TryStar = s_Try

    def handler_class(self, e, fr):
        if e is None:
            return Ext('builtins.BaseException')
        if isinstance(e, ast.Tuple):
            return Ext('builtins.Exception')
        return self.repo.resolve_expr(e, fr.module, None, fr.func) or \
            Ext('builtins.Exception')

    def matches(self, h, exc, fr):
        """Does handler expression h catch exc: yes / no / maybe"""
        if h is None:
            return 'yes'
        if isinstance(h, ast.Tuple):
            rs = [self.matches(e, exc, fr) for e in h.elts]
            if 'yes' in rs:
                return 'yes'
            return 'maybe' if 'maybe' in rs else 'no'
        hc = self.repo.resolve_expr(h, fr.module, None, fr.func)
        if hc is None or hc.kind not in ('class', 'ext'):
            return 'maybe'
        if hc.qual in ('builtins.Exception', 'builtins.BaseException'):
            return 'yes'
        c = self.exc_class(exc, fr)
        if c is None:
            return 'maybe'
        r = self.exc_sub(c, hc)
        if r:
            return 'yes'
        if exc.op == 'new':
            return 'no' if r is False else 'maybe'
        # caught exception of class c may be a subclass of it
        if self.exc_sub(hc, c) is not False:
            return 'maybe'
        return 'no'

    def exc_class(self, exc, fr):
        if exc is None:
            return None
        if exc.op == 'new':
            return exc.args[0]
        if exc.op == 'exc':
            c = exc.args[0]
            if c.qual in ('builtins.Exception', 'builtins.BaseException'):
                return None
            return c
        c = self.typeof(exc, fr)
        return c

    def exc_sub(self, c, d):
        """True/False/None: is exception class c a subclass of d"""
        if isinstance(c, Class):
            if any(getattr(k, 'qual', None) == d.qual
                   for k in self.repo.mro(c)):
                return True
            ex = [k for k in self.repo.mro(c) if isinstance(k, Ext)]
            res = False
            for k in ex:
                if k.qual == 'builtins.object':
                    continue
                r = self.exc_sub(k, d)
                if r:
                    return True
                if r is None:
                    res = None
            return res
        if isinstance(d, Class):
            return False
        if c.qual == d.qual:
            return True
        a, b = ext_class(c.qual), ext_class(d.qual)
        if a is None or b is None:
            return None
        try:
            return issubclass(a, b)
        except TypeError:
            return None

    def s_With(self, s, st, fr):
        return self.with_items(s, list(s.items), [st], fr)

    def with_items(self, s, items, states, fr):
        if not items:
            return self.block(s.body, states, fr)
        item = items[0]
        out = {}
        for st in states:
            for x, c in self.ev(item.context_expr, st, fr):
                ents = self.ctx_enter(x, c, item, fr)
                ys = []
                for y, v in ents:
                    y = self.check.enter(self, y, c, item, fr)
                    if item.optional_vars is not None:
                        ys += self.assign(item.optional_vars, v, y, fr, s)
                    else:
                        ys.append(y)
                self.sinks.append([])
                o = self.with_items(s, items[1:], ys, fr)
                raised = self.sinks.pop()
                for k in ('next', 'break', 'continue'):
                    if o.get(k):
                        o[k] = [z for y in o[k] for z in
                                self.ctx_leave(y, c, item, fr, k)]
                o['return'] = [(z, v) for y, v in o.get('return', ())
                               for z in self.ctx_leave(
                                   y, c, item, fr, 'return')]
                for y, e in self.dedupe_pairs(raised):
                    for z in self.ctx_leave(y, c, item, fr, 'raise'):
                        self.raise_(z, e)
                out = self.join(out, o)
        return out

    def ctx_enter(self, st, c, item, fr):
        k = self.typeof(c, fr)
        if isinstance(k, Class):
            f = self.repo.find_method(k, '__enter__')
            if f is not None:
                ci = CallInfo(item.context_expr, '__enter__', [f], c, [],
                              {}, False, fr, None)
                return self.dispatch(st, ci)
        return [(st, c)]

    def ctx_leave(self, st, c, item, fr, kind):
        st = self.check.leave(self, st, c, item, fr, kind)
        k = self.typeof(c, fr)
        if isinstance(k, Class):
            f = self.repo.find_method(k, '__exit__')
            if f is not None:
                n = NONE if kind != 'raise' else T(
                    'unk', id(item), 'exc', fr.ctx, fr.loops)
                ci = CallInfo(item.context_expr, '__exit__', [f], c,
                              [n, n, n], {}, False, fr, None)
                return [x for x, _ in self.dispatch(st, ci)]
        return [st]

    # ---- conditions -------------------------------------------------
    def cond(self, e, st, fr):
        """Returns (states where e is true, states where e is false)"""
        if isinstance(e, ast.BoolOp):
            isand = isinstance(e.op, ast.And)
            ts, fs = [], []
            cur = [st]
            for v in e.values:
                nx = []
                for x in cur:
                    t, f = self.cond(v, x, fr)
                    if isand:
                        nx += t
                        fs += f
                    else:
                        nx += f
                        ts += t
                cur = nx
            if isand:
                ts = cur
            else:
                fs = cur
            return ts, fs
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            t, f = self.cond(e.operand, st, fr)
            return f, t
        if isinstance(e, ast.Compare) and len(e.ops) > 1:
            # a < b < c
            vals = [e.left] + list(e.comparators)
            ts, fs = [], []
            cur = [(st, None)]
            for n, op in enumerate(e.ops):
                nx = []
                for x, prev in cur:
                    if prev is None:
                        ls = self.ev(vals[0], x, fr)
                    else:
                        ls = [(x, prev)]
                    for y, a in ls:
                        for z, b in self.ev(vals[n + 1], y, fr):
                            t, p = self.cmp(op, a, b, z)
                            for w in self.assume(z, t, p):
                                nx.append((w, b))
                            fs += self.assume(z, t, not p)
                cur = nx
            return [x for x, _ in cur], fs
        if isinstance(e, ast.IfExp):
            t, f = self.cond(e.test, st, fr)
            ts, fs = [], []
            for x in t:
                a, b = self.cond(e.body, x, fr)
                ts += a
                fs += b
            for x in f:
                a, b = self.cond(e.orelse, x, fr)
                ts += a
                fs += b
            return ts, fs
        if isinstance(e, ast.Compare):
            ts, fs = [], []
            for x, a in self.ev(e.left, st, fr):
                for y, b in self.ev(e.comparators[0], x, fr):
                    t, p = self.cmp(e.ops[0], a, b, y)
                    ts += self.assume(y, t, p)
                    fs += self.assume(y, t, not p)
            return ts, fs
        ts, fs = [], []
        for x, v in self.ev(e, st, fr):
            ts += self.assume(x, v, True)
            fs += self.assume(x, v, False)
        return ts, fs

    def cmp(self, op, a, b, st):
        """Normalised comparison: returns (term, polarity)"""
        n = type(op).__name__
        if n in ('NotEq', 'IsNot', 'NotIn'):
            t, p = self.cmp({'NotEq': ast.Eq(), 'IsNot': ast.Is(),
                             'NotIn': ast.In()}[n], a, b, st)
            return t, not p
        if n == 'Gt':
            return self.cmp(ast.Lt(), b, a, st)
        if n == 'GtE':
            t, p = self.cmp(ast.Lt(), a, b, st)
            return t, not p
        if n == 'LtE':
            t, p = self.cmp(ast.Lt(), b, a, st)
            return t, not p
        if n == 'In':
            if b.op in ('tuple', 'list', 'set') and len(b.args[0]) <= 12:
                return T('or', tuple(
                    T('cmp', '==', *self.order(a, x)) for x in b.args[0])
                ), True
            return T('cmp', 'in', a, self.cont(st, b)), True
        if n == 'Lt':
            if is_const(a, 0) and b.op == 'call' and b.args[0] == 'len':
                return self.cont(st, b.args[3][0]), True
            if b.op == 'const' and type(b.args[0]) is int and \
                    b.args[0] == 1 and a.op == 'call' and \
                    a.args[0] == 'len':
                return self.cont(st, a.args[3][0]), False
            # x < 1 and 0 < x over integers: keep as written
            if a.op == 'const' and b.op == 'const':
                try:
                    return const(a.args[0] < b.args[0]), True
                except TypeError:
                    pass
            return T('cmp', '<', a, b), True
        if n in ('Eq', 'Is'):
            a, b = self.order(a, b)
            if b.op == 'const' and b.args[0] is None:
                return T('cmp', 'is', a, b), True
            if n == 'Eq' and is_const(b, 0) and a.op == 'call' and \
                    a.args[0] == 'len':
                return self.cont(st, a.args[3][0]), False
            if is_const(b, True) and n == 'Is':
                return a, True
            return T('cmp', '==' if n == 'Eq' or b.op == 'const' else 'is',
                     a, b), True
        return T('cmp', n, a, b), True

    def order(self, a, b):
        if a.op == 'const' and b.op != 'const':
            return b, a
        if a.op != 'const' and b.op == 'const':
            return a, b
        if b.op == 'glob' and a.op != 'glob':
            return a, b
        if a.op == 'glob' and b.op != 'glob':
            return b, a
        return (a, b) if a.uid <= b.uid else (b, a)

    def truth(self, st, t):
        """Known truth value of t in st or None"""
        op = t.op
        if op == 'const':
            try:
                return bool(t.args[0])
            except Exception:
                return None
        if op in ('tuple', 'list', 'set', 'dict'):
            if (t, '#ver') in st.heap:
                return None
            if op == 'dict':
                return None
            return bool(t.args[0])
        if op in ('closure', 'glob', 'bound', 'deco'):
            if op == 'glob' and t.args[0].kind in ('const', 'ext'):
                return None
            return True
        r = st.facts.get(t)
        if r is not None:
            return r
        if op == 'new' and isinstance(t.args[0], Class) and \
                self.always_true(t.args[0]):
            return True
        if op == 'not':
            r = self.truth(st, t.args[0])
            return None if r is None else not r
        if op == 'cmp':
            o, a, b = t.args
            if o == 'is' and b is NONE:
                if a is NONE:
                    return True
                if a.op in ('const', 'tuple', 'list', 'dict', 'set', 'new',
                            'closure', 'bound', 'bin', 'fmt', 'comp',
                            'elemof', 'deco', 'exc', 'cmp'):
                    return False
                if a.op == 'glob' and a.args[0].kind in (
                        'func', 'class', 'module'):
                    return False
                if self.truth(st, a):
                    return False
                if any(p is True and x.op == 'call' and
                       x.args[0] == 'isinstance' and x.args[3] and
                       x.args[3][0] is a for x, p in st.facts.items()):
                    return False
                for x, p in st.facts.items():
                    if p and x.op == 'cmp' and x.args[0] == '==' and \
                            x.args[1] is a and x.args[2].op == 'const':
                        return False
                return None
            if o in ('==', 'is'):
                if a is b:
                    return True
                if a.op == 'const' and b.op == 'const':
                    return a.args[0] == b.args[0]
                if b.op == 'const' and o == '==':
                    if st.facts.get(T('cmp', 'is', a, NONE)) is True and \
                            b is not NONE:
                        return False
                    if self.truth(st, a) is False and b.args[0]:
                        return False
                    if self.truth(st, a) is True and not b.args[0]:
                        return False
                    for x, p in st.facts.items():
                        if p and x.op == 'cmp' and x.args[0] == '==' and \
                                x.args[1] is a and x.args[2].op == 'const':
                            return x.args[2].args[0] == b.args[0]
                if b.op == 'glob' and a.op == 'glob':
                    if b.args[0].kind in ('class', 'func') and \
                            a.args[0].kind in ('class', 'func'):
                        return a is b
                return None
            if o == '<':
                if a is b:
                    return False
                if st.facts.get(T('cmp', '<', b, a)) is True:
                    return False
                if st.facts.get(T('cmp', '==', *self.order(a, b))) is True:
                    return False
                # a < c1 known with other constants
                if b.op == 'const' and type(b.args[0]) is int:
                    for x, p in st.facts.items():
                        if x.op == 'cmp' and x.args[0] == '<':
                            if x.args[1] is a and \
                                    x.args[2].op == 'const' and \
                                    type(x.args[2].args[0]) is int:
                                if p and x.args[2].args[0] <= b.args[0]:
                                    return True
                                if not p and x.args[2].args[0] >= b.args[0]:
                                    return False
                            elif x.args[2] is a and \
                                    x.args[1].op == 'const' and \
                                    type(x.args[1].args[0]) is int:
                                # c < a
                                if p and x.args[1].args[0] >= b.args[0] - 1:
                                    return False
                        if p and x.op == 'cmp' and x.args[0] == '==' and \
                                x.args[1] is a and \
                                x.args[2].op == 'const' and \
                                type(x.args[2].args[0]) is int:
                            return x.args[2].args[0] < b.args[0]
                if a.op == 'const' and type(a.args[0]) is int:
                    for x, p in st.facts.items():
                        if x.op == 'cmp' and x.args[0] == '<':
                            if x.args[2] is b and \
                                    x.args[1].op == 'const' and \
                                    type(x.args[1].args[0]) is int:
                                if p and x.args[1].args[0] >= a.args[0]:
                                    return True
                                if not p and x.args[1].args[0] <= a.args[0]:
                                    return False
                            elif x.args[1] is b and \
                                    x.args[2].op == 'const' and \
                                    type(x.args[2].args[0]) is int:
                                # b < c
                                if p and x.args[2].args[0] <= a.args[0] + 1:
                                    return False
                        if p and x.op == 'cmp' and x.args[0] == '==' and \
                                x.args[1] is b and \
                                x.args[2].op == 'const' and \
                                type(x.args[2].args[0]) is int:
                            return a.args[0] < x.args[2].args[0]
                return None
            return None
        if op == 'or':
            vs = [self.truth(st, x) for x in t.args[0]]
            if True in vs:
                return True
            if all(v is False for v in vs):
                return False
            return None
        if op == 'and':
            vs = [self.truth(st, x) for x in t.args[0]]
            if False in vs:
                return False
            if all(v is True for v in vs):
                return True
            return None
        if op == 'call' and t.args[0] == 'isinstance' and \
                len(t.args[3]) == 2:
            x, c = t.args[3]
            if x is NONE:
                return False
            if st.facts.get(T('cmp', 'is', x, NONE)) is True:
                return False
            if x.op == 'new' and c.op == 'glob' and \
                    isinstance(x.args[0], Class) and \
                    c.args[0].kind in ('class', 'ext'):
                return self.repo.is_subclass(x.args[0], c.args[0].qual)
            return None
        if st.facts.get(T('cmp', 'is', t, NONE)) is True:
            return False
        for x, p in st.facts.items():
            if p and x.op == 'cmp' and x.args[0] == '==' and \
                    x.args[1] is t and x.args[2].op == 'const':
                return bool(x.args[2].args[0])
        return None

    def always_true(self, c):
        """Instances of class c have no truth value of their own"""
        r = self.__dict__.setdefault('_always', {})
        if c not in r:
            r[c] = True
            for k in self.repo.mro(c):
                if not isinstance(k, Class):
                    if k.qual != 'builtins.object':
                        r[c] = False
                elif {'__bool__', '__len__', '__nonzero__'} & (
                        set(k.methods) | set(k.attrs)):
                    r[c] = False
        return r[c]

    def assume(self, st, t, pol):
        """States in which term t has truth value pol"""
        if t.op == 'not':
            return self.assume(st, t.args[0], not pol)
        if t.op in ('param', 'attr', 'call', 'phi', 'elem', 'list', 'dict',
                    'sub'):
            t0, t = t, self.cont(st, t)
            if pol and t0 is not t:
                # whatever happened to its contents, it is not None
                st = st.add(T('cmp', 'is', t0, NONE), False)
        k = self.truth(st, t)
        if k is not None:
            if k is not pol:
                return []
            return [st]
        if t.op in ('or', 'and'):
            alls = (t.op == 'and') == pol
            if alls:
                cur = [st]
                for x in t.args[0]:
                    cur = [z for y in cur for z in self.assume(y, x, pol)]
                return cur
            out = []
            cur = [st]
            for x in t.args[0]:
                nx = []
                for y in cur:
                    out += self.assume(y, x, pol)
                    nx += self.assume(y, x, not pol)
                cur = nx
            return out
        if t.op == 'ite':
            c, a, b = t.args
            out = []
            for x in self.assume(st, c, True):
                out += self.assume(x, a, pol)
            for x in self.assume(st, c, False):
                out += self.assume(x, b, pol)
            return out
        st = st.add(t, pol)
        if pol and t.op not in ('cmp', 'not', 'or', 'and'):
            st = st.add(T('cmp', 'is', t, NONE), False)
        if pol and t.op == 'call' and t.args[0] == 'bool' and t.args[3]:
            return self.assume(st, t.args[3][0], True)
        if not pol and t.op == 'call' and t.args[0] == 'bool' and t.args[3]:
            return self.assume(st, t.args[3][0], False)
        return [st]

    # ---- expressions ------------------------------------------------
    def fresh(self, op, node, fr):
        return T(op, id(node), fr.ctx, fr.loops)

    def ev(self, e, st, fr):
        """Evaluates e, returning a list of (state, term)"""
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            return [(st, self.fresh('unk', e, fr))]
        r = m(e, st, fr)
        out = []
        for x, t in r:
            if t.depth > 24:
                t = self.fresh('unk', e, fr)
            out.append((x, t))
        if len(out) > self.check.cap:
            by = {}
            for x, t in out:
                by.setdefault(t, []).append(x)
            out = [(y, t) for t, xs in by.items()
                   for y in self.dedupe(xs, cap=max(
                       4, self.check.cap // len(by)), site=e)]
        return out

    def evs(self, es, st, fr):
        out = [(st, ())]
        for e in es:
            nx = []
            for x, ts in out:
                for y, t in self.ev(e, x, fr):
                    nx.append((y, ts + (t,)))
            out = nx
        return out

    def e_Constant(self, e, st, fr):
        return [(st, const(e.value))]

    def e_Name(self, e, st, fr):
        if e.id in st.env:
            return [(st, st.env[e.id])]
        if e.id in fr.locals:
            return [(st, T('unbound', e.id))]
        # enclosing function scopes
        o = fr.func.outer
        f = fr.outer
        while f is not None:
            if f.func is o:
                pass
            f = f.outer
        mv = st.heap.get((T('modvars', fr.module.name), e.id))
        if mv is not None:
            return [(st, mv)]
        r = self.repo.resolve_expr(e, fr.module, None, fr.func)
        return [(st, self.ref_term(r, e))]

    def ref_term(self, r, e):
        if r is None:
            return T('free', e.id if isinstance(e, ast.Name) else e.attr)
        if r.kind == 'const':
            if isinstance(r.value, ast.Constant):
                return const(r.value.value)
            if isinstance(r.value, (ast.Name, ast.Attribute)):
                r2 = self.repo.resolve_expr(r.value, r.module)
                if r2 is not None and r2.kind != 'const':
                    return T('glob', r2)
            if isinstance(r.value, ast.Tuple) and all(
                    isinstance(x, ast.Constant) for x in r.value.elts):
                return T('tuple', tuple(const(x.value)
                                        for x in r.value.elts))
            return T('glob', GV.get(r.qual, r))
        return T('glob', r if r.kind != 'module' else MR(r))

    def e_Attribute(self, e, st, fr):
        out = []
        if isinstance(e.value, ast.Call) and isinstance(
                e.value.func, ast.Name) and e.value.func.id == 'super':
            f = self.super_target(e, fr)
            me = st.env.get(fr.func.params()[0]) if fr.func.params() else \
                None
            if f is not None:
                return [(st, T('bound', me or NONE, f))]
            return [(st, T('attr', T('super', fr.func.qual), e.attr))]
        for x, b in self.ev(e.value, st, fr):
            out += self.load_attr(x, b, e.attr, e, fr)
        return out

    def super_target(self, e, fr):
        c = fr.func.cls
        args = e.value.args
        if args:
            r = self.repo.resolve_expr(args[0], fr.module, None, fr.func)
            if isinstance(r, Class):
                c = r
        if c is None:
            return None
        base = fr.cls if fr.cls is not None and c in self.repo.mro(
            fr.cls) else c
        return self.repo.find_method(base, e.attr, after=c)

    def load_attr(self, x, b, attr, e, fr):
        x = self.check.attr_load(self, x, b, attr, e, fr)
        hv = x.heap.get((b, attr))
        if hv is not None:
            return [(x, hv)]
        if b.op == 'glob':
            r = self.repo.member(b.args[0] if not isinstance(
                b.args[0], MRT) else b.args[0].ref, attr)
            if r is not None:
                return [(x, self.ref_term(r, e))]
            return [(x, T('attr', b, attr))]
        v = self.check.attr_value(self, x, b, attr, fr)
        if v is not None:
            return [(x, v)]
        c = self.typeof(b, fr)
        if isinstance(c, Class):
            f = self.repo.find_method(c, attr)
            if f is not None and f.prop:
                ci = CallInfo(e, attr, [f], b, [], {}, False, fr, None)
                if self.want_inline(ci, f, fr):
                    return self.do_inline(x, ci, f)
            elif f is not None:
                return [(x, T('bound', b, f))]
            else:
                # class level constant never stored on instances
                r = self.repo.class_member(c, attr)
                if r is not None and r.kind == 'class':
                    return [(x, T('glob', r))]
                if r is not None and r.kind == 'const' and isinstance(
                        r.value, ast.Constant) and not any(
                        attr in k.self_stores for k in self.repo.mro(c)
                        if isinstance(k, Class)) and not any(
                        attr in k.attrs or attr in k.self_stores
                        for k in self.repo.subclasses.get(c.qual, ())):
                    return [(x, const(r.value.value))]
        return [(x, T('attr', b, attr))]

    def e_Subscript(self, e, st, fr):
        out = []
        for x, b in self.ev(e.value, st, fr):
            for y, i in self.ev(e.slice, x, fr):
                if b.op in ('tuple', 'list') and i.op == 'const' and \
                        type(i.args[0]) is int and \
                        -len(b.args[0]) <= i.args[0] < len(b.args[0]) and \
                        (b, '#ver') not in y.heap:
                    out.append((y, b.args[0][i.args[0]]))
                    continue
                if i.op != 'slice':
                    self.implicit_raise(y, None, fr, sub=True)
                out.append((y, T('sub', self.cont(y, b), i)))
        return out

    def e_Slice(self, e, st, fr):
        parts = [p if p is not None else ast.copy_location(
            ast.Constant(None), e) for p in (e.lower, e.upper, e.step)]
        return [(x, T('slice', ts)) for x, ts in self.evs(parts, st, fr)]

    def e_Index(self, e, st, fr):
        return self.ev(e.value, st, fr)

    def e_Starred(self, e, st, fr):
        return self.ev(e.value, st, fr)

    def e_Tuple(self, e, st, fr):
        return [(x, T('tuple', ts)) for x, ts in self.evs(e.elts, st, fr)]

    def e_List(self, e, st, fr):
        if not e.elts:
            return [(st, T('list', (), id(e), fr.ctx, fr.loops))]
        return [(x, T('list', ts)) for x, ts in self.evs(e.elts, st, fr)]

    def e_Set(self, e, st, fr):
        return [(x, T('set', ts)) for x, ts in self.evs(e.elts, st, fr)]

    def e_Dict(self, e, st, fr):
        ks = [k if k is not None else ast.copy_location(
            ast.Constant(None), e) for k in e.keys]
        out = []
        for x, a in self.evs(ks, st, fr):
            for y, b in self.evs(e.values, x, fr):
                out.append((y, T('dict', a, b, id(e), fr.ctx, fr.loops)))
        return out

    def e_JoinedStr(self, e, st, fr):
        vs = [v.value if isinstance(v, ast.FormattedValue) else v
              for v in e.values]
        return [(x, T('fmt', ts)) for x, ts in self.evs(vs, st, fr)]

    def e_BinOp(self, e, st, fr):
        out = []
        for x, a in self.ev(e.left, st, fr):
            for y, b in self.ev(e.right, x, fr):
                out.append((y, self.binop(type(e.op).__name__, a, b, e,
                                          fr)))
        return out

    def binop(self, op, a, b, e, fr):
        if op == 'Add' and a.op == 'const' and b.op == 'const' and \
                type(a.args[0]) is type(b.args[0]) and \
                isinstance(a.args[0], (str, bytes)) and \
                len(a.args[0]) < 200:
            return const(a.args[0] + b.args[0])
        if op in ('Add', 'Sub', 'Mult') and a.op == 'const' and \
                b.op == 'const' and type(a.args[0]) is int and \
                type(b.args[0]) is int and not fr.loops:
            x, y = a.args[0], b.args[0]
            return const(x + y if op == 'Add' else x - y
                         if op == 'Sub' else x * y)
        return T('bin', op, a, b)

    def e_UnaryOp(self, e, st, fr):
        if isinstance(e.op, ast.Not):
            return self.bool_value(e, st, fr)
        out = []
        for x, a in self.ev(e.operand, st, fr):
            if isinstance(e.op, ast.USub) and a.op == 'const' and \
                    isinstance(a.args[0], (int, float)):
                out.append((x, const(-a.args[0])))
            else:
                out.append((x, T('un', type(e.op).__name__, a)))
        return out

    def bool_value(self, e, st, fr):
        """Boolean expression in a value context

        A single comparison is kept as a term so that the facts are
        only assumed when the value is tested."""
        if isinstance(e, ast.Compare) and len(e.ops) == 1:
            out = []
            for x, a in self.ev(e.left, st, fr):
                for y, b in self.ev(e.comparators[0], x, fr):
                    t, p = self.cmp(e.ops[0], a, b, y)
                    k = self.truth(y, t)
                    if k is not None:
                        out.append((y, TRUE if k is p else FALSE))
                    else:
                        out.append((y, t if p else T('not', t)))
            return out
        t, f = self.cond(e, st, fr)
        return [(x, TRUE) for x in t] + [(x, FALSE) for x in f]

    def e_Compare(self, e, st, fr):
        return self.bool_value(e, st, fr)

    def e_BoolOp(self, e, st, fr):
        isand = isinstance(e.op, ast.And)
        out = []
        cur = [st]
        for n, v in enumerate(e.values):
            nx = []
            last = n == len(e.values) - 1
            for x in cur:
                for y, t in self.ev(v, x, fr):
                    if last:
                        out.append((y, t))
                        continue
                    for z in self.assume(y, t, isand):
                        nx.append(z)
                    for z in self.assume(y, t, not isand):
                        out.append((z, t))
            cur = nx
        return out

    def e_IfExp(self, e, st, fr):
        t, f = self.cond(e.test, st, fr)
        out = []
        for x in t:
            out += self.ev(e.body, x, fr)
        for x in f:
            out += self.ev(e.orelse, x, fr)
        return out

    def e_Lambda(self, e, st, fr):
        t = T('closure', id(e), fr.ctx)
        f = Func(fr.module, e, fr.func.cls, fr.func,
                 fr.func.qual + '.<lambda>')
        self.closures[t] = (f, st.env, fr)
        return [(st, t)]

    def comp(self, e, st, fr, elts):
        tag = Loop((id(e), fr.ctx))
        saved = fr.loops
        fr.loops = fr.loops + (tag,)
        out = []
        try:
            cur = [(st, ())]
            for g in e.generators:
                nx = []
                for x, its in cur:
                    for y, v in self.ev(g.iter, x, fr):
                        y = self.check.iterate(self, y, v, e, fr)
                        el = T('elem', v, id(g), fr.ctx, fr.loops)
                        zs = self.assign(g.target, el, y, _AnyLocal(fr), e)
                        for c in g.ifs:
                            zs = [w for z in zs
                                  for w in self.cond(c, z, fr)[0]]
                        nx += [(z, its + (v,)) for z in zs]
                cur = nx
            for x, its in cur:
                for y, ts in self.evs(elts, x, fr):
                    out.append((y, T('comp', its, ts, id(e), fr.ctx,
                                     saved)))
        finally:
            fr.loops = saved
        res = []
        for y, t in out:
            facts = {f: p for f, p in y.facts.items()
                     if tag not in f.loops}
            res.append((State(st.env, y.heap, facts, y.auto, y.trace), t))
        if not res:
            res = [(st, self.fresh('unk', e, fr))]
        return res

    def e_ListComp(self, e, st, fr):
        return self.comp(e, st, fr, [e.elt])

    e_SetComp = e_ListComp
    e_GeneratorExp = e_ListComp

    def e_DictComp(self, e, st, fr):
        return self.comp(e, st, fr, [e.key, e.value])

    def e_Yield(self, e, st, fr):
        out = []
        vs = self.ev(e.value, st, fr) if e.value is not None else \
            [(st, NONE)]
        for x, v in vs:
            x = self.check.yield_(self, x, v, e, fr)
            self.implicit_raise(x, None, fr)
            out.append((x, self.fresh('unk', e, fr)))
        return out

    e_YieldFrom = e_Yield

    def e_NamedExpr(self, e, st, fr):
        out = []
        for x, v in self.ev(e.value, st, fr):
            out.append((x.set(e.target.id, v), v))
        return out

    # ---- calls ------------------------------------------------------
    def implicit_raise(self, st, ci, fr, sub=False, it=False):
        if sub or it:
            if len(self.sinks) > 1:
                self.raise_(st, None)
            return
        if ci is not None and not self.check.may_raise(self, ci):
            return
        if self.check.implicit or len(self.sinks) > 1:
            self.raise_(st, None)

    def e_Call(self, e, st, fr):
        out = []
        fn = e.func
        # evaluate the function
        if isinstance(fn, ast.Name) and fn.id == 'super':
            return [(st, T('super', fr.func.qual))]
        for x, ft in self.ev(fn, st, fr):
            star = False
            argnodes = []
            for a in e.args:
                if isinstance(a, ast.Starred):
                    star = True
                argnodes.append(a)
            for y, args in self.evs(argnodes, x, fr):
                kwn = [k for k in e.keywords]
                for z, kwv in self.evs([k.value for k in kwn], y, fr):
                    kw = {}
                    st2 = star
                    for k, v in zip(kwn, kwv):
                        if k.arg is None:
                            st2 = True
                        else:
                            kw[k.arg] = v
                    ci = self.make_call(e, fn, ft, list(args), kw, st2, z,
                                        fr)
                    out += self.dispatch(z, ci)
        return out

    def make_call(self, e, fn, ft, args, kw, star, st, fr):
        name = fn.attr if isinstance(fn, ast.Attribute) else (
            fn.id if isinstance(fn, ast.Name) else '?')
        targets = []
        recv = None
        if ft.op == 'bound':
            recv = ft.args[0]
            targets = [ft.args[1]]
            name = ft.args[1].name if name == '?' else name
            f = ft.args[1]
            if name in f.old_names:
                name = f.name
        elif ft.op == 'glob':
            r = ft.args[0]
            if isinstance(r, MRT):
                r = r.ref
            targets = [r]
            if r.kind in ('func', 'class', 'ext'):
                name = r.qual.split('.')[-1]
            # Class.method(self, ...) unbound call
            if isinstance(r, Func) and r.bound and not r.classm and \
                    args and isinstance(fn, ast.Attribute):
                recv = args[0]
                args = args[1:]
        elif ft.op == 'closure':
            targets = [self.closures[ft][0]]
            name = targets[0].name
        elif ft.op == 'attr':
            recv = ft.args[0]
            name = ft.args[1]
            ms = self.by_name(name)
            if ms:
                targets = ms
        elif isinstance(fn, ast.Attribute):
            # value stored in an attribute
            recv = None
        return CallInfo(e, name, targets, recv, args, kw, star, fr, ft)

    _common = {'get', 'append', 'add', 'pop', 'remove', 'update', 'clear',
               'insert', 'extend', 'keys', 'values', 'items', 'read',
               'write', 'close', 'split', 'join', 'copy', 'sort', 'index',
               'count', 'find', 'replace', 'format', 'encode', 'decode',
               'open', 'seek', 'tell', 'flush', 'release', 'acquire',
               'wait', 'notify', 'start', 'run', 'lower', 'upper', 'match',
               'strip', 'startswith', 'endswith', 'readline', 'send',
               'recv', 'execute', 'fetchone', 'commit', 'rollback', 'next',
               'search', 'reverse', 'set', 'isoformat', 'truncate'}

    def by_name(self, name):
        if name in self._common or name.startswith('__'):
            return []
        ms = self.repo.method_index.get(name, [])
        if not ms or len(ms) > 6:
            return []
        return list(ms)

    def typeof(self, t, fr):
        """Class (repo Class or Ext) of the value of term t, if known"""
        if t.op == 'new':
            return t.args[0]
        if t.op == 'param':
            f = fr
            while f is not None:
                if f.outer is None and f.func.bound and f.func.params() \
                        and f.func.params()[0] == t.args[0] and \
                        not f.func.classm:
                    return f.cls
                f = f.outer
        h = self.check.type_hint(self, t, fr)
        if h is not None:
            return h
        if t.op == 'attr':
            c = self.typeof(t.args[0], fr)
            if isinstance(c, Class):
                return self.attr_type(c, t.args[1])
        if t.op == 'exc':
            return t.args[0]
        return None

    def attr_type(self, c, attr):
        key = (c.qual, attr)
        if key in self.attr_types:
            return self.attr_types[key]
        self.attr_types[key] = None
        types = set()
        for k in self.repo.mro(c):
            if not isinstance(k, Class):
                continue
            for f, v, n in k.self_stores.get(attr, ()):
                if isinstance(v, ast.Constant) and v.value is None:
                    continue
                if isinstance(v, ast.Call):
                    r = self.repo.resolve_expr(v.func, k.module, None, f)
                    if r is not None and r.kind == 'class':
                        types.add(r)
                        continue
                types.add(None)
        r = types.pop() if len(types) == 1 else None
        self.attr_types[key] = r
        return r

    def dispatch(self, st, ci):
        r = self.check.call(self, st, ci)
        if r is not None:
            return r
        f = ci.target
        fr = ci.fr
        res = None
        if isinstance(f, Func) and not f.is_gen:
            if self.want_inline(ci, f, fr):
                res = self.do_inline(st, ci, f)
        elif isinstance(f, Class):
            res = self.construct(st, ci, f)
        if res is None:
            res = self.opaque(st, ci)
        return [(self.check.after_call(self, x, ci, t), t) for x, t in res]

    def construct(self, st, ci, c):
        t = T('new', c, tuple(ci.args), tuple(sorted(ci.kw.items())),
              id(ci.node), ci.fr.ctx, ci.fr.loops)
        f = self.repo.find_method(c, '__init__')
        if f is not None:
            d = self.check.inline(self, ci, f)
            if d:
                ci2 = CallInfo(ci.node, '__init__', [f], t, ci.args, ci.kw,
                               ci.star, ci.fr, None)
                if self.can_inline(ci2, f, ci.fr):
                    return [(x, t) for x, _ in self.do_inline(st, ci2, f)]
        self.implicit_raise(st, ci, ci.fr)
        return [(st, t)]

    def size(self, f):
        s = self.__dict__.setdefault('_sizes', {})
        if f not in s:
            s[f] = sum(1 for n in walk_own(f.node)
                       if isinstance(n, ast.stmt))
        return s[f]

    def can_inline(self, ci, f, fr):
        if ci.star:
            return False
        if f in fr.stack():
            return False
        if fr.depth() >= self.check.inline_depth:
            return False
        if f.ctxman or isinstance(f.node, ast.AsyncFunctionDef):
            return False
        # arity must match
        a = f.node.args
        if a.kwarg is None:
            names = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}
            if any(k not in names for k in ci.kw):
                return False
        n = len(f.params()) - (1 if f.bound else 0)
        if len(ci.args) > n and a.vararg is None:
            return False
        return True

    def want_inline(self, ci, f, fr):
        if not self.can_inline(ci, f, fr):
            return False
        d = self.check.inline(self, ci, f)
        if d is not None:
            return d
        # an overridden method called on something other than the
        # analysed object is not inlined
        if f.cls is not None and ci.recv is not None and f.bound and \
                ci.recv.op != 'new':
            c = self.typeof(ci.recv, fr)
            if ci.recv is not None and not self.is_root_self(ci.recv, fr):
                if c is None:
                    return False
                for k in self.repo.subclasses.get(c.qual, ()):
                    if f.name in k.methods and \
                            k.methods[f.name] is not f:
                        return False
        return self.size(f) <= self.check.inline_size and not any(
            isinstance(n, (ast.While, ast.For)) for n in walk_own(f.node))

    def is_root_self(self, t, fr):
        if t.op != 'param':
            return False
        while fr.outer is not None:
            fr = fr.outer
        ps = fr.func.params()
        return fr.func.bound and ps and ps[0] == t.args[0]

    def do_inline(self, st, ci, f):
        fr = ci.fr
        self.inlined.add(f.qual)
        ps = f.params()
        env = {}
        if f.outer is not None and ci.fterm is not None and \
                ci.fterm in self.closures:
            cf, cenv, cfr = self.closures[ci.fterm]
            if cfr is fr or cfr.func is fr.func:
                env.update(st.env)
            else:
                env.update(cenv)
        args = list(ci.args)
        cls = None
        if f.bound:
            me = ci.recv if ci.recv is not None else NONE
            env[ps[0]] = me
            ps = ps[1:]
            c = self.typeof(me, fr)
            cls = c if isinstance(c, Class) else f.cls
        elif f.cls is not None:
            cls = fr.cls if f.outer is not None else None
        a = f.node.args
        nd = len(a.defaults)
        allp = a.posonlyargs + a.args
        defaults = {}
        for p, d in zip(allp[len(allp) - nd:], a.defaults):
            defaults[p.arg] = d
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            defaults[p.arg] = d
        for p, v in zip(ps, args):
            env[p] = v
        extra = args[len(ps):]
        if a.vararg:
            env[a.vararg.arg] = T('tuple', tuple(extra))
        for k, v in ci.kw.items():
            env[k] = v
        nf = Frame(f, cls, fr, ci.node)
        for p in [x for x in ps] + [x.arg for x in a.kwonlyargs]:
            if p not in env or (p not in ci.kw and p in defaults and
                                f.outer is not None and
                                ps.index(p) >= len(args)
                                if p in ps else False):
                d = defaults.get(p)
                if isinstance(d, ast.Constant):
                    env[p] = const(d.value)
                elif d is not None:
                    r = self.repo.resolve_expr(d, f.module, f.cls)
                    env[p] = self.ref_term(r, d) if r is not None else \
                        self.fresh('unk', d, nf)
                else:
                    env[p] = T('unk', f.qual, p, nf.ctx, nf.loops)
        if a.kwarg:
            env[a.kwarg.arg] = self.fresh('unk', f.node, nf)
        caller = st.env
        s0 = st.with_env(env)
        s0 = self.check.frame_enter(self, s0, f, nf)
        mark = len(self.sinks)
        self.sinks.append([])
        outs = self.exec_body(f, [s0], nf)
        raised = self.sinks.pop()
        assert mark == len(self.sinks)
        for x, e in raised:
            self.raise_(x.with_env(caller), e)
        res = []
        for x, v in outs:
            x = self.check.frame_leave(self, x, f, nf, v)
            res.append((x.with_env(caller), v))
        # dedupe by value
        by = {}
        for x, v in res:
            by.setdefault(v, []).append(x)
        return [(x, v) for v, xs in by.items()
                for x in self.dedupe(xs, site=ci.node)]

    def call_term(self, ci, st=None):
        pure = ci.name in PURE
        args = tuple(self.cont(st, a) if st is not None and pure else a
                     for a in ci.args)
        kw = tuple(sorted(ci.kw.items()))
        q = ci.targets[0].qual if len(ci.targets) == 1 else ''
        if pure:
            return T('call', ci.name, q, ci.recv, args, kw)
        return T('call', ci.name, q, ci.recv, args, kw, id(ci.node),
                 ci.fr.ctx, ci.fr.loops)

    def noreturn(self, f, stack=()):
        """True if a call to f (or any override of it) always raises"""
        c = self.__dict__.setdefault('_noret', {})
        if f in c:
            return c[f]
        if f in stack or len(stack) > 4 or f.is_gen:
            return False
        body = [s for s in f.node.body if not (
            isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))] \
            if not isinstance(f.node, ast.Lambda) else []
        r = bool(body)
        if r and len(body) == 1 and isinstance(body[0], ast.Raise) and \
                body[0].exc is not None and \
                'NotImplementedError' in ast.dump(body[0].exc):
            r = False
        if r:
            r = not self._completes(body, f, stack + (f,))
        if r and f.cls is not None:
            for k in self.repo.subclasses.get(f.cls.qual, ()):
                g = k.methods.get(f.name)
                if g is not None and g is not f and \
                        not self.noreturn(g, stack + (f,)):
                    r = False
        c[f] = r
        return r

    def _completes(self, body, f, stack):
        """May this block complete normally, return, break or continue"""
        for s in body:
            if isinstance(s, ast.Raise):
                return False
            if isinstance(s, (ast.Return, ast.Break, ast.Continue)):
                return True
            for n in ast.walk(s):
                if isinstance(n, ast.Return):
                    return True
            if isinstance(s, ast.If):
                if not self._completes(s.body, f, stack) and s.orelse and \
                        not self._completes(s.orelse, f, stack):
                    return False
            elif isinstance(s, ast.With):
                if not self._completes(s.body, f, stack):
                    return False
            elif isinstance(s, ast.Try):
                if s.finalbody and not self._completes(
                        s.finalbody, f, stack):
                    return False
                if not self._completes(s.body + s.orelse, f, stack) and \
                        all(not self._completes(h.body, f, stack)
                            for h in s.handlers):
                    return False
            elif isinstance(s, ast.Expr) and isinstance(s.value, ast.Call):
                fn = s.value.func
                g = None
                if isinstance(fn, ast.Attribute) and isinstance(
                        fn.value, ast.Name) and f.bound and \
                        f.params() and fn.value.id == f.params()[0] and \
                        f.cls is not None:
                    g = self.repo.find_method(f.cls, fn.attr)
                else:
                    g = self.repo.resolve_expr(fn, f.module, f.cls, f)
                if isinstance(g, Func) and self.noreturn(g, stack):
                    return False
        return True

    def opaque(self, st, ci):
        if ci.targets and all(isinstance(f, Func) and self.noreturn(f)
                              for f in ci.targets):
            self.raise_(st, None)
            return []
        self.implicit_raise(st, ci, ci.fr)
        # len(), isinstance() of known things
        if ci.name == 'isinstance' and len(ci.args) == 2 and \
                ci.args[1].op == 'tuple':
            t = T('or', tuple(T('call', 'isinstance',
                                'builtins.isinstance', None,
                                (ci.args[0], x), ())
                              for x in ci.args[1].args[0]))
            return [(st, t)]
        if ci.name == 'len' and len(ci.args) == 1 and ci.args[0].op in (
                'tuple', 'list') and (ci.args[0], '#ver') not in st.heap:
            return [(st, const(len(ci.args[0].args[0])))]
        if ci.name == 'bool' and len(ci.args) == 1:
            return [(st, ci.args[0])]
        t = self.call_term(ci, st)
        if ci.recv is not None and ci.name in MUTATORS and \
                not (ci.recv.op == 'glob'):
            st = self.bump(st, ci.recv, ci.node, ci.fr)
            if ci.name in ('append', 'appendleft', 'add', 'insert') and \
                    not ci.targets:
                st = st.add(self.cont(st, ci.recv), True)
        for f in ci.targets:
            if isinstance(f, Func) and ci.recv is not None and f.bound:
                for a in self.write_set(f):
                    st = st.put(ci.recv, a, T(
                        'kill', a, ci.recv, id(ci.node), ci.fr.ctx,
                        ci.fr.loops))
        return [(st, t)]

    def write_set(self, f, depth=0, stack=()):
        """Attributes of self that f (transitively via self) may store"""
        if f in self.writes:
            return self.writes[f]
        if f in stack or depth > 8:
            return set()
        out = set()
        ps = f.params()
        if f.bound and ps:
            me = ps[0]
            for n in ast.walk(f.node):
                if isinstance(n, ast.Attribute) and isinstance(
                        n.ctx, (ast.Store, ast.Del)) and isinstance(
                        n.value, ast.Name) and n.value.id == me:
                    out.add(n.attr)
                elif isinstance(n, ast.Call) and isinstance(
                        n.func, ast.Attribute):
                    v = n.func.value
                    g = None
                    if isinstance(v, ast.Name) and v.id == me and f.cls:
                        g = self.repo.find_method(f.cls, n.func.attr)
                    elif isinstance(v, ast.Call) and isinstance(
                            v.func, ast.Name) and v.func.id == 'super' \
                            and f.cls:
                        g = self.repo.find_method(
                            f.cls, n.func.attr, after=f.cls)
                    if g is not None and g is not f:
                        out |= self.write_set(g, depth + 1, stack + (f,))
        if not stack:
            self.writes[f] = out
        return out


class _AnyLocal(object):

    """Frame proxy that treats every name as local (comprehensions)"""

    class _All(object):
        def __contains__(self, x):
            return True

    def __init__(self, fr):
        self.__dict__.update(fr.__dict__)
        self.locals = _AnyLocal._All()

    def stack(self):
        return Frame.stack(self)

    def depth(self):
        return Frame.depth(self)


class MRT(object):

    """Interned module reference"""

    kind = 'module'

    def __init__(self, ref):
        self.ref = ref
        self.qual = ref.qual
        self.module = ref.module


_mr = {}


def MR(ref):
    if ref.qual not in _mr:
        _mr[ref.qual] = MRT(ref)
    return _mr[ref.qual]


class _GV(dict):

    def get(self, q, r):
        if q not in self:
            self[q] = r
        return self[q]


GV = _GV()
