"""Lock-held dataflow for guarded fields.

For every function that touches a guarded field (or calls a function that
must be called with the lock held) a forward path analysis tracks whether
the lock is held, which guarded fields were read in earlier critical
sections, whether a change that can satisfy a waiting thread has not been
notified yet and whether a wait has been followed by a new test."""

import ast
import os

from .interp import Budget, Check, Interp, NONE, T, is_const, MUTATORS
from .repo import AnalysisError, Class, Func, walk_own

HERE = os.path.dirname(os.path.abspath(__file__))


def baseline():
    with open(os.path.join(HERE, 'baseline_funcs.txt')) as f:
        return set(f.read().split())


class Spec(object):

    modules = ()
    fields = {}             # attr -> 'rw' or 'w'
    nested = ()             # fields whose values are mutable containers
    contextual = ()         # functions documented as needing the lock
    exempt = ()             # functions (constructors) not shared yet
    notify_names = ('notify', 'notify_all', 'notifyAll')
    split_ok = {}           # (func short, field): reason
    calls = {}              # called name -> (reads, writes) summary
    exempt_notify = ()
    live_ok = ()
    groups = ()             # fields that always change together
    truthy = ()             # objects with these attributes are true
    cross = False           # follow calls of functions that touch fields

    def lock(self, it, t, fr):
        """Is t the lock (or an alias)"""
        raise NotImplementedError

    def guarded(self, it, base, attr, fr):
        """Is base.attr a guarded field"""
        raise NotImplementedError

    def enabling(self, it, st, kind, base, attr, value, node, fr):
        """Pending kinds started by this change of a guarded field"""
        return ()

    def settles(self, it, st, ci):
        """Pending kinds settled by this call"""
        return ()

    def settles_store(self, it, st, base, attr, value):
        return ()

    def excuse(self, it, st, kind):
        return False

    def extra0(self):
        return ()

    def extra(self, it, st, x, event, *args):
        """Rule specific automaton: returns the new value"""
        return x

    def extra_done(self, chk, it, st, x, where, func, *args):
        pass

    def leave_check(self, chk, it, st, x, func):
        pass

    def names(self, st, t):
        """Attributes the value of t was computed from"""
        sub = set(t.subterms())
        out = set(k.args[1] for k in sub if k.op == 'attr')
        for (b, a), v in st.heap.items():
            if a in self.fields and v in sub:
                out.add(a)
        return out

    def is_field(self, st, t, name):
        while t.op == 'ver':
            t = t.args[0]
        if t.op == 'attr':
            return t.args[1] == name
        return any(a == name and v is t for (b, a), v in st.heap.items())

    def after_wait(self, x):
        return x

    def after_release(self, x):
        return x

    def expired(self, it, st, arg):
        """Other evidence that a wait is known not to have timed out"""
        return False


class A(object):

    """Automaton state"""

    __slots__ = ('held', 'past', 'cur', 'pend', 'waited', 'x', 'mut',
                 'ever', '_k')

    def __init__(self, held=0, past=frozenset(), cur=frozenset(),
                 pend=frozenset(), waited=False, x=(), mut=frozenset(),
                 ever=False):
        self.held = held
        self.past = past
        self.cur = cur
        self.pend = pend
        self.waited = waited
        self.x = x
        self.mut = mut
        self.ever = ever
        self._k = (held, past, cur, pend, waited, x, mut, ever)

    def __hash__(self):
        return hash(self._k)

    def __eq__(self, o):
        return self._k == o._k

    def new(self, **kw):
        d = dict(held=self.held, past=self.past, cur=self.cur,
                 pend=self.pend, waited=self.waited, x=self.x,
                 mut=self.mut, ever=self.ever)
        d.update(kw)
        return A(**d)


class LockCheck(Check):

    inline_size = 0
    cap = 64

    def __init__(self, spec, parents):
        self.spec = spec
        spec.chk = self
        self.parents = parents
        self.ctx = set()
        self.waits = set()
        self.summary = {}
        self.access = {}     # (func, what, mode) -> [ok, where]
        self.bad = {}        # (rule, inst) -> (msg, where)
        self.good = {}       # (rule, inst)
        self.collect = True
        self.func = None
        self.unprot = set()
        self.loops = {}
        self.woken = {}

    def inline(self, it, ci, f):
        # helpers added since the rules were written
        return f.qual not in self.quals or f.qual.endswith('<lambda>')

    def note(self, rule, inst, ok, msg='', where=''):
        if ok:
            self.good.setdefault((rule, inst), True)
        else:
            self.bad[(rule, inst)] = (msg, where)

    def start(self, it, st, func):
        self.func = func
        held = 1 if func in self.ctx else 0
        return st.with_auto(A(held=held, x=self.spec.extra0()))

    # ---- accesses -----------------------------------------------------
    def mode(self, node):
        """How the loaded value of a field is used: r, w or rw"""
        p = self.parents.get(node)
        if isinstance(p, ast.Subscript) and p.value is node and \
                isinstance(p.ctx, (ast.Store, ast.Del)):
            if isinstance(self.parents.get(p), ast.AugAssign):
                return 'rw'
            return 'w'
        if isinstance(p, ast.Attribute) and p.value is node and \
                p.attr in MUTATORS:
            g = self.parents.get(p)
            if isinstance(g, ast.Call) and g.func is p:
                return 'w'
        if isinstance(p, ast.Attribute) and p.value is node and \
                p.attr == 'get':
            # table.get(key, ...).mutate()
            g = self.parents.get(p)
            h = self.parents.get(g)
            if isinstance(g, ast.Call) and g.func is p and isinstance(
                    h, ast.Attribute) and h.attr in MUTATORS:
                return 'w'
        return 'r'

    def widen(self, what):
        for g in self.spec.groups:
            if set(g) & set(what):
                what = set(what) | set(g)
        return frozenset(what)

    def touch(self, it, st, what, mode, node, fr, msg=None):
        a = st.auto
        func = self.func
        inst = "%s:%s" % (func.short, what)
        exempt = func.short in self.spec.exempt
        ok = a.held > 0 or exempt
        if not ok:
            self.unprot.add(func)
        self.note('held', inst, ok,
                  msg or "%s is %s without the lock" % (
                      what, 'changed' if 'w' in mode else 'read'),
                  "%s:%s" % (fr.module.rel, node.lineno))
        if exempt:
            return st
        return st

    def section(self, st, reads, writes, node, fr, selflock=False):
        """Split critical section rule"""
        a = st.auto
        func = self.func
        if func.short in self.spec.exempt:
            return st
        past, cur = a.past, a.cur
        reads = [r for r in reads if self.spec.fields.get(r) != 'w']
        writes = [w for w in writes if self.spec.fields.get(w) != 'w']
        own = selflock and not a.held
        if own:
            eff = self.widen(reads)
        else:
            eff = self.widen(cur)
        for w in writes:
            inst = "%s:%s" % (func.short, w)
            bad = w in past and w not in eff and (
                (func.short, w) not in self.spec.split_ok)
            if bad:
                self.unprot.add(func)
            self.note('atomic', inst, not bad,
                      "%s is changed in a different critical section from "
                      "the one in which it was tested" % w,
                      "%s:%s" % (fr.module.rel, node.lineno))
        if own:
            a = a.new(past=past | frozenset(reads))
        else:
            a = a.new(cur=cur | frozenset(reads))
        return st.with_auto(a)

    def load(self, it, st, base, attr, node, fr):
        m = self.mode(node)
        if self.spec.fields[attr] == 'w' and m == 'r':
            return st
        st = self.touch(it, st, attr, m, node, fr)
        return self.section(st, [attr] if m in ('r', 'rw') else (),
                            [attr] if 'w' in m else (), node, fr)

    def attr_load(self, it, st, base, attr, node, fr):
        if attr in self.spec.fields and self.spec.guarded(
                it, base, attr, fr):
            st = self.load(it, st, base, attr, node, fr)
        return st

    def attr_store(self, it, st, base, attr, value, node, fr):
        if attr in self.spec.fields and self.spec.guarded(
                it, base, attr, fr):
            st = self.touch(it, st, attr, 'w', node, fr)
            st = self.section(st, (), [attr], node, fr)
            st = self.change(it, st, 'store', base, attr, value, node, fr)
        if attr in self.spec.truthy:
            st = st.add(base, True)
        s = self.spec.settles_store(it, st, base, attr, value)
        if s:
            st = st.with_auto(st.auto.new(pend=frozenset(
                p for p in st.auto.pend if p[0] not in s)))
        return self.ext(it, st, 'store', base, attr, value, node, fr)

    def ext(self, it, st, *ev):
        x = self.spec.extra(it, st, st.auto.x, *ev)
        if x is not st.auto.x:
            st = st.with_auto(st.auto.new(x=x))
        return st

    def change(self, it, st, kind, base, attr, value, node, fr):
        if st.auto.waited:
            self.note('retest', "%s:%s" % (self.func.short, attr), False,
                      "%s is changed after a wait without going round the "
                      "loop that tests the condition" % attr,
                      "%s:%s" % (fr.module.rel, node.lineno))
        if kind != 'store' and attr not in st.auto.mut:
            st = st.with_auto(st.auto.new(mut=st.auto.mut | {attr}))
        if self.func.short in self.spec.exempt_notify or \
                self.func.short in self.spec.exempt:
            return st
        ks = self.spec.enabling(it, st, kind, base, attr, value, node, fr)
        if ks:
            for k in ks:
                self.note(k, "%s:%s" % (self.func.short, attr), True)
            st = st.with_auto(st.auto.new(pend=st.auto.pend | frozenset(
                (k, attr, "%s:%s" % (fr.module.rel, node.lineno))
                for k in ks)))
        return st

    def fieldof(self, it, t, fr):
        """The guarded field a container term is the value of"""
        while t.op == 'ver':
            t = t.args[0]
        if t.op == 'attr' and t.args[1] in self.spec.fields and \
                self.spec.guarded(it, t.args[0], t.args[1], fr):
            return t.args[0], t.args[1]
        return None

    def heapfield(self, it, st, t, fr):
        r = self.fieldof(it, t, fr)
        if r is None:
            for (b, a), v in st.heap.items():
                if v is t and a in self.spec.fields and \
                        self.spec.guarded(it, b, a, fr):
                    return b, a
        if r is None and t.op == 'sub' and self.spec.nested:
            q = self.heapfield(it, st, t.args[0], fr)
            if q is not None and q[1] in self.spec.nested:
                return q[0], q[1] + '[]'
        if r is None and t.op == 'call' and t.args[0] in (
                'get', 'setdefault') and t.args[2] is not None and \
                self.spec.nested:
            q = self.heapfield(it, st, t.args[2], fr)
            if q is not None and q[1] in self.spec.nested:
                return q[0], q[1] + '[]'
        return r

    def sub_store(self, it, st, base, idx, value, node, fr):
        r = self.heapfield(it, st, base, fr)
        if r is not None:
            st = self.change(it, st, 'sub_store', r[0], r[1], value, node,
                             fr)
            st = self.ext(it, st, 'sub_store', r[0], r[1], value, node, fr)
        return st

    def sub_del(self, it, st, base, idx, node, fr):
        r = self.heapfield(it, st, base, fr)
        if r is not None:
            st = self.change(it, st, 'sub_del', r[0], r[1], None, node, fr)
            st = self.ext(it, st, 'sub_del', r[0], r[1], None, node, fr)
        return st

    # ---- the lock -------------------------------------------------------
    def acquire(self, it, st, node, fr):
        a = st.auto
        if a.held == 0:
            a = a.new(held=1, cur=frozenset())
            if a.past:
                st = self.forget(it, st, node, fr)
        else:
            a = a.new(held=min(a.held + 1, 5))
        return st.with_auto(a)

    def release(self, it, st, fr, node, kind):
        a = st.auto
        if a.held == 0:
            return st
        if a.held == 1:
            if kind != 'raise':
                for k, attr, where in sorted(a.pend):
                    if not self.spec.excuse(it, st, k):
                        self.note(k, "%s:%s" % (self.func.short, attr),
                                  False,
                                  "a change of %s reaches the end of the "
                                  "critical section without %s" % (attr, k),
                                  where)
                self.spec.leave_check(self, it, st, a.x, self.func)
            a = a.new(held=0, past=a.past | a.cur, cur=frozenset(),
                      pend=frozenset(), x=self.spec.after_release(a.x))
        else:
            a = a.new(held=a.held - 1)
        return st.with_auto(a)

    def enter(self, it, st, ctx, node, fr):
        if self.spec.lock(it, ctx, fr):
            self.note('lock', self.func.short, True)
            return self.acquire(it, st, node, fr)
        return st

    def leave(self, it, st, ctx, node, fr, kind):
        if self.spec.lock(it, ctx, fr):
            return self.release(it, st, fr, node, kind)
        return st

    def call(self, it, st, ci):
        fr = ci.fr
        r = self.spec_call(it, st, ci)
        if r is not None:
            return r
        f = ci.target
        if isinstance(f, Func) and not f.is_gen and \
                self.inline(it, ci, f) and it.can_inline(ci, f, ci.fr):
            return None
        if ci.recv is not None and self.spec.lock(it, ci.recv, fr):
            if ci.name == 'acquire':
                s2 = self.acquire(it, st, ci.node, fr)
                out = it.opaque(s2, ci)
                if ci.args and not is_const(ci.args[0], True):
                    from .interp import TRUE, FALSE
                    return [(s2, TRUE), (st, FALSE)]
                return out
            if ci.name == 'release':
                st = self.release(it, st, fr, ci.node, 'next')
                return [(st, NONE)]
            if ci.name == 'wait':
                inst = self.func.short
                self.note('retest', inst, True)
                self.note('wait held', inst, st.auto.held > 0,
                          "waits without holding the lock",
                          ci.where)
                ok = bool(ci.args or ci.kw)
                self.note('timeout', inst, ok,
                          "waits without passing a timeout", ci.where)
                a = st.auto
                for k, attr, where in sorted(a.pend):
                    if not self.spec.excuse(it, st, k):
                        self.note(k, "%s:%s" % (inst, attr), False,
                                  "a change of %s reaches a wait without "
                                  "%s" % (attr, k), where)
                self.spec.leave_check(self, it, st, a.x, self.func)
                arg = ci.args[0] if ci.args else next(
                    iter(ci.kw.values()), NONE) if ci.kw else NONE
                st = st.with_auto(a.new(
                    waited=(arg,), past=a.past | a.cur, cur=frozenset(),
                    pend=frozenset(), x=self.spec.after_wait(a.x),
                    ever=True))
                self.woken.setdefault(inst, False)
                # other threads ran
                st = self.forget(it, st, ci.node, fr)
                return it.opaque(st, ci)
        s = self.spec.settles(it, st, ci)
        if s:
            st = st.with_auto(st.auto.new(pend=frozenset(
                p for p in st.auto.pend if p[0] not in s)))
        for f in ci.targets:
            if f in self.ctx:
                st = self.touch(it, st, 'call ' + f.name, 'rw', ci.node, fr,
                                "%s is called without the lock it needs" %
                                f.short)
            if f in self.waits:
                st = st.with_auto(st.auto.new(waited=True))
        return self.after_summary(it, st, ci)

    def forget(self, it, st, node, fr):
        """The guarded fields have new values"""
        seen = set()
        for t in list(st.facts) + list(st.env.values()):
            for k in t.subterms():
                if k.op == 'attr' and k.args[1] in self.spec.fields:
                    seen.add(k)
        for b, a in st.heap:
            if a in self.spec.fields:
                seen.add(T('attr', b, a))
        for k in sorted(seen, key=repr):
            b, a = k.args[:2]
            if self.spec.fields[a] == 'rw' and self.spec.guarded(
                    it, b, a, fr):
                st = st.put(b, a, T('ver', k, T(
                    'v', id(node), fr.ctx, fr.loops)))
        return st

    def spec_call(self, it, st, ci):
        f = getattr(self.spec, 'call', None)
        if f is None:
            return None
        return f(self, it, st, ci)

    def after_summary(self, it, st, ci):
        reads, writes = set(), set()
        if ci.name in self.spec.calls:
            r, w = self.spec.calls[ci.name]
            reads.update(r)
            writes.update(w)
        for f in ci.targets:
            if f in self.summary and len(ci.targets) <= 3:
                r, w = self.summary[f]
                reads |= r
                writes |= w
        if reads or writes:
            ctx = any(f in self.ctx for f in ci.targets)
            st = self.section(st, sorted(reads), sorted(writes), ci.node,
                              ci.fr, selflock=not ctx)
        # mutators of guarded containers
        if ci.recv is not None and ci.name in MUTATORS:
            r = self.heapfield(it, st, ci.recv, ci.fr)
            if r is not None and not r[1].endswith('[]'):
                st = self.change(it, st, ci.name, r[0], r[1], None, ci.node,
                                 ci.fr)
                st = self.ext(it, st, ci.name, r[0], r[1],
                              ci.args[0] if ci.args else None, ci.node,
                              ci.fr)
            elif self.spec.nested:
                f = self.live(it, st, ci.recv, ci.fr)
                if f in self.spec.nested:
                    st = self.touch(it, st, f + '[]', 'w', ci.node, ci.fr)
                    st = self.ext(
                        it, st, 'mut', f, ci.name, nested_key(ci.recv),
                        ci.args[0] if ci.args else None, ci.node, ci.fr)
        st = self.ext(it, st, 'call', ci)
        res = None
        f = ci.target
        if isinstance(f, Class):
            res = it.construct(st, ci, f)
        if res is None:
            res = it.opaque(st, ci)
        return res

    # ---- escapes ---------------------------------------------------------
    def live(self, it, st, t, fr):
        """Name of the field t is a live view of"""
        while t.op == 'ver':
            t = t.args[0]
        r = self.fieldof(it, t, fr)
        if r is not None:
            return r[1]
        if t.op == 'call':
            n = t.args[0]
            if n in ('dict_keys', 'dict_values', 'dict_items', 'iter',
                     'enumerate', 'reversed', 'zip') and t.args[3]:
                return self.live(it, st, t.args[3][0], fr)
            if n in ('keys', 'values', 'items') and t.args[2] is not None:
                return self.live(it, st, t.args[2], fr)
            if n in ('get', 'setdefault') and t.args[2] is not None:
                f = self.live(it, st, t.args[2], fr)
                if f in self.spec.nested:
                    return f
        if t.op == 'sub':
            f = self.live(it, st, t.args[0], fr)
            if f in self.spec.nested:
                return f
        if t.op == 'elem':
            c = t.args[0]
            if c.op == 'call' and c.args[0] in (
                    'dict_values', 'values', 'list', 'tuple'):
                f = self.live(it, st, c, fr)
                if f in self.spec.nested:
                    return f
        if t.op == 'tuple':
            for x in t.args[0]:
                f = self.live(it, st, x, fr)
                if f:
                    return f
        return None

    def view(self, it, st, t, fr):
        """The container t is a live view of"""
        while t.op == 'ver':
            t = t.args[0]
        if t.op == 'call':
            n = t.args[0]
            if n in ('dict_keys', 'dict_values', 'dict_items', 'iter',
                     'enumerate', 'reversed', 'zip') and t.args[3]:
                return self.view(it, st, t.args[3][0], fr)
            if n in ('keys', 'values', 'items') and t.args[2] is not None:
                return self.view(it, st, t.args[2], fr)
        r = self.heapfield(it, st, t, fr)
        return r[1] if r is not None else None

    def iterate(self, it, st, iterable, node, fr):
        if st.auto is None:
            return st
        v = self.view(it, st, iterable, fr)
        if v is not None:
            self.loops[node] = v
            if v in st.auto.mut:
                st = st.with_auto(st.auto.new(mut=st.auto.mut - {v}))
        f = self.live(it, st, iterable, fr)
        if f and self.spec.fields.get(f) == 'rw':
            self.note('held', "%s:iterate %s" % (self.func.short, f),
                      st.auto.held > 0 or
                      self.func.short in self.spec.exempt,
                      "%s is iterated outside the lock" % f,
                      "%s:%s" % (fr.module.rel, node.lineno))
        return st

    def yield_(self, it, st, value, node, fr):
        return st

    def loop_back(self, it, st, node, fr):
        st = self.ext(it, st, 'loop', self, node, fr)
        v = self.loops.get(node)
        if v is not None:
            self.note('live', "%s:%s" % (self.func.short, v),
                      v not in st.auto.mut, "%s is changed while it is "
                      "being iterated" % v,
                      "%s:%s" % (fr.module.rel, node.lineno))
        if st.auto.waited:
            inst = self.func.short
            arg = st.auto.waited[0] if isinstance(
                st.auto.waited, tuple) else None
            if arg is not None:
                ok = is_const(arg, None) or st.facts.get(
                    T('cmp', 'is', arg, NONE)) is True or \
                    self.timed_out(st) or self.spec.expired(it, st, arg)
                self.note('expire', inst, ok, "goes back to waiting "
                          "without testing whether the time is up",
                          "%s:%s" % (fr.module.rel, node.lineno))
            return st.with_auto(st.auto.new(waited=False))
        return st

    def timed_out(self, st):
        """The path tested the time against something"""
        for t in st.facts:
            if t.op == 'cmp' and t.args[0] == '<' and any(
                    x.op == 'call' and x.args[0] == 'time'
                    for x in t.subterms()):
                return True
        return False

    def func_exit(self, it, st, func, kind, payload, fr):
        a = st.auto
        if kind == 'return':
            if a.ever:
                self.woken[func.short] = True
            if a.waited and not self.timed_out(st):
                if func.short not in self.base_names:
                    self.waits.add(func)
                else:
                    self.note('retest', func.short, False,
                              "returns after a wait without testing the "
                              "condition again", func.where)
            if payload is not None and func not in self.ctx and \
                    func.short not in self.spec.exempt:
                f = self.live(it, st, payload, fr)
                if f and self.spec.fields.get(f) == 'rw' and \
                        f not in self.spec.live_ok:
                    self.note('held', "%s:escape %s" % (func.short, f),
                              False, "a live view of %s is returned out "
                              "of the critical section" % f, func.where)
            if func in self.ctx and a.pend:
                for k, attr, where in sorted(a.pend):
                    pass
        self.spec.extra_done(self, it, st, a.x, kind, func, payload)


def nested_key(t):
    while t.op == 'ver':
        t = t.args[0]
    if t.op == 'sub':
        return t.args[1]
    if t.op == 'call' and t.args[3]:
        return t.args[3][0]
    return None


def parents_of(repo, mods):
    out = {}
    for m in mods:
        for n in ast.walk(m.tree):
            for c in ast.iter_child_nodes(n):
                out[c] = n
    return out


def mentions(f, names):
    for n in ast.walk(f.node):
        if isinstance(n, ast.Attribute) and n.attr in names:
            return True
        if isinstance(n, ast.Name) and n.id in names:
            return True
    return False


class LockInterp(Interp):

    def s_AugAssign(self, s, st, fr):
        # the synthetic load must map to its statement's parents
        t = s.target
        ld = self.as_load(t)
        self.check.parents.setdefault(ld, s)
        if isinstance(ld, ast.Subscript):
            pass
        return Interp.s_AugAssign(self, s, st, fr)


def analyse(repo, rep, spec, rules):
    """Runs spec; rules maps internal rule kind -> report rule name"""
    base = baseline()
    mods = [repo.module(m) for m in spec.modules]
    funcs = [f for f in repo.funcs.values() if f.module in mods]
    chk = LockCheck(spec, parents_of(repo, mods))
    chk.repo = repo
    chk.quals = base
    chk.base_names = set(q.replace('pyslet.', '', 1) for q in base)
    for s in spec.contextual:
        chk.ctx.add(repo.func(s))
    for s in spec.exempt:
        repo.func(s)
    names = set(spec.fields) | set(spec.calls)
    # summaries: guarded fields read and written by a function itself
    for f in funcs:
        if not isinstance(f.node, ast.Lambda) and mentions(
                f, set(spec.fields)) and f.short not in spec.exempt:
            r, w = set(), set()
            for n in walk_own(f.node):
                if isinstance(n, ast.Attribute) and n.attr in spec.fields \
                        and f.cls is not None and spec.static(
                            repo, f, n):
                    if isinstance(n.ctx, (ast.Store, ast.Del)):
                        w.add(n.attr)
                        p = chk.parents.get(n)
                        if isinstance(p, ast.AugAssign):
                            r.add(n.attr)
                        continue
                    m = chk.mode(n)
                    if 'r' in m:
                        r.add(n.attr)
                    if 'w' in m:
                        w.add(n.attr)
            if r or w:
                chk.summary[f] = (r, w)
    if spec.cross:
        names |= {f.name for f in chk.summary}
    done = False
    rounds = 0
    while not done and rounds < 6:
        rounds += 1
        done = True
        chk.access = {}
        chk.bad = {}
        chk.good = {}
        nwaits = len(chk.waits)
        ctxnames = {f.name for f in chk.ctx}
        todo = select(repo, funcs, names | ctxnames | set(
            spec.lock_names), base)
        for f in todo:
            it = LockInterp(repo, chk, budget=120000)
            before = len(chk.unprot)
            chk.unprot.discard(f)
            for cap in (64, 8):
                try:
                    chk.cap = cap
                    it.run(f)
                    break
                except Budget:
                    if cap == 8:
                        raise AnalysisError(
                            "budget exceeded in %s" % f.qual)
            if f in chk.unprot and f not in chk.ctx and \
                    f.qual not in base and callers(repo, f):
                chk.ctx.add(f)
                done = False
            rep.funcs.add(f.short)
        if len(chk.waits) != nwaits:
            done = False
    for inst, ok in chk.woken.items():
        chk.note('retest', inst + ':wakes', ok, "never returns once it has "
                 "waited: the loop test does not use the new state",
                 repo.func(inst).where)
    # contextual functions must not be called from outside the modules
    for (kind, inst), v in sorted(chk.good.items()):
        if kind in rules and (kind, inst) not in chk.bad:
            rep.ok(rules[kind], inst)
    for (kind, inst), (msg, where) in sorted(chk.bad.items()):
        if kind in rules:
            rep.bad(rules[kind], inst, msg, where)
    return chk


def close_names(repo, names, base=None):
    """Adds the names of helpers added since the rules were written that
    mention any of names; returns the names and the helpers"""
    base = base or baseline()
    names = set(names)
    helpers = [f for f in repo.funcs.values() if f.qual not in base and
               not isinstance(f.node, ast.Lambda) and callers(repo, f)]
    found = True
    while found:
        found = False
        for f in helpers:
            if f.name not in names and mentions(f, names):
                names.add(f.name)
                found = True
    return names, set(helpers)


def select(repo, funcs, names, base=None):
    """The functions that mention any of names, with new helpers replaced
    by their callers"""
    names, hs = close_names(repo, names, base)
    return [f for f in funcs if f not in hs and
            not isinstance(f.node, ast.Lambda) and mentions(f, names)]


def callers(repo, f):
    for g in repo.funcs.values():
        if g is not f and not isinstance(g.node, ast.Lambda):
            for n in walk_own(g.node):
                if isinstance(n, ast.Call):
                    fn = n.func
                    nm = fn.attr if isinstance(fn, ast.Attribute) else \
                        getattr(fn, 'id', None)
                    if nm == f.name:
                        return True
    return False
