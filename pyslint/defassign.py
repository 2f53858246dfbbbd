"""Definite assignment of local variables

A path sensitive dataflow: a read of a local variable which reaches it
unassigned on some path that is not contradicted by the branch facts is
reported.  Loops over a collection are taken to run at least once when
that is the only way to the read (see `lenient`)."""

import ast

from .interp import Budget, Check, Interp, T
from .repo import walk_own


class DefAssign(Check):

    cap = 24
    hard_cap = 64
    inline_depth = 0

    def __init__(self, func):
        self.func = func
        self.found = {}     # name -> node
        self.names = None

    def inline(self, it, ci, f):
        return False


def candidates(func):
    """Local names whose every assignment is not trivially first"""
    from .interp import assigned_names
    node = func.node
    names = assigned_names(node) - set(func.params())
    a = node.args
    names -= {x.arg for x in a.kwonlyargs}
    for x in (a.vararg, a.kwarg):
        if x:
            names.discard(x.arg)
    # assigned by a top level statement before any nested read
    sure = set()
    for s in node.body:
        if isinstance(s, ast.Assign):
            for n in ast.walk(s.value):
                pass
            for t in s.targets:
                for n in ast.walk(t):
                    if isinstance(n, ast.Name) and isinstance(
                            n.ctx, ast.Store):
                        if not any(isinstance(x, ast.Name) and
                                   x.id == n.id and
                                   isinstance(x.ctx, ast.Load)
                                   for x in ast.walk(s.value)):
                            sure.add(n.id)
        else:
            break
    dels = {n.id for n in ast.walk(node) if isinstance(n, ast.Name) and
            isinstance(n.ctx, ast.Del)}
    handlers = {n.name for n in ast.walk(node)
                if isinstance(n, ast.ExceptHandler) and n.name}
    # comprehension variables are local to the comprehension
    comp = set()
    for n in ast.walk(node):
        if isinstance(n, ast.comprehension):
            for x in ast.walk(n.target):
                if isinstance(x, ast.Name):
                    comp.add(x.id)
    stores = set()
    todo = list(node.body)
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            stores.add(n.name)
            continue
        if isinstance(n, ast.Lambda):
            continue
        if isinstance(n, ast.comprehension):
            todo += [n.iter] + n.ifs
            continue
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            stores.add(n.id)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            stores.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for al in n.names:
                stores.add((al.asname or al.name).split('.')[0])
        todo += list(ast.iter_child_nodes(n))
    out = names & stores
    return out, (out - sure) | (out & (dels | handlers))


class Quick(object):

    """Classical (path insensitive) definite assignment

    Collects the names that it cannot prove assigned before some read."""

    def __init__(self, cand):
        self.cand = cand
        self.bad = set()
        self.loops = []

    def run(self, func):
        self.block(func.node.body, frozenset())
        return self.bad

    def read(self, e, a):
        if e is None:
            return
        todo = [e]
        while todo:
            n = todo.pop()
            if isinstance(n, (ast.Lambda, ast.FunctionDef)):
                continue
            if isinstance(n, ast.Name):
                if isinstance(n.ctx, ast.Load) and n.id in self.cand and \
                        n.id not in a:
                    self.bad.add(n.id)
                continue
            if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp,
                              ast.GeneratorExp)):
                b = set(a)
                for g in n.generators:
                    self.read(g.iter, frozenset(b))
                    for x in ast.walk(g.target):
                        if isinstance(x, ast.Name):
                            b.add(x.id)
                    for i in g.ifs:
                        self.read(i, frozenset(b))
                for x in ([n.key, n.value] if isinstance(n, ast.DictComp)
                          else [n.elt]):
                    self.read(x, frozenset(b))
                continue
            todo += list(ast.iter_child_nodes(n))

    def bind(self, t, a):
        out = set(a)
        for n in ast.walk(t):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                out.add(n.id)
            elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Del):
                out.discard(n.id)
        return frozenset(out)

    def meet(self, xs):
        xs = [x for x in xs if x is not None]
        if not xs:
            return None
        r = xs[0]
        for x in xs[1:]:
            r &= x
        return r

    def block(self, body, a):
        for s in body:
            if a is None:
                return None
            a = self.stmt(s, a)
        return a

    def stmt(self, s, a):
        if isinstance(s, ast.Assign):
            self.read(s.value, a)
            for t in s.targets:
                self.read(t, a)
                a = self.bind(t, a)
            return a
        if isinstance(s, ast.AugAssign):
            self.read(s.value, a)
            if isinstance(s.target, ast.Name):
                if s.target.id in self.cand and s.target.id not in a:
                    self.bad.add(s.target.id)
            else:
                self.read(s.target, a)
            return a
        if isinstance(s, ast.If):
            self.read(s.test, a)
            return self.meet([self.block(s.body, a),
                              self.block(s.orelse, a)])
        if isinstance(s, (ast.For, ast.While)):
            inf = False
            if isinstance(s, ast.For):
                self.read(s.iter, a)
                b = self.bind(s.target, a)
            else:
                self.read(s.test, a)
                b = a
                inf = isinstance(s.test, ast.Constant) and s.test.value
            self.loops.append([])
            self.block(s.body, b)
            brk = self.loops.pop()
            out = None if inf else self.block(s.orelse, a)
            return self.meet([out] + brk)
        if isinstance(s, ast.Try):
            dels = frozenset(
                n.id for x in s.body for n in ast.walk(x)
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Del))
            base = a - dels
            n = len(self.loops)
            e = self.block(s.body, a)
            if e is not None:
                e = self.block(s.orelse, e)
            outs = [e]
            for h in s.handlers:
                b = base
                if h.name:
                    b = b | {h.name}
                r = self.block(h.body, b)
                if r is not None and h.name:
                    r = r - {h.name}
                outs.append(r)
            m = self.meet(outs)
            if s.finalbody:
                f = self.block(s.finalbody, base)
                if f is None or m is None:
                    return None
                return m | f
            return m
        if isinstance(s, ast.With):
            for i in s.items:
                self.read(i.context_expr, a)
                if i.optional_vars is not None:
                    a = self.bind(i.optional_vars, a)
            return self.block(s.body, a)
        if isinstance(s, (ast.Return, ast.Raise)):
            self.read(s, a)
            return None
        if isinstance(s, ast.Break):
            if self.loops:
                self.loops[-1].append(a)
            return None
        if isinstance(s, ast.Continue):
            return None
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            return a | {s.name}
        if isinstance(s, (ast.Import, ast.ImportFrom)):
            return a | {(x.asname or x.name).split('.')[0]
                        for x in s.names}
        if isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Name):
                    if t.id in self.cand and t.id not in a:
                        self.bad.add(t.id)
                else:
                    self.read(t, a)
                a = self.bind(t, a)
            return a
        self.read(s, a)
        return a


class DA(Interp):

    def __init__(self, repo, check, names, budget):
        Interp.__init__(self, repo, check, budget)
        self.cand = names

    def e_Name(self, e, st, fr):
        r = Interp.e_Name(self, e, st, fr)
        if e.id in self.cand and fr.func is self.check.func:
            for x, t in r:
                if t.op in ('unbound', 'maybe_unbound'):
                    self.check.found.setdefault(e.id, []).append(
                        (e, x, t))
        return r

    def group_key(self, s):
        return (frozenset(k for k in s.env if k in self.cand),
                frozenset((k, v) for k, v in s.env.items()
                          if v.op == 'const' and (
                              v.args[0] is None or
                              isinstance(v.args[0], (bool, str)))),
                frozenset((t, p) for t, p in s.facts.items()
                          if p and t.op == 'cmp' and t.args[0] == '=='))

    def coarse_key(self, s):
        return (frozenset(k for k in s.env if k in self.cand),
                frozenset((k, v) for k, v in s.env.items()
                          if v.op == 'const' and (
                              v.args[0] is None or
                              isinstance(v.args[0], (bool, str)))))


def analyse(repo, func, budget=30000):
    allc, names = candidates(func)
    if names:
        names = Quick(allc).run(func)
    if not names:
        return allc, {}, False
    chk = DefAssign(func)
    it = DA(repo, chk, names, budget)
    try:
        it.run(func)
    except Budget:
        return allc, chk.found, True
    return allc, chk.found, False


def run(repo, rep, rule, skip=(), exceptions={}):
    over = 0
    hard = 0
    for f in sorted(repo.funcs.values(), key=lambda f: f.qual):
        if f.module.name in skip:
            continue
        allc, found, b = analyse(repo, f)
        over += b
        for n in allc:
            if n in found:
                e = found[n][0][0]
                if (f.short, n) in exceptions:
                    rep.ok(rule, "%s %s" % (f.short, n))
                    continue
                st = found[n][0][1]
                facts = ["%s %s" % ('' if p else 'not', t) for t, p in
                         list(st.facts.items())[-8:]]
                rep.bad(rule, "%s %s" % (f.short, n),
                        "local variable %s may be read before it is "
                        "assigned" % n,
                        "%s:%s" % (f.module.rel, e.lineno), facts)
            else:
                rep.ok(rule, "%s %s" % (f.short, n))
    rep.stats['definite_assignment_budget_exceeded'] = over
