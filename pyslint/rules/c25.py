"""C25: OData operators and functions in every expression back end"""

import ast

from ..lockset import baseline
from ..peval import (Enum, Hooks, Obj, PDict, PEval, PList, Raised, Str, Sym,
                     Bound, TooMany, Unsupported, same)
from ..repo import AnalysisError, Class, Func

CORE = 'pyslet.odata2.core.'
SQL = 'pyslet.odata2.sqlds.SQLCollectionBase'

# OData precedence, strongest first
LEVELS = [['paren'], ['member', 'methodCall'], ['negate', 'not', 'cast'],
          ['mul', 'div', 'mod'], ['add', 'sub'],
          ['lt', 'gt', 'le', 'ge', 'isof'], ['eq', 'ne'], ['and'], ['or']]
LEVEL = {o: -n for n, os in enumerate(LEVELS) for o in os}
SQLOP = {'mul': '*', 'div': '/', 'add': '+', 'sub': '-', 'lt': '<',
         'gt': '>', 'le': '<=', 'ge': '>=', 'eq': '=', 'ne': '<>',
         'and': 'AND', 'or': 'OR'}
ASSOC = ('AND', 'OR', '+', '*')
# SQL precedence of these operators in the standard
SQLLEVEL = {'OR': 1, 'AND': 2, 'NOT': 3, '=': 4, '<>': 4, '<': 4, '>': 4,
            '<=': 4, '>=': 4, 'LIKE': 4, '+': 5, '-': 5, '*': 6, '/': 6}
ARITY = {'endswith': {2}, 'indexof': {2}, 'replace': {3},
         'startswith': {2}, 'tolower': {1}, 'toupper': {1}, 'trim': {1},
         'substring': {2, 3}, 'substringof': {2}, 'concat': {2},
         'length': {1}, 'year': {1}, 'month': {1}, 'day': {1},
         'hour': {1}, 'minute': {1}, 'second': {1}, 'round': {1},
         'floor': {1}, 'ceiling': {1}}
# words one of which the SQL of a function has to contain, with the
# operands in the order in which they appear in it
SQLWORDS = {
    'tolower': (['LOWER(', 'LCASE('], None),
    'toupper': (['UPPER(', 'UCASE('], None),
    'trim': (['TRIM('], None),
    'length': (['LENGTH(', 'LEN('], None),
    'year': (['YEAR', "'%Y'"], None),
    'month': (['MONTH', "'%m'"], None),
    'day': (['DAY', "'%d'"], None),
    'hour': (['HOUR', "'%H'"], None),
    'minute': (['MINUTE', "'%M'"], None),
    'second': (['SECOND', "'%S'"], None),
    'substring': (['SUBSTR'], 'order'),
    'concat': (['||', 'CONCAT('], 'order'),
}
REFUSE = ('pyslet.odata2.core.EvaluationError',
          'builtins.NotImplementedError')
MAXARGS = 4


class Sites(Hooks):

    """Calls of sql_expression are kept as holes of the text"""

    def __init__(self, repo, cls):
        self.repo = repo
        self.cls = cls

    def inline(self, ev, f, recv, args, kw):
        if f.module.name == 'pyslet.py2' or f.qual not in baseline():
            return True
        return f.name.startswith('sql_') or f.module.name == \
            'pyslet.odata2.core'

    def call(self, ev, name, fn, recv, args, kw, node, fr):
        if name == 'sql_expression' and isinstance(recv, Obj) and \
                recv.cls is self.cls:
            a = dict(zip(('expression', 'params', 'context'), args))
            a.update(kw)
            e = a.get('expression')
            if isinstance(e, Obj) and e.cls.name == 'CallExpression':
                # an expression made by the generator itself
                m = e.attrs.get('method')
                if isinstance(m, Enum) and isinstance(
                        e.attrs.get('operands'), PList):
                    ev.event('internal', m.name,
                             len(e.attrs['operands'].items))
                    return Sym('made', m.name, tuple(
                        self.mark(x) for x in e.attrs['operands'].items),
                        a.get('context', 'AND'))
            return Sym('hole', self.mark(e), a.get('context', 'AND'))
        if name == 'from_type' or name == 'set_from_value':
            if name == 'set_from_value' and isinstance(recv, Sym):
                ev.facts[('heap', recv, 'value')] = args[0]
            return ev.opaque(name, recv if not isinstance(recv, Obj)
                             else None, [], {})
        if name == 'escape_literal':
            return args[0] if args and isinstance(args[0], str) else \
                ev.opaque(name, None, args, {})
        if isinstance(fn, Func) and fn.module.name == 'pyslet.py2' and \
                fn.name == 'to_text':
            return args[0]
        return NotImplemented

    def mark(self, e):
        if isinstance(e, Sym):
            return e
        if isinstance(e, Obj):
            m = e.attrs.get('method')
            if isinstance(m, Enum) and isinstance(
                    e.attrs.get('operands'), PList):
                return Sym('made', m.name, tuple(
                    self.mark(x) for x in e.attrs['operands'].items), ',')
            v = e.attrs.get('value')
            return Sym('made-' + e.cls.name, v if not isinstance(v, Obj)
                       else None)
        return e


def op_sym(n):
    return Sym('operand', n)


def call_obj(repo, ev, cls, method, n):
    o = Obj(cls)
    o.attrs['operator'] = Enum(CORE + 'Operator', 'methodCall')
    o.attrs['method'] = method
    o.attrs['operands'] = PList([op_sym(i) for i in range(n)])
    o.attrs['parent'] = None
    return o


def binary_obj(repo, ev, cls, op, n=2):
    o = Obj(cls)
    o.attrs['operator'] = op
    o.attrs['operands'] = PList([op_sym(i) for i in range(n)])
    o.attrs['parent'] = None
    return o


class C25(object):

    def __init__(self, repo, rep):
        self.repo = repo
        self.rep = rep
        self.ev = PEval(repo)
        self.oper = repo.cls(CORE + 'Operator')
        self.meth = repo.cls(CORE + 'Method')
        self.ops = self.ev.enum_names(self.oper)
        self.methods = self.ev.enum_names(self.meth)
        if not self.ops or not self.methods:
            raise AnalysisError("cannot read the operator enumerations")

    def opv(self, n):
        return Enum(self.oper.qual, n)

    def mv(self, n):
        return Enum(self.meth.qual, n)

    def table(self, c, name):
        """a class level table as (class it is found on, PDict)"""
        v = self.ev.class_attr(c, name, None)
        if v is None or not isinstance(v[0], PDict):
            raise AnalysisError("cannot read the table %s.%s" % (
                c.short, name))
        return v[0]

    # ---- the category table ---------------------------------------
    def category(self):
        t = self.table(self.oper, 'Category')
        cat = self.repo.cls(CORE + 'OperatorCategory')
        d = cat.attrs['decode'][-1]
        val = {k.value: v.value for k, v in zip(d.keys, d.values)}
        where = self.where(self.oper, 'Category')
        level = {}
        for o in self.ops:
            n = [v for k, v in t.items if same(k, self.opv(o))]
            ok = len(n) == 1 and isinstance(n[0], Enum)
            self.rep.check(ok, 'category', o,
                           "operator %s has %s entry in Operator.Category"
                           % (o, 'no' if not n else 'more than one'
                              if len(n) > 1 else 'no usable'), where)
            if ok:
                level[o] = val[n[0].name]
        self.level = level
        for a in self.ops:
            for b in self.ops:
                if a < b and a in level and b in level and \
                        a in LEVEL and b in LEVEL:
                    x = (level[a] > level[b]) - (level[a] < level[b])
                    y = (LEVEL[a] > LEVEL[b]) - (LEVEL[a] < LEVEL[b])
                    self.rep.check(
                        x == y, 'precedence', a + '/' + b,
                        "operators %s and %s are not in the order of "
                        "precedence of the OData expression language" % (
                            a, b), where)

    def where(self, c, attr):
        x = self.ev.assigned.get((c.qual, attr))
        if x:
            return "%s:%s" % (x[1].rel, x[0].lineno)
        for k in self.repo.mro(c):
            if isinstance(k, Class):
                if (k.qual, attr) in self.ev.assigned:
                    x = self.ev.assigned[(k.qual, attr)]
                    return "%s:%s" % (x[1].rel, x[0].lineno)
                if attr in k.attrs and isinstance(k.attrs[attr][-1],
                                                  ast.AST):
                    return "%s:%s" % (k.module.rel,
                                      k.attrs[attr][-1].lineno)
        return "%s:%s" % (c.module.rel, c.node.lineno)

    # ---- what the parser makes ------------------------------------
    def produced(self):
        """(unary operators, binary operators) that the parser builds"""
        special = self.ev.class_attr(self.oper, 'IsSpecial', None)[0]
        if not isinstance(special, PList):
            raise AnalysisError("cannot read Operator.IsSpecial")
        sp = {x.name for x in special.items if isinstance(x, Enum)}
        un, bi = set(), set(o for o in self.ops if o not in sp)
        p = self.repo.cls(CORE + 'Parser')
        for f in p.methods.values():
            for n in ast.walk(f.node):
                if isinstance(n, ast.Call):
                    r = self.repo.resolve_expr(n.func, f.module)
                    a = [x for x in n.args]
                    if isinstance(r, Class) and r.name in (
                            'UnaryExpression', 'BinaryExpression') and a:
                        v = self.enum_of(a[0], f.module)
                        if v:
                            (un if r.name[0] == 'U' else bi).add(v)
                    elif isinstance(n.func, ast.Attribute) and \
                            n.func.attr == 'parse_castlike' and a:
                        v = self.enum_of(a[0], f.module)
                        if v:
                            bi.add(v)
        self.special = sp
        return un, bi

    def enum_of(self, e, module):
        if isinstance(e, ast.Attribute):
            c = self.repo.resolve_expr(e.value, module)
            if isinstance(c, Class):
                m = self.ev.enum_member(c, e.attr)
                if m is not None:
                    return m.name
        return None

    # ---- the evaluator --------------------------------------------
    def evaluator(self):
        un, bi = self.produced()
        uc = self.repo.cls(CORE + 'UnaryExpression')
        bc = self.repo.cls(CORE + 'BinaryExpression')
        cc = self.repo.cls(CORE + 'CallExpression')
        for c, names, mk in (
                (uc, sorted(un), self.opv),
                (bc, sorted(bi), self.opv),
                (cc, self.methods, self.mv)):
            t = self.table(c, 'EvalMethod')
            where = self.where(c, 'EvalMethod')
            used = {}
            for o in names:
                fs = [v for k, v in t.items if same(k, mk(o))]
                if c is bc and o == 'member':
                    self.rep.check(
                        self.member_special(bc), 'evaluator', o,
                        "BinaryExpression.evaluate does not treat the "
                        "member operator separately", where)
                    continue
                ok = len(fs) == 1 and isinstance(fs[0], Func)
                self.rep.check(
                    ok, 'evaluator', '%s.%s' % (c.name, o),
                    "%s has %s for %s" % (
                        c.short + '.EvalMethod', 'no entry' if not fs
                        else 'more than one entry' if len(fs) > 1 else
                        'an entry that is not a method of the class', o),
                    where)
                if not ok:
                    continue
                f = fs[0]
                self.rep.check(
                    f.qual not in used, 'own', 'eval:%s.%s' % (c.name, o),
                    "%s and %s have the same evaluation method %s" % (
                        used.get(f.qual), o, f.short), where)
                used[f.qual] = o
                if c is cc:
                    self.eval_arity(cc, f, o)

    def member_special(self, bc):
        f = bc.methods.get('evaluate')
        if f is None:
            return False

        class H(Hooks):
            def inline(s, ev, g, recv, args, kw):
                return False
        ev = PEval(self.repo, H())
        ps = ev.run(f, [Sym('param', 'context')],
                    recv=lambda e: binary_obj(self.repo, e, bc,
                                              self.opv('member')))
        return all(p.kind == 'return' for p in ps)

    def eval_arity(self, cc, f, o):
        """argument counts accepted by an evaluation method"""
        class H(Hooks):
            def inline(s, ev, g, recv, args, kw):
                return g.module.name == f.module.name and \
                    g.name not in ('promote_param', 'check_strict_param')
        for n in range(MAXARGS + 1):
            ev = PEval(self.repo, H())
            ps = ev.run(f, lambda e: [PList([op_sym(i) for i in range(n)])],
                        recv=lambda e: call_obj(self.repo, e, cc,
                                                self.mv(o), n))
            self.arity_verdict('eval', o, n, ps, f.where, f.short)

    def arity_verdict(self, side, o, n, ps, where, name):
        want = ARITY.get(o)
        kinds = set()
        for p in ps:
            if p.kind == 'return':
                kinds.add('accept')
            elif p.kind == 'raise' and any(
                    self.is_a(p.value, r) for r in REFUSE):
                kinds.add('refuse')
            elif p.kind == 'raise':
                kinds.add('fail:' + p.value)
        inst = '%s:%s/%i' % (side, o, n)
        if want is None:
            # a new function: both sides have to agree
            self.counts.setdefault(o, {}).setdefault(side, {})[n] = \
                'accept' in kinds
            return
        bad = [k for k in kinds if k.startswith('fail')]
        if n in want:
            # may still be refused for the type of the operands or as
            # not implemented
            ok = not bad and ('accept' in kinds or kinds == {'refuse'})
            if side == 'eval':
                ok = ok and 'accept' in kinds
            self.rep.check(
                ok, 'arity', inst,
                "%s %s %i argument(s) to %s()" % (
                    name, 'fails with %s for' % bad[0][5:] if bad else
                    'refuses', n, o), where)
        else:
            ok = kinds == {'refuse'}
            self.rep.check(
                ok, 'arity', inst,
                "%s %s %i argument(s) to %s()" % (
                    name, 'fails with %s for' % bad[0][5:] if bad else
                    'accepts', n, o), where)

    def is_a(self, name, base):
        if name == base:
            return True
        c = self.repo.classes.get(name)
        return c is not None and self.repo.is_subclass(c, base)

    # ---- the SQL generator ----------------------------------------
    def sql_classes(self):
        base = self.repo.cls(SQL)
        out = []
        for c in [base] + sorted(self.repo.subclasses.get(base.qual, ()),
                                 key=lambda c: c.qual):
            if not isinstance(c, Class):
                continue
            # only classes with generators of their own
            if c is base or any(m.startswith('sql_') for m in c.methods):
                out.append(c)
        return out

    def sql(self):
        self.counts = getattr(self, 'counts', {})
        un, bi = self.produced()
        cc = self.repo.cls(CORE + 'CallExpression')
        bc = self.repo.cls(CORE + 'BinaryExpression')
        uc = self.repo.cls(CORE + 'UnaryExpression')
        for c in self.sql_classes():
            disp = self.repo.find_method(c, 'sql_expression')
            if disp is None:
                raise AnalysisError("no sql_expression in %s" % c.short)
            texts = {}
            for o in self.methods:
                for n in range(MAXARGS + 1):
                    ps = self.dispatch(c, disp, lambda e, o=o, n=n:
                                       call_obj(self.repo, e, cc,
                                                self.mv(o), n))
                    self.arity_verdict('sql:' + c.name, o, n, ps,
                                       self.sql_where(c, ps, disp),
                                       c.short)
                    if n in ARITY.get(o, ()):
                        self.function_text(c, o, n, ps, disp, texts)
            self.distinct(c, texts, disp)
            texts = {}
            for o in sorted(bi):
                ps = self.dispatch(c, disp, lambda e, o=o: binary_obj(
                    self.repo, e, bc, self.opv(o)))
                self.operator_text(c, o, ps, disp, texts)
            self.distinct(c, texts, disp)
            for o in sorted(un):
                ps = self.dispatch(c, disp, lambda e, o=o: binary_obj(
                    self.repo, e, uc, self.opv(o), 1))
                self.operator_text(c, o, ps, disp, {})
            # every other class of expression
            ce = self.repo.cls(CORE + 'CommonExpression')
            for k in sorted(self.repo.subclasses.get(ce.qual, ()),
                            key=lambda k: k.qual):
                if k in (cc, bc, uc, ce):
                    continue
                ps = self.dispatch(c, disp, lambda e, k=k: Obj(k, {
                    'operator': None, 'operands': PList([]),
                    'value': Sym('value'), 'name': Sym('name')}))
                bad = [p for p in ps if p.kind == 'return' and
                       p.value is None]
                self.rep.check(
                    not bad, 'total', '%s:%s' % (c.name, k.name),
                    "%s.sql_expression returns None for some %s instead "
                    "of a SQL text or an error" % (c.short, k.name),
                    disp.where)

    def dispatch(self, c, disp, mk):
        ev = PEval(self.repo, Sites(self.repo, c))
        try:
            return ev.run(disp, lambda e: [mk(e), Sym('param', 'params'),
                                           ','],
                          recv=lambda e: Obj(c))
        except (Unsupported, TooMany) as e:
            raise AnalysisError("%s: %r" % (disp.qual, e))

    def sql_where(self, c, ps, disp):
        for p in ps:
            if p.kind == 'raise' and p.node is not None:
                return "%s:%s" % (disp.module.rel, p.node.lineno)
        return disp.where

    def holes(self, v):
        out = []
        for p in (v.parts if isinstance(v, Str) else (v,)):
            if isinstance(p, Sym) and p.op in ('hole', 'made'):
                out.append(p)
        return out

    def function_text(self, c, o, n, ps, disp, texts):
        for p in ps:
            for e in p.events:
                if e[0] == 'internal':
                    self.rep.check(
                        e[2] in ARITY.get(e[1], {e[2]}), 'internal',
                        '%s:%s' % (c.name, o),
                        "the SQL for %s() uses %s() with %i arguments" % (
                            o, e[1], e[2]), disp.where)
            if p.kind != 'return':
                continue
            inst = '%s:%s/%i' % (c.name, o, n)
            v = p.value
            const = ''.join(x for x in (v.parts if isinstance(v, Str)
                                        else (v,)) if isinstance(x, str))
            hs = self.holes(v)
            used = []
            for h in hs:
                if h.op == 'hole':
                    used.append(h.args[0])
                else:
                    used += [x for x in flat(h.args[1])]
            ops = [u.args[0] for u in used if isinstance(u, Sym) and
                   u.op == 'operand']
            self.rep.check(
                sorted(ops) == list(range(n)), 'operands', inst,
                "%s: the SQL for %s() with %i argument(s) uses argument(s) "
                "%s" % (c.short, o, n, ', '.join(
                    str(x + 1) for x in ops) or 'none'), disp.where)
            words, order = SQLWORDS.get(o, (None, None))
            if words:
                self.rep.check(
                    any(w in (const if w.startswith("'%") else
                              const.upper()) for w in words),
                    'words', inst,
                    "%s: the SQL for %s() is %s" % (c.short, o, v),
                    disp.where)
            if order:
                self.rep.check(
                    ops == sorted(ops), 'operands', inst + ':order',
                    "%s: the SQL for %s() has its arguments in the order "
                    "%s" % (c.short, o, ops), disp.where)
            if o in ('startswith', 'endswith', 'substringof'):
                self.like(c, o, v, inst, disp)
            texts.setdefault(o, set()).add(template(v))

    def like(self, c, o, v, inst, disp):
        """X LIKE pattern: the pattern has to be open on the right side"""
        shape = []
        parts = v.parts if isinstance(v, Str) else (v,)
        for p in parts:
            if isinstance(p, str):
                if 'LIKE' in p:
                    shape.append('LIKE')
            elif p.op == 'made':
                shape += [('%' if not (isinstance(x, Sym) and
                                       x.op == 'operand') else x.args[0])
                          for x in flat(p.args[1])]
            elif p.op == 'hole':
                x = p.args[0]
                shape.append(x.args[0] if isinstance(x, Sym) and
                             x.op == 'operand' else '%')
        if 'LIKE' not in shape:
            return
        want = {'startswith': [0, 'LIKE', 1, '%'],
                'endswith': [0, 'LIKE', '%', 1],
                'substringof': [1, 'LIKE', '%', 0, '%']}[o]
        self.rep.check(
            shape == want, 'words', inst + ':pattern',
            "%s: the SQL for %s() matches %s" % (
                c.short, o, ' '.join(map(str, shape))), disp.where)

    def operator_text(self, c, o, ps, disp, texts):
        inst = '%s:%s' % (c.name, o)
        where = self.sql_where(c, ps, disp)
        bad = [p for p in ps if p.kind == 'raise' and not any(
            self.is_a(p.value, r) for r in REFUSE)]
        if o == 'member':
            bad = [p for p in bad if p.value == 'builtins.KeyError' and
                   p.eargs and isinstance(p.eargs[0], Enum)]
        self.rep.check(
            not bad, 'sql', inst,
            "%s fails with %s for the operator %s" % (
                c.short, bad[0].value if bad else '', o), where)
        none = [p for p in ps if p.kind == 'return' and p.value is None]
        self.rep.check(not none, 'total', inst,
                       "%s.sql_expression returns None for the operator "
                       "%s" % (c.short, o), where)
        if o == 'member':
            return
        for p in ps:
            if p.kind != 'return' or o not in SQLOP:
                continue
            v = p.value
            const = ''.join(x for x in (v.parts if isinstance(v, Str)
                                        else (v,)) if isinstance(x, str))
            ops = [h.args[0].args[0] for h in self.holes(v)
                   if isinstance(h.args[0], Sym) and
                   h.args[0].op == 'operand']
            self.rep.check(
                const.strip().strip('()').strip().upper() == SQLOP[o] and
                ops == [0, 1], 'operator', inst,
                "%s: the SQL for the operator %s is %s" % (c.short, o, v),
                disp.where)
            texts.setdefault(o, set()).add(template(v))

    def distinct(self, c, texts, disp):
        seen = {}
        for o in sorted(texts):
            for t in texts[o]:
                a = seen.get(t)
                self.rep.check(
                    a is None or a == o, 'own', 'sql:%s.%s' % (c.name, o),
                    "%s: %s and %s give the same SQL %s" % (
                        c.short, a, o, t), disp.where)
                seen[t] = o

    # ---- grouping: SQL --------------------------------------------
    def sql_grouping(self):
        """For each pair of operators, is an operand bracketed?"""
        base = self.repo.cls(SQL)
        bc = self.repo.cls(CORE + 'BinaryExpression')
        cc = self.repo.cls(CORE + 'CallExpression')
        for c in self.sql_classes():
            disp = self.repo.find_method(c, 'sql_expression')
            forms = {}
            kids = [('op', o) for o in SQLOP] + [
                ('fn', o) for o in ('startswith', 'endswith',
                                    'substringof')]
            for kind, o in kids:
                if kind == 'op':
                    ps = self.dispatch(
                        c, disp, lambda e, o=o: binary_obj(
                            self.repo, e, bc, self.opv(o)))
                    for p in ps:
                        if p.kind == 'return' and isinstance(p.value, Str):
                            hs = self.holes(p.value)
                            if len(hs) == 2:
                                forms[o] = [h.args[1] for h in hs]
            for o, ctxs in sorted(forms.items()):
                for side, ctx in enumerate(ctxs):
                    for kind, k in kids:
                        ps = self.with_context(c, disp, kind, k, ctx, bc,
                                               cc)
                        P = SQLOP[o]
                        K = SQLOP[k] if kind == 'op' else 'LIKE'
                        need = SQLLEVEL[K] < SQLLEVEL[P] or (
                            side == 1 and SQLLEVEL[K] == SQLLEVEL[P] and
                            not (K == P and P in ASSOC))
                        if not need:
                            continue
                        inst = '%s:%s[%i]:%s' % (c.name, o, side, k)
                        bad = [p for p in ps if p.kind == 'return' and
                               not bracketed(p.value)]
                        fail = [p for p in ps if p.kind == 'raise' and
                                not any(self.is_a(p.value, r)
                                        for r in REFUSE)]
                        self.rep.check(
                            not bad and not fail, 'sql-group', inst,
                            "%s: the %s operand of %s is written without "
                            "brackets when it is %s: %s" % (
                                c.short, ('left', 'right')[side], P, K,
                                bad[0].value if bad else
                                fail[0].value if fail else ''),
                            disp.where)

    def with_context(self, c, disp, kind, k, ctx, bc, cc):
        key = (c.qual, kind, k, ctx)
        if key not in self.ctx_cache:
            ev = PEval(self.repo, Sites(self.repo, c))
            if kind == 'op':
                mk = lambda e: binary_obj(self.repo, e, bc, self.opv(k))
            else:
                mk = lambda e: call_obj(self.repo, e, cc, self.mv(k), 2)
            self.ctx_cache[key] = ev.run(
                disp, lambda e: [mk(e), Sym('param', 'params'), ctx],
                recv=lambda e: Obj(c))
        return self.ctx_cache[key]

    # ---- grouping: URL --------------------------------------------
    def url_grouping(self):
        un, bi = self.produced()
        uc = self.repo.cls(CORE + 'UnaryExpression')
        bc = self.repo.cls(CORE + 'BinaryExpression')
        cc = self.repo.cls(CORE + 'CallExpression')
        classes = {}
        for o in sorted(bi):
            classes[o] = bc
        for o in sorted(un):
            classes[o] = uc
        level = self.level
        repo = self.repo

        class H(Hooks):

            def inline(s, ev, f, recv, args, kw):
                return f.module.name in ('pyslet.odata2.core',
                                         'pyslet.py2')

            def call(s, ev, name, fn, recv, args, kw, node, fr):
                if name in ('to_text', 'str') and len(args) == 1 and \
                        isinstance(args[0], Obj):
                    return Sym('text', args[0].attrs.get('label'))
                if name == 'to_text':
                    return args[0]
                if name == 'to_str' and isinstance(recv, Class) or \
                        name == 'to_str' and args and isinstance(
                            args[-1], Enum):
                    return args[-1].name if isinstance(
                        args[-1], Enum) else NotImplemented
                return NotImplemented

            def compare(s, ev, op, a, b, fr):
                n = type(op).__name__
                if isinstance(a, Obj) and isinstance(b, Obj) and n in (
                        'Lt', 'LtE', 'Gt', 'GtE', 'Eq', 'NotEq'):
                    m = {'Lt': '__lt__', 'LtE': '__le__', 'Gt': '__gt__',
                         'GtE': '__ge__', 'Eq': '__eq__',
                         'NotEq': '__ne__'}[n]
                    f = repo.find_method(a.cls, m)
                    if f is None:
                        return NotImplemented
                    return ev.invoke(f, a, [b], {}, None, fr)
                if isinstance(a, Enum) and isinstance(b, Enum) and \
                        a.cls == b.cls == CORE + 'OperatorCategory' and \
                        n in ('Lt', 'LtE', 'Gt', 'GtE'):
                    c = repo.classes[a.cls]
                    d = c.attrs['decode'][-1]
                    val = {k.value: v.value
                           for k, v in zip(d.keys, d.values)}
                    x, y = val[a.name], val[b.name]
                    return {'Lt': x < y, 'LtE': x <= y, 'Gt': x > y,
                            'GtE': x >= y}[n]
                return NotImplemented

        H.max_depth = 8
        fmts = {}
        for c in (uc, bc):
            f = self.repo.find_method(c, '__unicode__')
            if f is None:
                raise AnalysisError("%s has no __unicode__" % c.short)
            fmts[c] = f
        for o, c in sorted(classes.items()):
            n = 1 if c is uc else 2
            counts = [n]
            if o in ('cast', 'isof'):
                counts = [1, 2]
            for k in sorted(set(classes) | {None, 'methodCall'},
                            key=lambda x: x or ''):
                for cnt in counts:
                    for side in range(cnt):
                        self.url_pair(H, fmts[c], c, o, k, cnt, side,
                                      classes, cc, bc)

    def url_pair(self, H, f, c, o, k, cnt, side, classes, cc, bc):
        repo = self.repo

        def kid(label, op):
            kc = classes.get(op) or (cc if op == 'methodCall' else
                                     repo.cls(CORE + 'LiteralExpression'))
            x = Obj(kc)
            x.attrs['operator'] = self.opv(op) if op else None
            x.attrs['operands'] = PList([])
            x.attrs['label'] = label
            return x

        def recv(e):
            x = Obj(c)
            x.attrs['operator'] = self.opv(o)
            x.attrs['operands'] = PList([
                kid(i, k if i == side else None) for i in range(cnt)])
            return x
        ev = PEval(self.repo, H())
        ps = ev.run(f, [], recv=recv)
        inst = '%s[%i/%i]:%s' % (o, side, cnt, k)
        bad = [p for p in ps if p.kind != 'return']
        self.rep.check(
            not bad, 'format', inst,
            "%s fails with %s for the operator %s with %i operand(s)" % (
                f.short, bad[0].value if bad else '', o, cnt), f.where)
        functional = o in ('cast', 'isof')
        if k is None or k == 'methodCall' or functional or bad:
            return
        a, b = self.level.get(o), self.level.get(k)
        if a is None or b is None:
            return
        need = b < a or (side == 1 and b == a)
        if k in ('cast', 'isof'):
            need = False       # written as a function
        if c.name == 'UnaryExpression':
            need = b < a and k not in ('cast', 'isof')
        if not need:
            return
        ok = all(wrapped(p.value, side) for p in ps)
        self.rep.check(
            ok, 'url-group', inst,
            "%s: the %s operand of %s is written without brackets when it "
            "is %s: %s" % (f.short, ('left', 'right')[side]
                           if c.name[0] == 'B' else 'only', o, k,
                           ps[0].value), f.where)

    # ---- grouping: parser -----------------------------------------
    def parser(self):
        """The expression parser itself, over short token strings"""
        from . import c25parse
        c25parse.check(self)

    def run(self):
        self.counts = {}
        self.ctx_cache = {}
        self.rep.part(self.category)
        self.rep.part(self.evaluator)
        self.rep.part(self.sql)
        self.rep.part(self.sql_grouping)
        self.rep.part(self.url_grouping)
        self.rep.part(self.parser)
        for o, sides in sorted(self.counts.items()):
            ev = sides.get('eval')
            for s, d in sorted(sides.items()):
                self.rep.check(
                    s == 'eval' or all(
                        not d[n] or (ev and ev[n]) for n in d),
                    'arity', '%s:%s' % (s, o),
                    "%s() accepts numbers of arguments in %s that it does "
                    "not accept in the evaluator" % (o, s))


def flat(items):
    out = []
    for x in items:
        if isinstance(x, Sym) and x.op == 'made':
            out += flat(x.args[1])
        else:
            out.append(x)
    return out


def template(v):
    if isinstance(v, Str):
        return ''.join(p if isinstance(p, str) else
                       '{%s}' % (hole_name(p),) for p in v.parts).upper() \
            if "'%" not in repr(v) else ''.join(
                p if isinstance(p, str) else '{%s}' % (hole_name(p),)
                for p in v.parts)
    return '{%s}' % (hole_name(v),)


def hole_name(p):
    if isinstance(p, Sym) and p.op == 'hole':
        return p.args[0]
    if isinstance(p, Sym) and p.op == 'made':
        return '%s%s' % (p.args[0], list(p.args[1]))
    return p


def bracketed(v):
    """The text starts with a bracket that ends at its end"""
    if not isinstance(v, Str):
        return False
    s = ''.join(p if isinstance(p, str) else '#' for p in v.parts)
    return outer_brackets(s)


def outer_brackets(s):
    s = s.strip()
    if not (s.startswith('(') and s.endswith(')')):
        return False
    d = 0
    for n, ch in enumerate(s):
        d += (ch == '(') - (ch == ')')
        if d == 0 and n < len(s) - 1:
            return False
    return True


def wrapped(v, side):
    if not isinstance(v, Str):
        return False
    for n, p in enumerate(v.parts):
        if isinstance(p, Sym) and p.op == 'text' and p.args[0] == side:
            a = v.parts[n - 1] if n else ''
            b = v.parts[n + 1] if n + 1 < len(v.parts) else ''
            return isinstance(a, str) and a.endswith('(') and \
                isinstance(b, str) and b.startswith(')')
    return False


def run(repo, rep):
    rep.rule('category', "every operator has exactly one precedence "
             "category", 10)
    rep.rule('precedence', "each pair of operators is ordered as in the "
             "OData expression language", 50)
    rep.rule('evaluator', "every operator and function that the parser "
             "can produce has one evaluation method", 20)
    rep.rule('own', "no two operators or functions share an evaluation "
             "method or give the same SQL", 20)
    rep.rule('arity', "a call with the wrong number of arguments is "
             "refused, and one with the right number is accepted (or "
             "refused as not implemented), in the evaluator and in each "
             "SQL generator", 100)
    rep.rule('sql', "every operator is turned into SQL or refused as not "
             "implemented", 10)
    rep.rule('total', "the SQL generator returns a text or raises for "
             "every class of expression", 4)
    rep.rule('operator', "the SQL operator is the one with the meaning of "
             "the OData operator, with the operands in order", 10)
    rep.rule('operands', "the SQL of a function uses each argument "
             "once, in order", 10)
    rep.rule('words', "the SQL function has the meaning of the OData "
             "function", 10)
    rep.rule('internal', "expressions built by the generator have the "
             "right number of arguments", 1)
    rep.rule('sql-group', "an operand that binds less tightly (or as "
             "tightly, on the right) is bracketed in SQL", 50)
    rep.rule('format', "every operator can be formatted as a URL, also "
             "with an omitted operand", 50)
    rep.rule('url-group', "an operand that binds less tightly (or as "
             "tightly, on the right) is bracketed in URLs", 50)
    C25(repo, rep).run()
