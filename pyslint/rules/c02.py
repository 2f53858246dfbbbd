"""C02: SQL transactions are committed whole or rolled back whole"""

import ast
import re

from .. import lockset, rulebase
from ..interp import NONE, T, is_const
from ..repo import Class, Func, walk_own

MOD = 'pyslet.odata2.sqlds'
TX = MOD + '.SQLTransaction'
WRITE = re.compile(r'\b(INSERT|UPDATE|DELETE|CREATE|DROP|ALTER|REPLACE)\b')
# operations that start a transaction of their own
OWN = {'insert_entity', 'update_entity', 'new_stream', 'update_stream',
       'create_table', 'drop_table'}


class Tx(object):

    """State of one transaction on a path"""


def params_index(f):
    """Positions (without self) of the transaction parameter"""
    ps = f.params()
    if f.bound:
        ps = ps[1:]
    return ps.index('transaction') if 'transaction' in ps else None


class TxCheck(rulebase.RuleCheck):

    implicit = True

    def __init__(self, rep, repo):
        rulebase.RuleCheck.__init__(self, rep)
        self.repo = repo
        self.tx = repo.cls(TX[7:])
        self.ops = {}
        for f in repo.funcs.values():
            if f.module.name == MOD and not isinstance(f.node, ast.Lambda):
                n = params_index(f)
                if n is not None:
                    self.ops.setdefault(f.name, set()).add(n)
        self.wr = {}

    # ---- helpers --------------------------------------------------------
    def writes(self, f, stack=()):
        """Does f, or a helper added to it, hold a changing statement"""
        if f in self.wr:
            return self.wr[f]
        r = False
        for n in walk_own(f.node):
            if isinstance(n, ast.Constant) and isinstance(
                    n.value, str) and len(n.value) < 40 and \
                    WRITE.search(n.value):
                r = True
            if isinstance(n, ast.Call):
                fn = n.func
                nm = fn.attr if isinstance(fn, ast.Attribute) else getattr(
                    fn, 'id', None)
                if nm in self.ops:
                    r = True
                for g in self.repo.method_index.get(nm, ()):
                    if g not in stack and self.is_new(g) and \
                            g.module is f.module and \
                            self.writes(g, stack + (f,)):
                        r = True
        self.wr[f] = r
        return r

    def istx(self, it, st, t, fr):
        if t.op == 'new':
            return t.args[0] is self.tx
        if t.op == 'param' and t.args[0] == 'transaction':
            return True
        if t.op == 'phi' and 'transaction' in str(t.args[1]):
            return True
        return False

    def get(self, st, t):
        for x in st.auto or ():
            if x[0] is t:
                return x
        return (t, 0, False, '')

    def put(self, st, e):
        return st.with_auto(frozenset(
            x for x in (st.auto or ()) if x[0] is not e[0]) | {e})

    def start(self, it, st, func):
        self.func = func
        return st.with_auto(frozenset())

    def may_raise(self, it, ci):
        if ci.name in ('SQLTransaction', 'close', 'info', 'error', 'debug',
                       'key', 'get_location', 'warning', 'exception'):
            return False
        if ci.recv is not None and ci.name == 'commit' and ci.recv.op in (
                'new', 'param'):
            return True
        return rulebase.RuleCheck.may_raise(self, it, ci)

    # ---- events ------------------------------------------------------------
    def call(self, it, st, ci):
        f = self.func.short
        if ci.recv is not None and self.istx(it, st, ci.recv, ci.fr) and \
                st.facts.get(T('cmp', 'is', ci.recv, NONE)) is not True:
            return self.txcall(it, st, ci, self.get(st, ci.recv))
        if ci.name in self.ops and self.sqlcall(it, ci):
            return self.opcall(it, st, ci)
        if ci.name in OWN and ci.recv is not None and self.sqlcall(it, ci):
            self.alone(st, ci)
            st = self.put(st, ('own', 1, True, ci.name))
        if ci.recv is not None and ci.recv.op == 'attr' and \
                ci.recv.args[1] == 'cursor' and ci.name.startswith(
                    'execute'):
            self.note('through', "%s:%s" % (f, ci.name), False,
                      "a statement is executed directly on a cursor",
                      ci.where)
        if ci.recv is not None and ci.recv.op == 'attr' and \
                ci.recv.args[1] == 'dbc' and ci.name in (
                    'commit', 'rollback', 'cursor', 'execute'):
            self.note('through', "%s:%s" % (f, ci.name), False,
                      "the database connection is used directly", ci.where)
        return None

    def sqlcall(self, it, ci):
        """Not a call of the super class or of the stream store"""
        r = ci.recv
        while r is not None and r.op in ('attr', 'call'):
            if r.op == 'attr':
                if r.args[1] == 'streamstore':
                    return False
                r = r.args[0]
            else:
                r = r.args[2]
        return True

    def open(self, st):
        return [x for x in st.auto or () if x[0] != 'own' and x[1] > 0 and
                x[3] == '']

    def alone(self, st, ci):
        f = self.func.short
        bad = self.open(st)
        self.note('inside', "%s:%s" % (f, ci.name), not bad,
                  "%s is called while a transaction is open but not as "
                  "part of it" % ci.name, ci.where)
        prev = [x for x in st.auto or () if x[0] == 'own' or x[1] > 0 or
                x[3]]
        if not bad and prev and f not in self.multi:
            self.note('single', f, False,
                      "%s starts a second transaction in the same "
                      "operation" % ci.name, ci.where)

    multi = ()

    def opcall(self, it, st, ci):
        f = self.func.short
        idx = self.ops[ci.name]
        if ci.targets and len(ci.targets) == 1 and isinstance(
                ci.target, Func):
            n = params_index(ci.target)
            if n is not None and ci.recv is not None and \
                    it.is_root_self(ci.recv, ci.fr):
                idx = {n}
        passed = ci.kw.get('transaction')
        if passed is None:
            for n in idx:
                if n < len(ci.args):
                    a = ci.args[n]
                    if self.istx(it, st, a, ci.fr) or passed is None and \
                            a is NONE:
                        passed = a
        mine = self.open(st)
        par = None
        if 'transaction' in self.func.params():
            par = T('param', 'transaction')
            if st.facts.get(T('cmp', 'is', par, NONE)) is True:
                par = None
        for x in mine:
            if x[0] is not passed:
                self.note('inside', "%s:%s" % (f, ci.name), False,
                          "%s is called inside a transaction without "
                          "passing it" % ci.name, ci.where)
                break
        else:
            if par is not None and passed is not par and not mine and \
                    self.get(st, par)[3] == '':
                self.note('inside', "%s:%s" % (f, ci.name), False,
                          "%s is called without the transaction this "
                          "method was given" % ci.name, ci.where)
            else:
                self.note('inside', "%s:%s" % (f, ci.name), True)
        if passed is not None and passed is not NONE:
            e = self.get(st, passed)
            self.note('commit-last', "%s" % f, e[3] == '',
                      "%s is called with a transaction that was already "
                      "ended" % ci.name, ci.where)
            if e[1]:
                st = self.put(st, (e[0], e[1], True, e[3]))
        elif ci.name not in ('get_auto', 'test_key', '_get_streamid'):
            prev = [x for x in st.auto or () if x[0] == 'own' or x[2]]
            if prev and f not in self.multi:
                self.note('single', f, False,
                          "%s starts a second transaction in the same "
                          "operation" % ci.name, ci.where)
            elif not mine:
                self.note('single', f, True)
                st = self.put(st, ('own', 1, True, ci.name))
        return it.opaque(st, ci)

    def txcall(self, it, st, ci, e):
        f = self.func.short
        t, depth, ex, end = e
        param = t.op == 'param'
        if ci.name == 'begin':
            self.note('closed', f, True)
            if depth == 0:
                prev = [x for x in st.auto or () if x[0] is not t and (
                    x[1] > 0 and x[2] or x[0] == 'own')]
                if prev and self.writes(self.func) and \
                        f not in self.multi:
                    self.note('single', f, False,
                              "begins a second transaction in the same "
                              "operation", ci.where)
            it.implicit_raise(self.put(st, (t, depth + 1, ex, '')), ci,
                              ci.fr)
            return [(self.put(st, (t, depth + 1, ex, '')), NONE)]
        if ci.name == 'execute':
            ok = (depth > 0 or param) and end == ''
            self.note('commit-last', f, ok,
                      "a statement is executed %s" % (
                          'before the transaction is begun' if end == ''
                          else 'after the %s' % end), ci.where)
            st = self.put(st, (t, depth, True, end))
            it.implicit_raise(st, ci, ci.fr)
            return [(st, NONE)]
        if ci.name == 'commit':
            self.note('commit-last', f, depth > 0 and end == '',
                      "commit without an open transaction (%s)" % (
                          end or 'not begun'), ci.where)
            it.implicit_raise(st, ci, ci.fr)
            st = self.put(st, (t, depth, ex, 'commit'))
            return [(st, NONE)]
        if ci.name == 'rollback':
            st = self.put(st, (t, depth, ex, 'rollback'))
            err = ci.arg(0, 'err')
            sw = ci.arg(1, 'swallow')
            if err is None or err is NONE or sw is not None and \
                    is_const(sw, True):
                return [(st, NONE)]
            it.raise_(st, err)
            if sw is not None and not is_const(sw, False):
                return [(st, NONE)]
            return []
        if ci.name == 'close':
            if depth < 1:
                self.note('closed', f, False, "the transaction is closed "
                          "more often than it was begun", ci.where)
            return [(self.put(st, (t, max(0, depth - 1), ex, end)), NONE)]
        return None

    def sub_del(self, it, st, base, idx, node, fr):
        b = base
        while b.op == 'ver':
            b = b.args[0]
        if b.op == 'call' and b.args[0] == 'open' or b.op == 'param':
            if self.open(st):
                self.note('inside', "%s:del" % self.func.short, False,
                          "an entity is deleted outside the open "
                          "transaction", rulebase.where_of(fr, node))
        return st

    def func_exit(self, it, st, func, kind, payload, fr):
        f = func.short
        for t, depth, ex, end in st.auto or ():
            if t == 'own':
                continue
            if depth:
                self.note('closed', f, False,
                          "%s without closing the transaction" % (
                              'returns' if kind == 'return' else
                              'can raise'), func.where)
            if kind == 'return':
                if ex and end == '' and (depth or t.op == 'new' or
                                         self.began(func)):
                    self.note('ended', f, False, "returns normally after "
                              "executing statements without a commit",
                              func.where)
                elif ex and end == 'rollback':
                    self.note('ended', f, False, "returns normally after "
                              "rolling back", func.where)
                elif ex:
                    self.note('ended', f, True)
            elif end == '' and self.writes(func) and self.began(func) and \
                    not self.noeffect(t, ex):
                self.note('rolled-back', f, False,
                          "an error can leave this function without the "
                          "transaction being rolled back", func.where)
            elif end == 'rollback':
                self.note('rolled-back', f, True)

    def noeffect(self, t, ex):
        return False

    def began(self, func):
        for n in walk_own(func.node):
            if isinstance(n, ast.Attribute) and n.attr == 'begin':
                return True
        for n in walk_own(func.node):
            if isinstance(n, ast.Call) and isinstance(
                    n.func, ast.Attribute):
                for g in self.repo.method_index.get(n.func.attr, ()):
                    if self.is_new(g) and g is not func and \
                            self.began(g):
                        return True
        return False


def uses(f, names):
    for n in walk_own(f.node):
        if isinstance(n, ast.Attribute) and n.attr in names or \
                isinstance(n, ast.Name) and n.id in names:
            return True
        if isinstance(n, ast.arg) and n.arg in names:
            return True
    return False


class SelfCheck(rulebase.RuleCheck):

    """The methods of SQLTransaction itself"""

    implicit = False

    def start(self, it, st, func):
        self.func = func
        return st.with_auto(frozenset())

    def call(self, it, st, ci):
        r = ci.recv
        if r is None:
            return None
        if r.op == 'attr' and r.args[1] == 'dbc' and ci.name in (
                'commit', 'rollback', 'cursor'):
            st = st.with_auto(st.auto | {'dbc.' + ci.name})
            it.implicit_raise(st, ci, ci.fr)
            return [(st, self.ref(it, ci))]
        if r.op == 'attr' and r.args[1] == 'cursor' and ci.name in (
                'execute', 'close'):
            it.implicit_raise(st, ci, ci.fr)
            return [(st.with_auto(st.auto | {'cursor.' + ci.name}),
                     self.ref(it, ci))]
        return None

    def ref(self, it, ci):
        return it.call_term(ci)

    def attr_store(self, it, st, base, attr, value, node, fr):
        v = None
        if value.op == 'bin' and value.args[2].op == 'const':
            v = value.args[0] + str(value.args[2].args[0])
        elif value.op == 'const':
            v = str(value.args[0])
        if attr in ('no_commit', 'query_count', 'cursor'):
            st = st.with_auto(st.auto | {"%s=%s" % (attr, v)})
        return st

    def nested(self, it, st):
        me = T('param', 'self')
        return it.truth(st, T('attr', me, 'no_commit'))

    def func_exit(self, it, st, func, kind, payload, fr):
        a = st.auto
        me = T('param', func.params()[0])
        n = it.truth(st, T('attr', me, 'no_commit'))
        if n is None:
            n = it.truth(st, T('cmp', '<', T('const', 0), T(
                'attr', me, 'no_commit')))
        cur = st.facts.get(T('cmp', 'is', T('attr', me, 'cursor'), NONE))
        nm = func.name
        ok, msg = True, ''
        if nm == 'commit' and kind == 'return':
            ok = ('dbc.commit' in a) == (n is not True) and n is not None
            msg = "a nested commit reaches the database or an outer " \
                "commit does not"
        elif nm == 'rollback':
            ok = ('dbc.rollback' in a) == (n is not True) and n is not None
            msg = "a nested rollback reaches the database or an outer " \
                "rollback does not"
            if ok:
                e = T('param', 'err')
                isnone = st.facts.get(T('cmp', 'is', e, NONE))
                sw = it.truth(st, T('param', 'swallow'))
                want = isnone is True or sw is True
                if kind == 'return' and not want:
                    ok = False
                    msg = "the error is neither absent nor to be " \
                        "swallowed but is not raised"
                elif kind == 'raise' and payload is not None and \
                        want:
                    ok = False
                    msg = "an error that is to be swallowed is raised"
        elif nm == 'begin' and kind == 'return':
            if cur is True:
                ok = 'dbc.cursor' in a and not any(
                    x.startswith('no_commit') for x in a)
            else:
                ok = 'no_commit=Add1' in a and 'dbc.cursor' not in a
            msg = "begin does not count nested transactions"
        elif nm == 'close' and kind == 'return':
            if n is True:
                ok = 'no_commit=Sub1' in a and 'cursor.close' not in a
            elif cur is True:
                ok = not a
            else:
                ok = 'cursor.close' in a and 'cursor=None' in a and \
                    'query_count=0' in a
            msg = "close does not undo begin"
        elif nm == 'execute' and kind == 'return':
            ok = 'cursor.execute' in a and 'query_count=Add1' in a
            msg = "execute does not count the statements it executes"
        self.note('nesting', nm, ok, msg, func.where)


class RetryCheck(rulebase.RuleCheck):

    """retry_decorator: nothing is retried once a statement succeeded"""

    def start(self, it, st, func):
        self.func = func
        self.calls = 0
        return st.with_auto(0)

    def call(self, it, st, ci):
        ft = ci.fterm
        if ft is not None and ft.op in ('free', 'param', 'unk') and \
                'tmethod' in str(ft.args):
            n = st.auto
            first = T('attr', T('param', 'self'), 'query_count')
            clean = it.truth(st, first) is False
            self.note('retry', 'call', n == 0 or clean,
                      "a method can be called again although statements "
                      "were already executed in this transaction", ci.where)
            st = st.with_auto(min(2, n + 1))
            return it.opaque(st, ci)
        return None


def run(repo, rep):
    rep.rule('closed', 'every transaction that is begun is closed exactly '
             'once on every path', 15)
    rep.rule('ended', 'a function that executed statements returns normally '
             'only after its commit', 12)
    rep.rule('rolled-back', 'an error leaves a changing function only after '
             'rollback was called', 10)
    rep.rule('commit-last', 'no statement is executed before begin or after '
             'commit', 15)
    rep.rule('inside', 'an operation called while a transaction is open is '
             'given that transaction', 12)
    rep.rule('single', 'one operation never uses two transactions', 4)
    rep.rule('through', 'statements reach the database only through '
             'SQLTransaction', 1)
    rep.rule('nesting', 'nested transactions count begin and close and only '
             'the outermost reaches the database', 5)
    rep.rule('retry', 'a failed method is retried only while no statement '
             'has been executed', 1)
    chk = TxCheck(rep, repo)
    names = set(chk.ops) | {'transaction', 'SQLTransaction', 'dbc',
                            'cursor'} | OWN
    names, helpers = lockset.close_names(repo, names)
    for f in repo.funcs.values():
        if f.module.name != MOD or isinstance(f.node, ast.Lambda) or \
                f.cls is chk.tx or f.outer is not None:
            continue
        if not uses(f, names) or f.short.endswith('retry_decorator'):
            continue
        if f in helpers:
            continue
        rulebase.run_func(repo, chk, f)
    rep.ok('through', 'all other functions')
    chk.flush()
    sc = SelfCheck(rep)
    for n in ('begin', 'execute', 'commit', 'rollback', 'close'):
        f = repo.func(TX[7:] + '.' + n)
        rulebase.run_func(repo, sc, f)
    sc.flush()
    rc = RetryCheck(rep)
    f = repo.func('odata2.sqlds.retry_decorator.retry')
    rulebase.run_func(repo, rc, f)
    rc.flush()
