"""C03: the SQL connection pool"""

from .. import lockset, rulebase
from ..interp import FALSE, NONE, T, TRUE, is_const
from ..repo import Class

CONT = 'pyslet.odata2.sqlds.SQLEntityContainer'
TABLES = ('cpool_locked', 'cpool_unlocked', 'cpool_idle')
P = 'odata2.sqlds.SQLEntityContainer.'


class X(tuple):

    """(balance, depth, module lock, reset)"""


class PoolSpec(lockset.Spec):

    modules = ('pyslet.odata2.sqlds',)
    fields = {'cpool_locked': 'rw', 'cpool_unlocked': 'rw',
              'cpool_idle': 'rw', 'cpool_size': 'rw'}
    lock_names = ('cpool_lock',)
    exempt = (P + '__init__',)
    # after close() no connection is ever handed out again
    closing = (P + 'close',)
    truthy = ('locked',)
    split_ok = {(P + 'acquire_connection', 'cpool_locked'):
                'a thread only adds an entry for itself'}

    def lock(self, it, t, fr):
        return t.op == 'attr' and t.args[1] == 'cpool_lock'

    def guarded(self, it, base, attr, fr):
        return True

    def static(self, repo, f, n):
        return True

    def enabling(self, it, st, kind, base, attr, value, node, fr):
        f = self.short(fr)
        if f in self.closing:
            return ()
        if attr == 'cpool_unlocked' and kind == 'sub_store':
            return ('notify',)
        if attr == 'cpool_idle' and kind in ('append', 'insert'):
            return ('notify',)
        if attr == 'cpool_size' and kind == 'store' and \
                delta(value) == -1:
            return ('notify',)
        return ()

    def short(self, fr):
        while fr.outer is not None:
            fr = fr.outer
        return fr.func.short

    def settles(self, it, st, ci):
        if ci.recv is not None and ci.name in self.notify_names and \
                self.lock(it, ci.recv, ci.fr):
            return ('notify',)
        return ()

    def extra0(self):
        return (0, 0, 0, frozenset())

    def extra(self, it, st, x, event, *args):
        bal, depth, mod, tab = x
        if event == 'sub_store' and args[1] in TABLES:
            bal += 1
            tab = tab | {('+', args[1])}
        elif event == 'sub_del' and args[1] in TABLES:
            bal -= 1
            tab = tab | {('-', args[1])}
        elif event in ('pop', 'popitem', 'remove', 'popleft') and \
                args[1] in TABLES:
            bal -= 1
            tab = tab | {('-', args[1])}
        elif event in ('append', 'insert', 'appendleft') and \
                args[1] in TABLES:
            bal += 1
            tab = tab | {('+', args[1])}
        elif event == 'store' and args[1] == 'cpool_size':
            d = delta(args[2])
            if d is None:
                tab = tab | {('?', 'cpool_size')}
            else:
                bal -= d
                if d > 0:
                    ok = d == 1 and any(
                        v is True and t.op == 'cmp' and t.args[0] == '<' and
                        self.is_field(st, t.args[1], 'cpool_size') and
                        self.is_field(st, t.args[2], 'cpool_max')
                        for t, v in st.facts.items())
                    self.chk.note('bound', self.chk.func.short, ok, "the "
                                  "pool grows without being below its "
                                  "maximum", '')
        elif event == 'store' and args[1] == 'locked':
            d = delta(args[2])
            if d is not None:
                depth += d
        elif event == 'call':
            ci = args[0]
            if ci.recv is not None and ci.recv.op == 'attr' and \
                    ci.recv.args[1] == 'module_lock' and \
                    ci.name == 'release':
                mod -= 1
            elif ci.name == 'open' and self.short(ci.fr) == \
                    P + 'acquire_connection':
                tab = tab | {('open', '')}
        elif event == 'loop':
            chk, node, fr = args
            if bal != 0 and self.short(fr) not in self.closing:
                chk.note('account', self.short(fr), False,
                         "goes round a loop after moving a connection "
                         "without keeping the number of connections in "
                         "the pool equal to cpool_size (difference %+i)" %
                         bal, fr.func.where)
                bal = 0
        bal = max(-2, min(2, bal))
        depth = max(-2, min(2, depth))
        mod = max(-2, min(2, mod))
        n = (bal, depth, mod, tab)
        return x if n == x else n

    def call(self, chk, it, st, ci):
        if ci.recv is not None and ci.recv.op == 'attr' and \
                ci.recv.args[1] == 'module_lock' and ci.name == 'acquire':
            bal, depth, mod, tab = st.auto.x
            s2 = st.with_auto(st.auto.new(x=(bal, depth, mod + 1, tab)))
            return [(s2, TRUE), (st, FALSE)]
        return None

    def leave_check(self, chk, it, st, x, func):
        if func.short in self.closing or func.short in self.exempt:
            return
        bal, depth, mod, tab = x
        if not tab - {('open', '')} and bal == 0:
            return
        chk.note('account', func.short, bal == 0 and
                 ('?', 'cpool_size') not in tab,
                 "leaves the critical section with the number of "
                 "connections in the pool and cpool_size different "
                 "(%+i)" % bal, func.where)

    def extra_done(self, chk, it, st, x, kind, func, payload):
        bal, depth, mod, tab = x
        s = func.short
        if s == P + 'acquire_connection':
            none = payload is not None and is_const(payload, None)
            if kind == 'return' and none:
                ok = depth == 0 and mod == 0
                msg = "returns no connection but leaves the connection " \
                    "marked or the module lock held (%i, %i)" % (depth, mod)
            elif kind == 'return':
                ok = depth == 1 and mod == 1
                msg = "returns a connection whose lock count changed by " \
                    "%i and with the module lock taken %i times" % (
                        depth, mod)
            elif ('open', '') in tab:
                # the database connection could not be opened
                # (errors in the middle of returning the slot are ignored)
                ok = depth == 0 and (mod == 0 or payload is None)
                msg = "raises with a connection still marked locked " \
                    "or the module lock held (%i, %i)" % (depth, mod)
            else:
                return
            chk.note('depth', s + ':' + (
                'none' if kind == 'return' and none else kind), ok, msg,
                func.where)
        elif s == P + 'release_connection' and kind == 'return':
            ok = (depth, mod) in ((-1, -1), (0, 0))
            if ok and depth == 0:
                # nothing may move out of the locked table
                ok = ('-', 'cpool_locked') not in tab
            chk.note('depth', s, ok, "a connection is released with its "
                     "lock count changed by %i and the module lock by %i" %
                     (depth, mod), func.where)


def delta(v):
    """+1/-1 if v is (something +/- 1)"""
    if v is None:
        return None
    if v.op == 'bin' and v.args[0] in ('Add', 'Sub') and \
            v.args[2].op == 'const' and type(v.args[2].args[0]) is int:
        d = v.args[2].args[0]
        return d if v.args[0] == 'Add' else -d
    return None


def run(repo, rep):
    rep.rule('lock-held', 'the idle, locked and unlocked tables and the '
             'pool size are only used with the pool lock held', 12)
    rep.rule('atomic', 'a table is not changed in a different critical '
             'section from the one in which it was tested', 8)
    rep.rule('notify', 'a change that makes a connection or slot available '
             'is notified before the lock is released', 3)
    rep.rule('retest', 'after a wait the condition is tested again', 2)
    rep.rule('account', 'the number of connections in the three tables '
             'changes by the same amount as cpool_size in every critical '
             'section and loop iteration', 3)
    rep.rule('depth', 'acquire marks the connection exactly once and holds '
             'the module lock iff it returns a connection; release undoes '
             'both exactly once', 3)
    rep.rule('bound', 'cpool_size only grows by one and only when it is '
             'below cpool_max', 1)
    rules = {k: k for k in ('atomic', 'notify', 'retest', 'account',
                            'depth', 'bound')}
    rules['held'] = 'lock-held'
    rules['wait held'] = 'lock-held'
    lockset.analyse(repo, rep, PoolSpec(), rules)
    rep.rule('returned', 'a connection taken from the pool is given back '
             'exactly once on every path, or kept by an object whose close '
             'gives it back', 4)
    chk = ReturnCheck(rep, repo)
    funcs = [f for f in repo.funcs.values() if f.module.name ==
             'pyslet.odata2.sqlds' and f.name not in (
                 'acquire_connection', 'release_connection')]
    for f in lockset.select(repo, funcs, ('acquire_connection',
                                          'release_connection')):
        rulebase.run_func(repo, chk, f)
    chk.flush()


class ReturnCheck(rulebase.RuleCheck):

    implicit = True

    def __init__(self, rep, repo):
        rulebase.RuleCheck.__init__(self, rep)
        self.repo = repo

    def start(self, it, st, func):
        self.func = func
        st = st.with_auto(frozenset())
        if func.name == 'close':
            me = T('param', func.params()[0])
            st = st.with_auto(frozenset([(T('attr', me, 'connection'),
                                          'held')]))
        return st

    def may_raise(self, it, ci):
        return ci.name not in ('release_connection', 'SQLTransaction',
                               'close') and \
            rulebase.RuleCheck.may_raise(self, it, ci)

    def call(self, it, st, ci):
        if ci.name == 'acquire_connection':
            it.implicit_raise(st, ci, ci.fr)
            t = it.call_term(ci, st)
            self.note('returned', self.func.short, True)
            held = st.with_auto(st.auto | {(t, 'held')})
            return [(x, t) for x in it.assume(
                held, T('cmp', 'is', t, NONE), False)] + [
                    (x, t) for x in it.assume(
                        st, T('cmp', 'is', t, NONE), True)]
        if ci.name == 'release_connection' and ci.args:
            t = ci.args[0]
            ok = (t, 'held') in st.auto
            if st.facts.get(T('cmp', 'is', t, NONE)) is not True:
                self.note('returned', self.func.short, ok,
                          "a connection that was not taken or was already "
                          "given back is released", ci.where)
            st = st.with_auto(st.auto - {(t, 'held')} | {(t, 'back')})
            return [(st, NONE)]
        if ci.name == 'close' and ci.recv is not None and it.is_root_self(
                ci.recv, ci.fr):
            # gives back what self holds
            st = st.with_auto(frozenset(
                x for x in st.auto if x[1] != 'kept'))
            return [(st, NONE)]
        return None

    def attr_store(self, it, st, base, attr, value, node, fr):
        if (value, 'held') in (st.auto or ()):
            c = it.typeof(base, fr)
            if isinstance(c, Class) and attr == 'connection':
                st = st.with_auto(st.auto - {(value, 'held')} | {
                    (value, 'kept')})
        elif attr == 'connection' and value is NONE:
            t = T('attr', base, 'connection')
            st = st.with_auto(st.auto - {(t, 'back')})
        return st

    def func_exit(self, it, st, func, kind, payload, fr):
        f = func.short
        for t, s in st.auto:
            if st.facts.get(T('cmp', 'is', t, NONE)) is True:
                continue
            if s == 'held' and not (kind == 'return' and payload is t):
                self.note('returned', f, False, "%s without giving the "
                          "connection back" % (
                              'returns' if kind == 'return' else
                              'can raise'), func.where)
            elif s == 'kept' and kind == 'raise':
                self.note('returned', f, False, "a constructor can raise "
                          "without giving the connection back", func.where)
            elif s == 'back' and func.name == 'close' and \
                    kind == 'return':
                self.note('returned', f, False, "the connection is given "
                          "back but not forgotten", func.where)
