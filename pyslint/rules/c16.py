"""C16: the connection tables of the HTTP client"""

from .. import lockset
from ..interp import T
from ..repo import Class

CLIENT = 'pyslet.http.client.Client'
CONN = 'pyslet.http.client.Connection'
P = 'http.client.Client.'

# (table, paired table)
PAIRS = (('cActiveThreadTargets', 'cActiveThreads[]'),
         ('cIdleList', 'cIdleTargets[]'))
TABLES = ('cActiveThreadTargets', 'cActiveThreads', 'cIdleList',
          'cIdleTargets')


def strip(t):
    while t.op == 'ver':
        t = t.args[0]
    return t


class ClientSpec(lockset.Spec):

    modules = ('pyslet.http.client',)
    fields = {'cActiveThreadTargets': 'rw', 'cActiveThreads': 'rw',
              'cIdleTargets': 'rw', 'cIdleList': 'rw', 'dnsCache': 'rw',
              'credentials': 'rw', 'nextId': 'rw'}
    nested = ('cActiveThreads', 'cIdleTargets')
    lock_names = ('managerLock',)
    contextual = (P + '_delete_idle_connection',)
    exempt = (P + '__init__',)
    groups = (('cActiveThreadTargets', 'cActiveThreads'),
              ('cIdleList', 'cIdleTargets'))
    live_ok = ('nextId',)
    split_ok = {(P + 'dnslookup', 'dnsCache'):
                'two threads may look up the same name, the later result '
                'replaces an equal one'}

    def lock(self, it, t, fr):
        return t.op == 'attr' and t.args[1] == 'managerLock'

    def guarded(self, it, base, attr, fr):
        if base.op == 'attr' and base.args[1] in ('manager', 'client'):
            return True
        c = it.typeof(base, fr)
        return isinstance(c, Class) and it.repo.is_subclass(c, CLIENT)

    def static(self, repo, f, n):
        return repo.is_subclass(f.cls, CLIENT)

    def short(self, fr):
        while fr.outer is not None:
            fr = fr.outer
        return fr.func.short

    def enabling(self, it, st, kind, base, attr, value, node, fr):
        if attr == 'cActiveThreadTargets' and kind in (
                'sub_del', 'pop', 'popitem', 'clear'):
            return ('notify',)
        return ()

    def settles(self, it, st, ci):
        if ci.recv is not None and ci.name in self.notify_names and \
                self.lock(it, ci.recv, ci.fr):
            return ('notify',)
        return ()

    def excuse(self, it, st, kind):
        return kind == 'notify' and self.popped(st) is False

    def popped(self, st):
        """Was the result of table.pop(key, None) tested?"""
        for t, v in st.facts.items():
            if t.op == 'cmp' and t.args[0] == 'is':
                t, v = t.args[1], not v
            if t.op == 'call' and t.args[0] == 'pop' and \
                    t.args[2] is not None and self.is_field(
                        st, t.args[2], 'cActiveThreadTargets'):
                return v
        return None

    def extra0(self):
        return frozenset()

    def after_wait(self, x):
        return frozenset(e for e in x if e[0] != 'closing')

    def extra(self, it, st, x, event, *args):
        chk = self.chk
        f = chk.func.short
        if event == 'sub_store':
            base, field, value = args[:3]
            if field in TABLES:
                if field in self.nested:
                    if value.op != 'const':
                        return x | {('+', field + '[]')}
                    return x
                return x | {('+', field)}
            if field[:-2] in self.nested:
                return x | {('+', field)}
        elif event == 'sub_del':
            field = args[1]
            if field in TABLES or field[:-2] in self.nested:
                return x | {('-', field)}
        elif event in ('pop', 'popitem'):
            field = args[1]
            if field in TABLES:
                node = args[3]
                return x | {('-', field)} | (
                    {('-?', field)} if len(node.args) > 1 else set())
        elif event == 'mut':
            field, op = args[:2]
            if op in ('pop', 'popitem', 'clear'):
                return x | {('-', field + '[]')}
            if op in ('setdefault', 'update'):
                return x | {('+', field + '[]')}
        elif event == 'call':
            ci = args[0]
            if ci.name == 'is_set' and ci.recv is not None and \
                    ci.recv.op == 'attr' and ci.recv.args[1] == 'closing':
                return x | {('closing',)}
            if ci.name == '_new_connection':
                ok = st.auto.held > 0
                chk.note('bound', f + ':lock', ok, "a connection is created "
                         "without the lock under which the number of "
                         "connections was tested", ci.where)
                chk.note('bound', f, self.room(st), "a connection is created "
                         "without testing that fewer than max_connections "
                         "are active and idle", ci.where)
                ok = ('closing',) in x and any(
                    v is False and t.op == 'call' and t.args[0] == 'is_set'
                    and t.args[2] is not None and t.args[2].op == 'attr'
                    and t.args[2].args[1] == 'closing'
                    for t, v in st.facts.items())
                chk.note('closing', f, ok, "a connection is created without "
                         "testing, since the lock was last taken, that the "
                         "client is not closing", ci.where)
            if ci.name == '_activate_connection' and ci.args:
                return x | {('act', ci.args[0])}
            if ci.name == 'queue_request' and ci.recv is not None and \
                    not it.is_root_self(ci.recv, ci.fr) and \
                    it.repo.is_subclass(chk.func.cls, CLIENT):
                r = strip(ci.recv)
                ok = ('act', r) in x or (
                    r.op == 'sub' and self.is_field(
                        st, r.args[0], 'cActiveThreadTargets')) or (
                    r.op == 'call' and r.args[0] == 'get' and
                    r.args[2] is not None and self.is_field(
                        st, r.args[2], 'cActiveThreadTargets'))
                chk.note('active', f, ok, "a request is queued on a "
                         "connection that is not active on this thread",
                         ci.where)
                chk.note('active', f + ':lock', st.auto.held > 0,
                         "a request is queued on a connection after the "
                         "lock under which it was chosen was released",
                         ci.where)
        elif event == 'loop':
            self.balance(chk, it, st, x)
            return frozenset(e for e in x if e[0] in ('closing', 'act'))
        return x

    def both(self, st, t):
        return {'cActiveThreadTargets', 'cIdleList'} <= self.names(
            st, t) and not t.mentions(
                lambda k: k.op == 'bin' and k.args[0] != 'Add')

    def room(self, st):
        for t, v in st.facts.items():
            if t.op == 'cmp' and t.args[0] == '<':
                a, b = t.args[1], t.args[2]
                if v is True and self.both(st, a) and b.op == 'attr' and \
                        b.args[1] == 'max_connections':
                    return True
        return False

    def notin(self, st, table):
        """A test on this path found something not in the table"""
        table = table.replace('[]', '')
        for t, v in st.facts.items():
            if v is False and t.op == 'cmp' and t.args[0] == 'in' and \
                    table in self.names(st, t.args[2]):
                return True
            if v is True and t.op == 'cmp' and t.args[0] == 'is' and \
                    table in self.names(st, t.args[1]):
                return True
        return False

    def balance(self, chk, it, st, x):
        ev = {e for e in x if e[0] in '+-'}
        if not ev:
            return
        f = chk.func.short
        w = chk.func.where
        for a, b in PAIRS:
            for s, word in (('+', 'added to'), ('-', 'removed from')):
                for p, q in ((a, b), (b, a)):
                    if (s, p) in ev:
                        ok = (s, q) in ev or (
                            s == '-' and self.notin(st, q))
                        chk.note('pair', "%s:%s%s" % (f, s, p), ok,
                                 "a connection is %s %s but not %s" % (
                                     word, p, q), w)
        if ('+', 'cActiveThreadTargets') in ev:
            chk.note('state', f + ':active', ('-', 'cIdleList') in ev or
                     self.notin(st, 'cIdleList'), "a connection becomes "
                     "active and can stay in the idle tables", w)
        if ('+', 'cIdleList') in ev:
            chk.note('state', f + ':idle', ('-', 'cActiveThreadTargets')
                     in ev and (('-?', 'cActiveThreadTargets') not in x or
                                self.popped(st) is True), "a connection becomes idle that was not removed "
                     "from the active table", w)
        if ('-', 'cIdleTargets[]') in ev:
            ok = ('-', 'cIdleTargets') in ev or self.full(st)
            chk.note('state', f + ':empty', ok, "a list of idle connections "
                     "that can be empty stays in cIdleTargets", w)
        if ('-', 'cIdleTargets') in ev or ('-', 'cActiveThreads') in ev:
            for t in ('cIdleTargets', 'cActiveThreads'):
                if ('-', t) in ev:
                    chk.note('state', f + ':drop', self.full(st, t, False),
                             "%s loses a whole entry that was not tested to "
                             "be empty" % t, w)

    def full(self, st, table='cIdleTargets', value=True):
        for t, v in st.facts.items():
            k = strip(t)
            if k.op == 'call' and k.args[0] == 'len' and k.args[3]:
                k = strip(k.args[3][0])
            if v is value and k.op in ('sub', 'call') and \
                        table in self.names(st, k):
                return True
            if t.op == 'cmp' and t.args[1].op == 'call' and \
                    t.args[1].args[0] == 'len' and \
                    table in self.names(st, t.args[1]):
                return True
        return False

    def leave_check(self, chk, it, st, x, func):
        if func.short not in self.exempt:
            self.balance(chk, it, st, x)

    def extra_done(self, chk, it, st, x, kind, func, payload):
        if func in chk.ctx and kind == 'return':
            self.balance(chk, it, st, x)


class ConnSpec(lockset.Spec):

    modules = ('pyslet.http.client',)
    fields = {'socket': 'w', 'closed': 'rw'}
    lock_names = ('lock',)
    exempt = ('http.client.Connection.__init__',)

    def owner(self, it, base, fr):
        c = it.typeof(base, fr)
        return isinstance(c, Class) and it.repo.is_subclass(c, CONN)

    def lock(self, it, t, fr):
        return t.op == 'attr' and t.args[1] == 'lock' and \
            self.owner(it, t.args[0], fr)

    def guarded(self, it, base, attr, fr):
        return self.owner(it, base, fr)

    def static(self, repo, f, n):
        return repo.is_subclass(f.cls, CONN)

    def extra0(self):
        return frozenset()

    def extra(self, it, st, x, event, *args):
        if event == 'call':
            ci = args[0]
            if ci.recv is not None and ci.recv.op == 'attr' and \
                    ci.recv.args[1] == 'manager':
                self.chk.note('order', "%s:%s" % (
                    self.chk.func.short, ci.name), st.auto.held == 0,
                    "the client is called with the connection lock held, "
                    "while the client closes connections with its own lock "
                    "held", ci.where)
        elif event == 'store' and args[1] == 'closed' and \
                args[2].op == 'const' and args[2].args[0] is True:
            return x | {'closed'}
        elif event == 'store' and args[1] == 'socket' and \
                args[2].op != 'const' and self.owner(it, args[0], args[4]):
            # a killed connection must not be connected
            c = st.heap.get((args[0], 'closed'),
                            T('attr', args[0], 'closed'))
            sec = args[2].op == 'call' and args[2].args[0] == 'wrap_socket'
            self.chk.note('killed', self.chk.func.short, sec or any(
                t is c and v is False for t, v in st.facts.items()),
                "a socket is attached without testing that the connection "
                "was not killed", '')
        return x

    def extra_done(self, chk, it, st, x, kind, func, payload):
        if func.name == 'kill' and kind == 'return':
            me = T('param', func.params()[0])
            c = st.heap.get((me, 'closed'), T('attr', me, 'closed'))
            chk.note('killed', func.short, 'closed' in x or any(
                t is c and v is True for t, v in st.facts.items()),
                "returns without marking the connection closed", func.where)


def run(repo, rep):
    rep.rule('lock-held', 'the connection tables, credentials, DNS cache '
             'and id counter are only used with the manager lock held and '
             'no live view of them leaves it', 16)
    rep.rule('atomic', 'a table is not changed in a different critical '
             'section from the one in which it was tested', 8)
    rep.rule('notify', 'a connection taken out of the active table is '
             'notified before the lock is released', 2)
    rep.rule('retest', 'after a wait the tables are searched again and the '
             'timeout is tested', 1)
    rep.rule('pair', 'every critical section and loop iteration changes '
             'the two active tables together and the two idle tables '
             'together', 6)
    rep.rule('state', 'a connection that becomes active leaves the idle '
             'tables and the reverse; no empty entry is left behind and '
             'only empty entries are dropped', 4)
    rep.rule('bound', 'a connection is only created under the lock, with '
             'fewer than max_connections active and idle', 1)
    rep.rule('closing', 'no connection is created once the client is '
             'closing', 1)
    rep.rule('active', 'a request is only queued, under the lock, on a '
             'connection that is active on the calling thread', 1)
    rep.rule('live', 'no table is changed while a live view of it is '
             'being iterated', 0)
    rules = {k: k for k in ('atomic', 'notify', 'retest', 'pair', 'state',
                            'bound', 'closing', 'active', 'live')}
    rules['held'] = 'lock-held'
    rules['wait held'] = 'lock-held'
    rules['timeout'] = 'retest'
    rules['expire'] = 'retest'
    lockset.analyse(repo, rep, ClientSpec(), rules)
    rep.rule('connection', 'the socket and closed flag of a connection are '
             'only changed under its own lock', 4)
    rep.rule('order', 'a connection never calls its client with its own '
             'lock held', 2)
    rep.rule('killed', 'a killed connection is marked closed on every path '
             'and never gets a new socket', 2)
    lockset.analyse(repo, rep, ConnSpec(), {
        'held': 'connection', 'order': 'order', 'killed': 'killed'})
