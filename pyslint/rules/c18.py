"""C18: the in-process pipe"""

from .. import lockset
from ..interp import T, is_const
from ..repo import Class

PIPE = 'pyslet.streams.Pipe'
P = 'streams.Pipe.'


def strip(t):
    while t.op == 'ver':
        t = t.args[0]
    return t


class PipeSpec(lockset.Spec):

    modules = ('pyslet.streams',)
    fields = {'buffer': 'rw', 'bsize': 'rw', 'rpos': 'rw', '_eof': 'rw',
              'wstate': 'rw', 'rstate': 'rw', 'rblocking': 'w',
              'wblocking': 'w', 'rflag': 'w'}
    lock_names = ('lock',)
    exempt = (P + '__init__',)
    # moves the same bytes into one chunk
    exempt_notify = (P + '_consolidate_buffer',)
    # notify wakes any one thread, reader or writer
    notify_names = ('notify_all', 'notifyAll')
    groups = (('buffer', 'bsize', 'rpos'),)
    live_ok = ('bsize', 'rpos', 'wstate', 'rstate', '_eof')

    def owner(self, it, base, fr):
        c = it.typeof(base, fr)
        return isinstance(c, Class) and it.repo.is_subclass(c, PIPE)

    def lock(self, it, t, fr):
        return t.op == 'attr' and t.args[1] == 'lock' and \
            self.owner(it, t.args[0], fr)

    def guarded(self, it, base, attr, fr):
        return self.owner(it, base, fr)

    def static(self, repo, f, n):
        return repo.is_subclass(f.cls, PIPE)

    def top(self, fr):
        while fr.outer is not None:
            fr = fr.outer
        return fr.func.name

    def enabling(self, it, st, kind, base, attr, value, node, fr):
        if kind == 'store':
            if attr == 'buffer':
                return ('notify_all', 'rflag') if \
                    self.top(fr) != 'close' else ('notify_all',)
            if attr == 'rpos':
                if value.op == 'bin':
                    return ('notify_all', 'rflag')
                return ()
            if attr == '_eof':
                return ('notify_all', 'wstate')
            return ()
        if attr == 'buffer':
            if kind in ('append', 'insert', 'extend', 'appendleft'):
                return ('notify_all', 'wstate')
            return ('notify_all', 'rflag')
        return ()

    def settles(self, it, st, ci):
        if ci.recv is None:
            return ()
        if ci.name in self.notify_names and self.lock(it, ci.recv, ci.fr):
            return ('notify_all',)
        if ci.name == 'set' and self.flag(st, ci.recv):
            return ('rflag',)
        return ()

    def flag(self, st, t):
        return self.is_field(st, t, 'rflag')

    def settles_store(self, it, st, base, attr, value):
        if attr == 'wstate' and value is not None and value.op == 'bin' \
                and value.args[0] == 'Add':
            return ('wstate',)
        return ()

    def noflag(self, it, st):
        for t, v in st.facts.items():
            if t.op == 'cmp' and t.args[0] == 'is' and v is True and \
                    self.flag(st, t.args[1]):
                return True
            if v is False and self.flag(st, t):
                return True
        return False

    def excuse(self, it, st, kind):
        if kind == 'rflag' and self.noflag(it, st):
            return True
        if kind == 'wstate' and ('w', None) in st.auto.x:
            return True
        # nothing was moved
        return any(v is False and zero(t) for t, v in st.facts.items())

    def expired(self, it, st, arg):
        # the write counter changed during the wait
        return any(t.op == 'cmp' and t.args[0] == '==' and v is False and
                   'wstate' in self.names(st, t)
                   for t, v in st.facts.items())

    # ---- state -----------------------------------------------------------
    def extra0(self):
        return frozenset()

    def extra(self, it, st, x, event, *args):
        chk = self.chk
        f = chk.func
        if f.cls is None or not it.repo.is_subclass(f.cls, PIPE) or \
                f.short in self.exempt:
            return x
        if event == 'append' and args[1] == 'buffer':
            v = args[2]
            ok = self.known(st, args[0], '_eof', False) and any(
                t.op == 'attr' and t.args[1] == 'closed' and v2 is False
                for t, v2 in st.facts.items())
            chk.note('eof', f.short, ok, "data is added to a pipe that was "
                     "not tested, since the lock was last taken, to be "
                     "open and before its end of file", f.where)
            chk.note('empty', f.short, self.nonempty(st, v), "a chunk that "
                     "can be empty is added: the reader takes it for the "
                     "end of the file", f.where)
            return x | {('+', v)}
        if event in ('pop', 'sub_del', 'popleft', 'remove', 'clear') and \
                args[1] == 'buffer':
            return x | {('-', args[0])}
        if event == 'store' and self.owner(it, args[0], args[4]):
            base, attr, value = args[:3]
            if attr == 'buffer':
                return x | {('-', value)}
            if attr == 'wstate' and self.settles_store(
                    it, st, base, attr, value):
                return x | {('w', None)}
            if attr == 'bsize':
                return x | {('n', value)}
            if attr == 'rpos':
                return x | {('rpos', value)}
            if attr == 'rblocking':
                return x | {('rblocking', value)}
        if event == 'call':
            ci = args[0]
            if ci.name == 'set' and ci.recv is not None and \
                    self.flag(st, ci.recv):
                return x | {('flag', None)}
            if ci.name == 'notify' and ci.recv is not None and \
                    self.lock(it, ci.recv, ci.fr):
                chk.note('notify_all', f.short + ':one', False, "wakes one "
                         "thread only, which can be a reader as well as a "
                         "writer", ci.where)
        if event == 'loop':
            self.tally(chk, it, st, x)
            return frozenset(e for e in x if e[0] in ('flag', 'rblocking'))
        return x

    def known(self, st, base, attr, value):
        c = st.heap.get((base, attr), T('attr', base, attr))
        return st.facts.get(c) is value

    def nonempty(self, st, v):
        src = [v]
        t = v
        while t.op == 'call' and t.args[0] in ('bytes', 'bytearray') and \
                t.args[3]:
            t = t.args[3][0]
            src.append(t)
        if t.op == 'sub':
            src.append(t.args[0])
        for t, p in st.facts.items():
            if p is True and (t in src or t.op == 'call' and
                              t.args[0] == 'len' and t.args[3] and
                              t.args[3][0] in src):
                return True
            if t.op == 'cmp' and t.args[0] in ('<', '==') and any(
                    k.op == 'call' and k.args[0] == 'len' and k.args[3] and
                    k.args[3][0] in src for k in t.args[1:3]) and any(
                        is_const(k, 0) for k in t.args[1:3]):
                return True
        return False

    def tally(self, chk, it, st, x):
        f = chk.func
        if f.name == 'close':
            want = {(e[0], e[1]) for e in x if e[0] in ('n', 'rpos') and
                    is_const(e[1], 0)}
            chk.note('tally', f.short, len(want) == 2, "the buffer is "
                     "emptied without resetting its size and position",
                     f.where)
            return
        adds = [e[1] for e in x if e[0] == '+']
        rems = [e[1] for e in x if e[0] == '-']
        ns = [e[1] for e in x if e[0] == 'n']
        for v in adds:
            chk.note('tally', f.short + ':add', any(
                n.op == 'bin' and n.args[0] == 'Add' and
                self.is_field(st, n.args[1], 'bsize') or
                n.op == 'bin' and n.args[0] == 'Add' for n in ns),
                "bytes are added to the buffer but not to its size",
                f.where)
            for n in ns:
                if n.op == 'bin' and n.args[0] == 'Add':
                    chk.note('tally', f.short + ':size', same_size(
                        v, n.args[2]) or same_size(v, n.args[1]),
                        "the size of the buffer grows by something other "
                        "than the bytes added", f.where)
        for v in rems:
            if f.name == '_consolidate_buffer':
                continue
            ok = any(n.op == 'bin' and n.args[0] == 'Sub' and
                     head_len(self, st, n.args[2]) for n in ns)
            chk.note('tally', f.short + ':take', ok, "a chunk is taken from "
                     "the buffer and the size is not reduced by its length",
                     f.where)
            ok = any(e[0] == 'rpos' and is_const(e[1], 0) for e in x) or \
                self.at0(st)
            chk.note('tally', f.short + ':rpos', ok, "a chunk is taken from "
                     "the buffer and the read position is kept", f.where)
        if f.name == '_consolidate_buffer' and (ns or any(
                e[0] == 'rpos' for e in x)):
            ok = bool(ns) and any(e[0] == 'rpos' and is_const(e[1], 0) for e in x) and \
                all(n.op == 'bin' and n.args[0] == 'Sub' and
                    'rpos' in self.names(st, n.args[2]) or
                    n.op == 'bin' and n.args[0] == 'Sub' and
                    n.args[2].op == 'attr' for n in ns)
            chk.note('tally', f.short, ok, "the part of the buffer already "
                     "read is dropped without adjusting its size and "
                     "position", f.where)

    def at0(self, st):
        return any(
            (t.op == 'cmp' and t.args[0] == '==' and v is True and
             'rpos' in self.names(st, t) and any(
                 is_const(k, 0) for k in t.args[1:3])) or
            (v is False and self.is_field(st, t, 'rpos'))
            for t, v in st.facts.items())

    def leave_check(self, chk, it, st, x, func):
        if func.cls is not None and chk.repo.is_subclass(
                func.cls, PIPE) and func.short not in self.exempt:
            self.tally(chk, it, st, x)

    def after_wait(self, x):
        return frozenset(e for e in x if e[0] in ('flag', 'rblocking'))

    def extra_done(self, chk, it, st, x, kind, func, payload):
        if func.cls is None or func.short in self.exempt:
            return
        if func.name == 'close' and kind == 'return':
            chk.note('rflag', func.short, ('flag', None) in x or
                     self.noflag(it, st), "a writer waiting for a reader is "
                     "not told that the pipe is closed", func.where)
        if func.name == 'readall' and st.auto.past | st.auto.cur:
            me = T('param', func.params()[0])
            v = st.heap.get((me, 'rblocking'))
            chk.note('restore', func.short, v is None or
                     v is T('attr', me, 'rblocking'),
                     "returns or raises with the blocking mode of the "
                     "caller not restored", func.where)


def zero(t):
    return t.op == 'call' and t.args[0] == 'len' or \
        t.op == 'bin' and t.args[0] == 'Sub' and \
        t.args[1].op == 'call' and t.args[1].args[0] == 'len'


def same_size(v, n):
    """n is the length of v"""
    while v.op == 'call' and v.args[0] in ('bytes', 'bytearray') and \
            v.args[3]:
        v = v.args[3][0]
    if n.op == 'call' and n.args[0] == 'len' and n.args[3]:
        k = n.args[3][0]
        while k.op == 'call' and k.args[0] in ('bytes', 'bytearray') and \
                k.args[3]:
            k = k.args[3][0]
        if k is v:
            return True
    if v.op == 'sub':
        # b[:n]
        return v.args[1].mentions(n)
    return False


def head_len(spec, st, t):
    """t is the length of the first chunk"""
    if t.op == 'call' and t.args[0] == 'len' and t.args[3]:
        k = strip(t.args[3][0])
        return k.op == 'sub' and is_const(k.args[1], 0) or k.op == 'call' \
            and k.args[0] == 'pop'
    return False


def run(repo, rep):
    rep.rule('lock-held', 'the buffer, its size, the read position, the '
             'end of file flag and the change counters are only used with '
             'the lock of the pipe held; modes and the reader flag are '
             'only changed under it', 30)
    rep.rule('atomic', 'state is not changed in a different critical '
             'section from the one in which it was tested', 8)
    rep.rule('notify', 'a change of the buffer, read position or end of '
             'file is notified to all waiting threads before the lock is '
             'released', 6)
    rep.rule('retest', 'a blocked call tests its condition again after '
             'each wake-up, can succeed then, and tests its timeout '
             'before it waits again', 5)
    rep.rule('counter', 'adding data or the end of file advances the '
             'counter a blocked readmatch compares', 2)
    rep.rule('flag', 'taking data sets the reader flag, if there is one, '
             'and so does close', 3)
    rep.rule('tally', 'the size and read position always follow the '
             'chunks in the buffer', 6)
    rep.rule('eof', 'data is only added to a pipe tested, in the same '
             'critical section, to be open and before its end of file',
             1)
    rep.rule('empty', 'no empty chunk is put in the buffer', 1)
    rep.rule('restore', 'readall restores the blocking mode on every path',
             1)
    rules = {'held': 'lock-held', 'wait held': 'lock-held',
             'atomic': 'atomic', 'notify_all': 'notify', 'retest': 'retest',
             'timeout': 'retest', 'expire': 'retest', 'wstate': 'counter',
             'rflag': 'flag', 'tally': 'tally', 'eof': 'eof',
             'empty': 'empty', 'restore': 'restore'}
    lockset.analyse(repo, rep, PipeSpec(), rules)
