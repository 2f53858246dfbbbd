"""C17: data read from a connection is handed to exactly one message"""

from ..peval import Hooks, Obj, PDict, PEval, PList, Raised, Sym
from ..repo import AnalysisError
from ..rulebase import baseline

CRLF = b'\r\n'


class Common(Hooks):

    max_depth = 14
    max_while = 60
    max_paths = 6000

    def __init__(self, repo, c):
        self.repo = repo
        self.c = c

    def inline(self, ev, f, recv, args, kw):
        return True

    def attr(self, ev, base, name, fr):
        if name == 'DEFAULT_BUFFER_SIZE':
            return 4
        if isinstance(base, Sym) and base.op == 'msg' and \
                name.startswith('RECV_'):
            return self.const[name]
        return NotImplemented

    def constants(self, ev):
        k = self.repo.cls('http.messages.Message')
        self.const = {}
        for n in ('RECV_HEADERS', 'RECV_LINE', 'RECV_ALL'):
            v = ev.getattr(k, n, None)
            if not isinstance(v, int):
                raise AnalysisError('Message.%s is not a number' % n)
            self.const[n] = v


# ---- Connection.handle_requests ------------------------------------------
class Loop(Common):

    """Sockets give unknown pieces; what is left over is followed"""

    def attr(self, ev, base, name, fr):
        if name == 'keep_alive' and isinstance(base, Sym):
            return True
        return Common.attr(self, ev, base, name, fr)

    def reset(self):
        self.rest = b''
        self.modes = 0
        self.msgs = 0
        self.n = 0
        self.tests = 0
        self.recvs = 0

    def inline(self, ev, f, recv, args, kw):
        return f.qual not in baseline() or f.name == 'byte'

    def cond(self, ev, v, fr):
        if isinstance(v, Sym) and v.op in ('msg', 'line', 'data', 'lines',
                                           'sock'):
            return True
        return None

    def compare(self, ev, op, a, b, fr):
        n = type(op).__name__
        if n in ('Is', 'IsNot', 'Eq', 'NotEq'):
            for x, y in ((a, b), (b, a)):
                if y is None and isinstance(x, Sym) and x.op in (
                        'msg', 'line', 'data', 'lines', 'rest', 'slice',
                        'attr'):
                    return n in ('IsNot', 'NotEq')
        if isinstance(a, Sym) and a.op == 'len' and isinstance(b, int) or \
                isinstance(b, Sym) and b.op == 'len' and isinstance(a, int):
            if n in ('Gt', 'Lt', 'GtE', 'LtE'):
                x, y = (a, b) if n in ('Gt', 'GtE') else (b, a)
                return ev.decide(('more', n in ('Gt', 'Lt'), x, y))
        return NotImplemented

    def call(self, ev, name, fn, recv, args, kw, node, fr):
        a0 = args[0] if args else None
        if isinstance(recv, Sym) and recv.op == 'attr' and recv.args[
                1] == 'finished' or name == 'is_set' and isinstance(
                    recv, Sym) and 'finished' in repr(recv):
            if name == 'is_set':
                self.tests += 1
                return self.tests > 2
            return None
        if name == 'is_set':
            return 'rflag' in repr(recv) or 'Cascading' in repr(recv)
        if name == 'get_expect_continue':
            return False
        if name == 'ServerRequest':
            self.msgs += 1
            if self.msgs > 2:
                return Sym('msg', self.msgs)
            self.modes = 0
            return Sym('msg', self.msgs)
        if name == 'recv_mode' and isinstance(recv, Sym):
            self.modes += 1
            if self.modes > (3 if self.msgs < 2 else 1):
                return None
            return (self.const['RECV_LINE'], self.const['RECV_HEADERS'],
                    3, self.const['RECV_ALL'], 0, None)[ev.choose(6)]
        if name in ('split_socket', 'split_socket1'):
            b = args[1] if len(args) > 1 else kw.get('buffstr', b'')
            self.take(ev, b, node, name)
            self.n += 1
            self.rest = Sym('rest', self.n)
            if name == 'split_socket1' and ev.choose(2):
                return (None, self.rest)
            return (Sym('line' if name == 'split_socket1' else 'lines',
                        self.n), self.rest)
        if name == 'read_socket':
            if self.rest != b'' and ev.facts.get(self.rest) is not False:
                ev.event('lost', 'reads from the socket while %s is still '
                         'waiting' % (self.rest,), node.lineno)
            self.n += 1
            return Sym('data', self.n) if ev.choose(2) == 0 else None
        if name == 'recv' and isinstance(recv, Sym) and recv.op == 'msg':
            self.recvs += 1
            if isinstance(a0, Sym) and a0 == self.rest:
                self.rest = b''
            elif isinstance(a0, Sym) and a0.op == 'slice':
                b, lo, hi, st = a0.args
                self.take(ev, b, node, 'recv')
                if lo in (None, 0) and st is None:
                    self.rest = Sym('slice', b, hi, None, None)
                else:
                    ev.event('lost', 'the first bytes are skipped',
                             node.lineno)
            elif isinstance(a0, Sym) and a0.op == 'rest':
                self.take(ev, a0, node, 'recv')
                self.rest = b''
            elif isinstance(a0, Sym) and a0.op in ('line', 'lines',
                                                   'data') or a0 is None:
                pass
            elif isinstance(a0, (bytes, str)) and not a0:
                pass
            else:
                raise AnalysisError('recv(%r) at line %s' % (
                    a0, node.lineno))
            return None
        if name in ('cascading_wait', 'write_response', 'launch_app'):
            return None
        if name == 'ServerResponse':
            return Sym('response')
        return NotImplemented

    def take(self, ev, b, node, what):
        if isinstance(b, str):
            ev.event('lost', 'the buffer is text', node.lineno)
        elif b != self.rest and not (
                b == b'' and ev.facts.get(self.rest) is False) and not (
                    self.rest == b'' and ev.facts.get(b) is False):
            ev.event('lost', '%s is used where %s is left over' % (
                b, self.rest), node.lineno)


def requests(c):
    h = Loop(c.repo, c)
    ev = PEval(c.repo, h)
    h.constants(ev)
    k = c.repo.cls('http.server.Connection')
    f = c.repo.find_method(k, 'handle_requests')
    c.used.add(f.qual)
    counts = [0, 0]

    def thunk(ev):
        h.reset()
        o = Obj(k, dict(request=Sym('sock'),
                        finished=Sym('attr', Sym('self'), 'finished'),
                        server=Sym('server'), responseq=Sym('q')))
        ev.func(f, [], recv=o)
        return h.recvs
    for p in ev.paths(thunk):
        counts[0] += 1
        bad = [e for e in p.events if e[0] == 'lost']
        if p.kind == 'return':
            counts[1] += p.value
        c.note('conserve', 'server', not bad, 'bytes read from the '
               'connection are lost or out of order: %s (line %s)' % (
                   bad[0][1:] if bad else ('', 0)), f)
    if counts[1] < 10:
        raise AnalysisError('handle_requests hands no data to the requests')
    c.rep.stats['server_paths'] = counts[0]


# ---- split_socket --------------------------------------------------------
class Sock(Common):

    def __init__(self, repo, c, data, cuts):
        Common.__init__(self, repo, c)
        self.data = data
        self.cuts = cuts

    def reset(self):
        self.left = list(self.cuts)

    def call(self, ev, name, fn, recv, args, kw, node, fr):
        if name == 'read_socket':
            n = args[1]
            if not isinstance(n, int):
                raise AnalysisError('size of a read is unknown')
            if not self.left:
                return None
            d = self.left[0][:n]
            self.left[0] = self.left[0][n:]
            if not self.left[0]:
                self.left.pop(0)
            return d
        if name in ('debug', 'info', 'warning', 'error'):
            return None
        return NotImplemented


def splits(c):
    m = c.repo.module('pyslet.http.server')
    for fname in ('split_socket', 'split_socket1'):
        f = c.repo.func('http.server.' + fname)
        c.used.add(f.qual)
        for data in (b'A: 1\r\nB: 2\r\n\r\nxyz', b'\r\nGET', b'A\r\n\r\n',
                     b'A: 1\rB\r\n\r\n\r\nq', b'A: 1\r\nB'):
            for cut in range(0, len(data)):
                for cut2 in {len(data), min(len(data), cut + 3)}:
                    parts = [x for x in (data[cut:cut2], data[cut2:]) if x]
                    h = Sock(c.repo, c, data, parts)
                    ev = PEval(c.repo, h)
                    left = []

                    def thunk(ev):
                        h.reset()
                        r = ev.func(f, [Sym('sock'), data[:cut]],
                                    {'timeout': 5})
                        left.append(b''.join(h.left))
                        return r
                    for p in ev.paths(thunk):
                        whole = CRLF in data if fname == 'split_socket1' \
                            else data.startswith(CRLF) or \
                            CRLF + CRLF in data
                        if p.kind != 'return':
                            c.note('conserve', fname, not whole and
                                   p.kind == 'raise', 'complete lines are '
                                   'not returned: %s %s' % (p.kind,
                                                            p.value), f)
                            continue
                        v = p.value
                        if not isinstance(v, tuple) or len(v) != 2 or \
                                not isinstance(v[1], bytes):
                            raise AnalysisError('%s returns %r' % (fname, v))
                        ls = v[0].items if isinstance(v[0], PList) else [
                            v[0]] if v[0] is not None else []
                        if not all(isinstance(x, bytes) for x in ls):
                            raise AnalysisError('%s returns %r' % (fname, v))
                        got = b''.join(ls) + v[1] + left[-1]
                        c.note('conserve', fname, got == data,
                               'of %r read as %r, %r is returned' % (
                                   data, [data[:cut]] + parts, v), f)
                        ok = all(x.endswith(CRLF) and CRLF not in x[:-2]
                                 for x in ls) and (
                                     fname == 'split_socket1' and len(
                                         ls) <= 1 or ls and
                                     ls[-1] == CRLF and CRLF not in
                                     ls[:-1])
                        c.note('conserve', fname + ':lines', ok,
                               'the lines of %r are %r' % (data, ls), f)


# ---- client ClientConnection._recv_task -------------------------------------
class Task(Common):

    def __init__(self, repo, c, modes, data):
        Common.__init__(self, repo, c)
        self.modes = modes
        self.data = data

    def reset(self):
        self.left = list(self.modes)
        self.given = []

    def inline(self, ev, f, recv, args, kw):
        return f.qual not in baseline() or f.name == 'byte'

    def cond(self, ev, v, fr):
        if isinstance(v, Sym) and v.op == 'msg':
            return True
        return None

    def compare(self, ev, op, a, b, fr):
        n = type(op).__name__
        if n in ('Is', 'IsNot', 'Eq', 'NotEq') and (a is None or
                                                    b is None):
            x = b if a is None else a
            if isinstance(x, Sym) and x.op == 'msg':
                return n in ('IsNot', 'NotEq')
        return NotImplemented

    def call(self, ev, name, fn, recv, args, kw, node, fr):
        a0 = args[0] if args else None
        if name in ('debug', 'info', 'warning', 'error'):
            return None
        if name == 'time':
            return 0
        if isinstance(recv, Sym) and recv.op == 'sock' and name == 'recv':
            return self.data
        if isinstance(recv, Sym) and recv.op == 'msg':
            if name == 'recv_mode':
                if not self.left:
                    return None
                m = self.left[0]
                return self.const.get(m, m)
            if name == 'recv':
                v = a0
                if isinstance(v, PList):
                    v = tuple(v.items)
                self.given.append((self.left[0], v))
                m = self.left[0]
                if isinstance(m, int) and isinstance(v, bytes) and \
                        0 < len(v) < m:
                    self.left[0] = m - len(v)
                else:
                    self.left.pop(0)
                return None
        return NotImplemented


def client(c):
    k = c.repo.cls('http.client.Connection')
    f = c.repo.find_method(k, '_recv_task')
    if f is None:
        raise AnalysisError('http.client.Connection has no _recv_task')
    c.used.add(f.qual)
    n = 0
    for old, data in (([], b'S\r\nA: 1\r\nB: 2\r\n\r\nbody!2\r\n'),
                      ([b'S'], b'\r\n\r\nbody'), ([b'S\r'], b'\nA: 1\r\n'),
                      ([b'abc', b'de'], b'f\r\nxyz'),
                      ([b'A: 1\r\n'], b'\r\nbody'), ([], b'abcdefgh')):
        for modes in (('RECV_LINE', 'RECV_HEADERS', 5, 'RECV_LINE'),
                      ('RECV_LINE', 'RECV_HEADERS', 'RECV_ALL'),
                      ('RECV_LINE', 'RECV_HEADERS'), (3, 0, 2, 'RECV_LINE'),
                      ('RECV_HEADERS', 2, 0, 'RECV_ALL', 'RECV_ALL'),
                      ('RECV_ALL', 'RECV_ALL', 'RECV_ALL'), (4,), (20,)):
            h = Task(c.repo, c, modes, data)
            ev = PEval(c.repo, h)
            h.constants(ev)
            ends = []

            def thunk(ev):
                h.reset()
                o = Obj(k, dict(recv_buffer=PList(old), recv_buffer_size=sum(
                    map(len, old)), response=Sym('msg', 0),
                    socket=Sym('sock'), host='h'))
                ev.func(f, [], recv=o)
                ends.append((o.attrs['recv_buffer'],
                             o.attrs['recv_buffer_size'], list(h.given)))
                return len(ends) - 1
            for p in ev.paths(thunk):
                n += 1
                what = '%r after %r, wanted %s' % (data, old, modes)
                if p.kind != 'return':
                    c.note('conserve', 'client', False, '%s %s (%s)' % (
                        p.kind, p.value, what), f)
                    continue
                b, size, given = ends[p.value]
                if not isinstance(b, PList) or not all(
                        isinstance(x, bytes) for x in b.items):
                    raise AnalysisError('recv_buffer is %r' % (b,))
                got = b''
                ok = True
                for m, v in given:
                    if v is None:
                        ok = ok and m == 0
                        continue
                    if isinstance(v, tuple):
                        ok = ok and m == 'RECV_HEADERS' and all(
                            isinstance(x, bytes) and x.endswith(CRLF) and
                            CRLF not in x[:-2] for x in v) and \
                            v[-1:] == (CRLF,) and CRLF not in v[:-1]
                        got += b''.join(v)
                        continue
                    if not isinstance(v, bytes):
                        raise AnalysisError('recv(%r)' % (v,))
                    got += v
                    if m == 'RECV_LINE':
                        ok = ok and v.endswith(CRLF) and CRLF not in v[:-2]
                    elif isinstance(m, int):
                        ok = ok and 0 < len(v) <= m
                    else:
                        ok = ok and m == 'RECV_ALL' and v != b''
                left = b''.join(b.items)
                c.note('conserve', 'client', got + left == b''.join(
                    old) + data, 'bytes read from the connection are lost '
                    'or out of order: %s handed on, %s kept (%s)' % (
                        given, b.items, what), f)
                c.note('conserve', 'client:size', size == len(left),
                       'the buffer holds %i bytes but its size says %s '
                       '(%s)' % (len(left), size, what), f)
                c.note('conserve', 'client:units', ok, 'the response is '
                       'not given what it asked for: %s (%s)' % (
                           given, what), f)
    c.rep.stats['client_cases'] = n
    # a response that is cut short
    k = c.repo.cls('http.client.ClientResponse')
    f = c.repo.find_method(k, 'handle_disconnect')
    c.used.add(f.qual)
    for mode in ('RECV_LINE', 'RECV_HEADERS', 'RECV_ALL', 0, 3, None):
        h = Short(c.repo, c, mode)
        ev = PEval(c.repo, h)
        h.constants(ev)
        res = []

        def thunk(ev):
            o = Obj(k, dict(request=Sym('req'), status=200, reason='OK',
                            keep_alive=True, lock=Sym('lock')))
            return ev.func(f, [None], recv=o)
        for p in ev.paths(thunk):
            e = [x for x in p.events if x[0] == 'finished']
            if p.kind == 'raise' or not e:
                ok = mode not in ('RECV_ALL', None)
            else:
                err = e[-1][1]
                ok = (err is None) == (mode in ('RECV_ALL', None))
            c.note('recv', 'client:short', ok, 'a response cut off in mode '
                   '%s is passed on with error %s' % (
                       mode, e[-1][1:] if e else None), f)


class Short(Common):

    def __init__(self, repo, c, mode):
        Common.__init__(self, repo, c)
        self.mode = mode

    def inline(self, ev, f, recv, args, kw):
        return f.qual not in baseline() or f.name == 'byte'

    def call(self, ev, name, fn, recv, args, kw, node, fr):
        if name in ('debug', 'info', 'warning', 'error'):
            return None
        if name == 'recv_mode':
            return self.const.get(self.mode, self.mode)
        if name == 'response_finished':
            ev.event('finished', args[0] if args else kw.get('err'))
            return None
        return NotImplemented


# ---- WSGIInputWrapper and ChunkedReader -----------------------------------
class Bio(object):

    def __init__(self):
        self.data = b''
        self.pos = 0


class Input(Common):

    def __init__(self, repo, c, data):
        Common.__init__(self, repo, c)
        self.data = data

    def reset(self):
        self.pos = 0
        self.bios = []

    def cond(self, ev, v, fr):
        if isinstance(v, Sym) and v.op in ('src', 'bio'):
            return True
        return None

    def attr(self, ev, base, name, fr):
        if name == 'closed':
            return False
        if name.startswith('SEEK_'):
            return {'SEEK_SET': 0, 'SEEK_CUR': 1, 'SEEK_END': 2}.get(
                name, NotImplemented)
        return Common.attr(self, ev, base, name, fr)

    def compare(self, ev, op, a, b, fr):
        n = type(op).__name__
        if n in ('Is', 'IsNot', 'Eq', 'NotEq') and (a is None or
                                                    b is None):
            x = b if a is None else a
            if isinstance(x, Sym) and x.op in ('src', 'bio'):
                return n in ('IsNot', 'NotEq')
        return NotImplemented

    def call(self, ev, name, fn, recv, args, kw, node, fr):
        a0 = args[0] if args else None
        if name == 'BytesIO':
            self.bios.append(Bio())
            return Sym('bio', len(self.bios) - 1)
        if name == 'ParameterParser':
            return Sym('pp', a0)
        if isinstance(recv, Sym) and recv.op == 'pp':
            if name in ('parse_token', 'require_token'):
                t = recv.args[0].split(b';')[0].strip()
                if t:
                    return t
                if name == 'parse_token':
                    return None
                raise Raised('http.grammar.BadSyntax', (), node)
        if name == 'super' or name == '__init__' and not isinstance(
                recv, Obj):
            return None
        if isinstance(recv, Sym) and recv.op in ('src', 'bio'):
            b = self if recv.op == 'src' else self.bios[recv.args[0]]
            if name == 'read':
                n = a0 if args else -1
                if n is None or isinstance(n, int) and n < 0:
                    n = len(b.data)
                    if b is self:
                        ev.event('all', node.lineno)
                if not isinstance(n, int):
                    raise AnalysisError('size of a read is unknown')
                d = b.data[b.pos:b.pos + n]
                b.pos += len(d)
                return d
            if name == 'readline':
                i = b.data.find(b'\n', b.pos)
                i = len(b.data) if i < 0 else i + 1
                d = b.data[b.pos:i]
                b.pos = i
                return d
            if name == 'write' and b is not self:
                b.data = b.data[:b.pos] + a0 + b.data[b.pos + len(a0):]
                b.pos += len(a0)
                return len(a0)
            if name == 'tell':
                return b.pos
            if name == 'seek' and b is not self and isinstance(a0, int):
                b.pos = a0
                return a0
        return NotImplemented


def wrapper(c):
    k = c.repo.cls('http.messages.WSGIInputWrapper')
    OPS = (('read', 1), ('read', 4), ('read', -1), ('seek', 0),
           ('seek', 2), ('seek', 5), ('seek', 9), ('seek', 1, 1),
           ('readline',), ('readinto', 3))
    seqs = [(a, b, d) for a in OPS for b in OPS for d in OPS
            if d[0] != 'seek']
    ctor = c.repo.find_method(k, '__init__')
    n = 0
    for length, data in (('6', b'ab\ncdeNEXT'), (None, b'ab\ncde')):
        want = b'ab\ncde'
        for seek in (3, 0, 8):
            for ops in seqs:
                if length is None and seek == 8 and n % 3:
                    n += 1
                    continue
                n += 1
                h = Input(c.repo, c, data)
                ev = PEval(c.repo, h)
                res = []

                def thunk(ev):
                    h.reset()
                    env = PDict([('wsgi.input', Sym('src'))])
                    if length is not None:
                        env.put('CONTENT_LENGTH', length)
                    o = Obj(k)
                    ev.func(ctor, [env, seek], recv=o)
                    pos = 0
                    for op in ops:
                        f = c.repo.find_method(k, op[0])
                        c.used.add(f.qual)
                        args = list(op[1:])
                        if op[0] == 'readinto':
                            args = [PList([0] * op[1])]
                        r = ev.func(f, args, recv=o)
                        if op[0] == 'seek':
                            pos = op[1] if len(op) == 2 else pos + op[1]
                            continue
                        if op[0] == 'readinto':
                            if not isinstance(r, int) or not all(
                                    isinstance(x, int)
                                    for x in args[0].items):
                                raise AnalysisError('readinto gives %r' % (
                                    r,))
                            r = bytes(args[0].items[:r])
                            e = want[pos:pos + op[1]]
                        elif op[0] == 'readline':
                            i = want.find(b'\n', pos)
                            e = want[pos:i + 1] if i >= 0 else want[pos:]
                        else:
                            e = want[pos:] if op[1] < 0 else want[
                                pos:pos + op[1]]
                        if not isinstance(r, bytes):
                            raise AnalysisError('%s gives %r' % (op[0], r))
                        res.append((op, pos, r, e, h.pos))
                        if r != e:
                            # may be a short read, not other data
                            if not e.startswith(r) or not r:
                                break
                        pos += len(r)
                    return True
                for p in ev.paths(thunk):
                    what = 'content length %s, seekable for %i, %s' % (
                        length, seek, ops)
                    f = c.repo.find_method(k, 'read')
                    if p.kind == 'raise':
                        c.note('input', 'wsgi:error', not p.value.startswith(
                            'builtins.') or p.value in (
                                'builtins.IOError', 'builtins.OSError'),
                            '%s is raised (%s)' % (p.value, what), f)
                    for op, pos, r, e, used in res:
                        c.note('input', 'wsgi:data', e.startswith(r) and
                               (bool(r) or not e), '%s at %i gives %r, not '
                               '%r (%s)' % (op[0], pos, r, e, what), f)
                    c.note('input', 'wsgi:limit', h.pos <= len(want),
                           '%i bytes are read from the connection, past '
                           'the end of the body (%s)' % (h.pos, what), f)
                    if length is not None:
                        c.note('input', 'wsgi:all', not any(
                            e[0] == 'all' for e in p.events), 'the input '
                            'is read to its end (%s)' % what, f)
    c.rep.stats['input_cases'] = n


def chunked(c):
    k = c.repo.cls('http.messages.ChunkedReader')
    ctor = c.repo.find_method(k, '__init__')
    f = c.repo.find_method(k, 'readinto')
    c.used.add(f.qual)
    whole = b'3\r\nabc\r\n2;x=y\r\nde\r\n0\r\nT: 1\r\n\r\n'
    for cut in (None,) + tuple(range(whole.index(b'0\r\n'))):
        data = whole + b'NEXT' if cut is None else whole[:cut]
        for size in (1, 2, 3, 8):
            h = Input(c.repo, c, data)
            ev = PEval(c.repo, h)
            out = []

            def thunk(ev):
                h.reset()
                del out[:]
                o = Obj(k)
                ev.func(ctor, [Sym('src')], recv=o)
                got = b''
                for i in range(20):
                    b = PList([0] * size)
                    n = ev.func(f, [b], recv=o)
                    if not isinstance(n, int):
                        raise AnalysisError('readinto gives %r' % (n,))
                    if n > size or len(b.items) != size:
                        out.append('the caller\'s buffer changes size')
                        break
                    if n == 0:
                        out.append('end')
                        break
                    if not all(isinstance(x, int) for x in b.items):
                        raise AnalysisError('readinto stores %r' % (b,))
                    got += bytes(b.items[:n])
                return got
            for p in ev.paths(thunk):
                what = 'reading %i at a time from %r' % (size, data)
                if cut is not None:
                    c.note('input', 'chunked:short', p.kind == 'raise' and
                           not p.value.endswith(('TypeError',
                                                 'IndexError')),
                           'a chunked body that is cut short gives %r (%s)'
                           % (p.value, what), f)
                    continue
                c.note('input', 'chunked:data', p.kind == 'return' and
                       p.value == b'abcde' and out == ['end'],
                       'gives %r %s (%s)' % (p.value, out, what), f)
                c.note('input', 'chunked:end', h.pos == len(whole),
                       'stops at byte %i, not at the end of the body (%s)' %
                       (h.pos, what), f)


def server(c):
    c.rep.rule('conserve', 'every byte read from a connection is handed to '
               'exactly one message, in order, in the unit asked for', 6)
    requests(c)
    splits(c)
    client(c)
    c.flush()


def wsgi(c):
    c.rep.rule('input', 'the input given to an application holds exactly '
               'the body of the request', 4)
    wrapper(c)
    chunked(c)
    c.flush()
