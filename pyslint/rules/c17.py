"""C17: sender and receiver of an HTTP message agree on its end"""

import ast

from ..peval import Hooks, Obj, PDict, PEval, PList, Raised, Sym
from ..repo import AnalysisError, Class, Const, Func
from ..rulebase import baseline

MSG = 'http.messages.'
SIZE = 4            # stands for io.DEFAULT_BUFFER_SIZE
CRLF = b'\r\n'


class Wire(Hooks):

    """Messages whose header table and body stream are modelled"""

    max_depth = 16
    max_while = 60
    max_paths = 20000

    def __init__(self, repo, te=None, cl=None, ctype=None, body=None,
                 raw=True, blocks=1, method=None):
        self.repo = repo
        self.te = te
        self.cl = cl
        self.ctype = ctype
        self.body = body        # content of the body stream
        self.raw = raw          # an io.RawIOBase, not just file-like
        self.blocks = blocks
        self.reset()

    def reset(self):
        self.head = {}
        if self.te is not None:
            self.head['transfer-encoding'] = ','.join(self.te).encode()
        if self.cl is not None:
            self.head['content-length'] = str(self.cl).encode()
        self.pos = 0
        self.nblock = self.blocks
        self.written = b''
        self.close = False
        self.done = 0

    def inline(self, ev, f, recv, args, kw):
        return True

    def attr(self, ev, base, name, fr):
        if name == 'DEFAULT_BUFFER_SIZE':
            return SIZE
        if isinstance(base, Sym):
            if base.op == 'te' and name == 'token':
                return base.args[0]
            if base.op == 'chunk' and name == 'size':
                return base.args[0]
            if base.op == 'buffered' and name == 'length':
                return len(self.body) if ev.decide('fits') else None
        return NotImplemented

    def compare(self, ev, op, a, b, fr):
        if isinstance(a, Obj) and isinstance(b, Obj) and all(
                x.cls.name == 'HTTPVersion' for x in (a, b)):
            x, y = (tuple(v.attrs.get(n) for n in ('major', 'minor'))
                    for v in (a, b))
            n = type(op).__name__
            if n in ('Is', 'IsNot'):
                return NotImplemented
            return {'Lt': x < y, 'LtE': x <= y, 'Gt': x > y, 'GtE': x >= y,
                    'Eq': x == y, 'NotEq': x != y}[n]
        n = type(op).__name__
        if n in ('Is', 'IsNot', 'Eq', 'NotEq') and (a is None or
                                                    b is None):
            if solid(b if a is None else a):
                return n in ('IsNot', 'NotEq')
        return NotImplemented

    def cond(self, ev, v, fr):
        if isinstance(v, Obj) and v.cls.name == 'HTTPVersion' or solid(v):
            return True
        return None

    def call(self, ev, name, fn, recv, args, kw, node, fr):
        a0 = args[0] if args else None
        if name in ('debug', 'info', 'warning', 'error', 'exception'):
            return None
        if name == 'get_header' and isinstance(recv, Obj) and args:
            return self.head.get(text(a0).lower())
        if name == 'has_header' and isinstance(recv, Obj):
            return text(a0).lower() in self.head
        if name == 'set_header' and isinstance(recv, Obj):
            k = text(a0).lower()
            v = args[1] if len(args) > 1 else kw.get('field_value')
            if v is None:
                self.head.pop(k, None)
            else:
                self.head[k] = text(v).encode() if not isinstance(
                    v, Sym) else v
            return None
        if name == 'list_from_str':
            return PList([Sym('te', t.strip())
                          for t in text(a0).split(',')])
        if name == 'str' and isinstance(a0, Sym) and a0.op == 'te':
            return a0.args[0]
        if name in ('is_string', 'is_text'):
            if isinstance(a0, (str, bytes)):
                return True
            if a0 is None or isinstance(a0, (PList, Sym)):
                return False
        if name == 'get_headerlist':
            return PList([])
        if name == 'set_connection':
            its = getattr(a0, 'items', a0) or ()
            self.close = 'close' in its
            return None
        if name == 'get_connection':
            return PList([], 'set')
        if name == 'get_content_type':
            return self.ctype
        if name == 'match_media_type' and a0 is self.ctype:
            return True
        if isinstance(recv, Sym) and recv == Sym('boundary'):
            return b'xyz'
        if name in ('GzipEncoder', 'GzipDecoder', 'ChunkedReader'):
            return Sym({'GzipEncoder': 'gzip', 'GzipDecoder': 'gunzip'}.get(
                name, 'unchunk'), a0)
        if name == 'BufferedStreamWrapper':
            return Sym('buffered', a0)
        if name == 'Chunk':
            return Sym('chunk', a0 if args else kw.get('size', 0))
        if name == 'from_str' and isinstance(a0, bytes):
            try:
                return Sym('chunk', int(a0, 16))
            except ValueError:
                raise Raised('http.grammar.BadSyntax', (), node)
        if isinstance(recv, Sym):
            if recv.op == 'chunk' and name == 'to_bytes':
                if isinstance(recv.args[0], int):
                    return b'%X' % recv.args[0]
            if stream(recv):
                return self.stream(ev, name, recv, args, node)
        if name == 'isinstance' and len(args) == 2 and isinstance(
                a0, Sym) and stream(a0):
            return self.raw
        if name == 'io_blocked':
            return True
        if name in ('_recv_header', 'recv_start'):
            ev.event(name, a0)
            return None
        if name == 'handle_headers':
            ev.event(name)
            return None
        if name == 'handle_message':
            self.done += 1
            return None
        return NotImplemented

    def stream(self, ev, name, recv, args, node):
        a0 = args[0] if args else None
        if name == 'read':
            left = self.body[self.pos:]
            if a0 is None or isinstance(a0, int) and a0 < 0:
                self.pos = len(self.body)
                return left
            if not isinstance(a0, int):
                raise AnalysisError("body read with an unknown size %r (line "
                                    "%s)" % (a0, node.lineno))
            left = left[:a0]
            if self.raw and self.nblock and a0:
                k = ev.choose(3 if len(left) > 1 else 2)
                if k:
                    self.nblock -= 1
                if k == 1:
                    return None
                if k == 2:
                    left = left[:1]
            self.pos += len(left)
            return left
        if name == 'write':
            if not isinstance(a0, bytes):
                raise AnalysisError("unknown data written to the body "
                                    "(line %s)" % node.lineno)
            n = len(a0)
            if self.raw and self.nblock and n:
                k = ev.choose(3 if n > 1 else 2)
                if k:
                    self.nblock -= 1
                if k == 1:
                    return None
                if k == 2:
                    n = 1
            self.written += a0[:n]
            return n if self.raw else None
        if name == 'flush':
            return None
        if name in ('seek', 'truncate') and isinstance(a0, int):
            self.pos = a0
            return a0
        return NotImplemented


def stream(v):
    while isinstance(v, Sym) and v.op in ('gzip', 'gunzip', 'unchunk',
                                          'buffered'):
        v = v.args[0]
    return isinstance(v, Sym) and v.op == 'body'


def solid(v):
    return isinstance(v, Sym) and (stream(v) or v.op in (
        'te', 'chunk', 'lock', 'ctype', 'boundary'))


def text(v):
    if isinstance(v, bytes):
        return v.decode('latin-1')
    if isinstance(v, str):
        return v
    raise AnalysisError('unknown header %r' % (v,))


class C17(object):

    def __init__(self, repo, rep):
        self.repo = repo
        self.rep = rep
        self.seen = {}

    # ---- helpers -----------------------------------------------------
    def evaluator(self, h):
        return PEval(self.repo, h)

    def proto(self, ev, name):
        if name is None:
            return None
        m = self.repo.module('pyslet.http.params')
        v = ev.ref(self.repo.lookup(m, name), name)
        if not isinstance(v, Obj) or not isinstance(
                v.attrs.get('minor'), int):
            raise AnalysisError('params.%s is not a known version' % name)
        return v

    def message(self, ev, h, cls, kind, sproto='HTTP_1p1',
                rproto='HTTP_1p1', method='POST', status=200):
        o = Obj(self.repo.cls(MSG + cls))
        a = o.attrs
        a.update(lock=Sym('lock'), keep_alive=True, body_started=False,
                 headers=PDict(), send_stream=None, recv_stream=None,
                 protocol=self.proto(ev, sproto))
        if kind is None:
            a.update(entity_body=None, body_len=None, body_start=None)
        else:
            a.update(entity_body=Sym('body'), body_start=0,
                     body_len=len(h.body) if kind == 'bytes' else None)
        if cls == 'Request':
            a.update(method=method, request_uri='/', response=None)
        else:
            r = Obj(self.repo.cls(MSG + 'Request'))
            r.attrs.update(method=method, protocol=self.proto(ev, rproto),
                           lock=Sym('lock'))
            a.update(request=r, status=status, reason='x')
        return o

    def call(self, ev, o, name, *args):
        f = self.repo.find_method(o.cls, name)
        if f is None:
            raise AnalysisError('%s has no %s' % (o.cls.name, name))
        self.used.add(f.qual)
        return ev.func(f, args, recv=o)

    def note(self, rule, inst, ok, msg, f, trace=()):
        """One verdict for each (rule, instance) over all paths"""
        old = self.seen.get((rule, inst))
        if old is None or old[0] and not ok:
            self.seen[(rule, inst)] = (ok, msg, f, trace)

    def flush(self):
        for (rule, inst), (ok, msg, f, trace) in sorted(self.seen.items()):
            if ok:
                self.rep.ok(rule, inst)
            else:
                self.rep.bad(rule, inst, msg, f.where, list(trace))
        self.seen = {}

    # ---- sending -----------------------------------------------------
    def send(self):
        rep = self.rep
        rep.rule('send', 'what the headers declare is what the body writer '
                 'sends: one of chunks, a count or the end of the '
                 'connection', 10)
        rep.rule('sendbody', 'a chunked body ends with the zero chunk and a '
                 'counted body has the declared number of bytes', 6)
        TES = (None, ('chunked',), ('gzip', 'chunked'), ('gzip',),
               ('identity',))
        n = 0
        for cls, method, status in (
                ('Request', 'GET', None), ('Request', 'HEAD', None),
                ('Request', 'DELETE', None), ('Request', 'POST', None),
                ('Response', 'GET', 100), ('Response', 'GET', 200),
                ('Response', 'GET', 204), ('Response', 'POST', 304),
                ('Response', 'HEAD', 200), ('Response', 'POST', 404)):
            for sp in ('HTTP_1p1', 'HTTP_1p0', None):
                for own in ('HTTP_1p1', 'HTTP_1p0'):
                    for rp in (('HTTP_1p1', 'HTTP_1p0')
                               if cls == 'Response' else ('HTTP_1p1',)):
                        if cls == 'Response' and sp is None or \
                                cls == 'Request' and own == 'HTTP_1p0':
                            continue
                        for kind in (None, 'bytes', 'empty', 'stream'):
                            for te in TES:
                                for cl in (None, 0, 4, 6, 8):
                                    self.one(cls, method, status, sp, own,
                                             rp, kind, te, cl)
                                    n += 1
        rep.stats['send_cases'] = n
        self.flush()

    def one(self, cls, method, status, sp, own, rp, kind, te, cl):
        h = Wire(self.repo, te, cl, body=b'' if kind == 'empty' else
                 b'abcdef', raw=kind == 'stream',
                 blocks=1 if kind == 'stream' else 0)
        ev = self.evaluator(h)
        states = []
        part = [None, []]

        def thunk(ev):
            h.reset()
            part[:] = [None, []]
            o = self.message(ev, h, cls, 'bytes' if kind == 'empty' else
                             kind, own, rp, method, status or 200)
            self.call(ev, o, 'start_sending', self.proto(ev, sp))
            self.call(ev, o, 'send_header')
            st = dict(o.attrs)
            st['head'] = dict(h.head)
            st['close'] = h.close
            sent = []
            part[:] = [st['head'], sent]
            for i in range(30):
                d = self.call(ev, o, 'send_body')
                if d is None:
                    continue
                if not isinstance(d, bytes):
                    raise AnalysisError('send_body returns %r' % (d,))
                if d == b'':
                    break
                sent.append(d)
            else:
                sent.append(None)
            st['sent'] = sent
            st['fits'] = ev.facts.get('fits')
            states.append(st)
            return len(states) - 1
        f = self.repo.find_method(self.repo.cls(MSG + cls),
                                  'send_transferlength')
        fb = self.repo.find_method(self.repo.cls(MSG + cls), 'send_body')
        nobody = cls == 'Response' and (
            status // 100 == 1 or status in (204, 304) or method == 'HEAD')
        what = '%s %s%s to %s, body %s, Transfer-Encoding %s, ' \
            'Content-Length %s' % (
                method, cls.lower(), '' if status is None else
                ' %i' % status, sp or 'an unknown server', kind,
                te and ', '.join(te), cl)
        key = '%s:%s' % (cls, 'nobody' if nobody else method
                         if cls == 'Request' else 'body')
        src = None if kind is None else b'' if kind == 'empty' else b'abcdef'
        bodiless = nobody or cls == 'Request' and method in (
            'GET', 'HEAD', 'DELETE')

        def thunk2(ev):
            parts.append(part)
            try:
                return thunk(ev)
            finally:
                parts[-1] = list(part)
        parts = []
        for n, p in enumerate(ev.paths(thunk2)):
            if p.kind == 'cut':
                raise AnalysisError('path too long: ' + what)
            if p.kind == 'raise':
                head, sent = parts[n]
                if te is None and not bodiless and kind != 'stream' and (
                        cl is None or cl == len(src or b'')):
                    self.note('send', key + ':accept', False, 'refused '
                              'with %s (%s)' % (p.value, what), f)
                if head is None:
                    continue
                wire = b''.join(x for x in sent if x)
                dcl = head.get('content-length')
                if dcl is not None:
                    dcl = int(text(dcl))
                    self.note('sendbody', key + ':count', len(wire) <= dcl
                              and (dcl > len(src or b'')),
                              '%i bytes are sent where %i are declared, '
                              'then %s is raised (%s)' % (
                                  len(wire), dcl, p.value, what), fb)
                continue
            st = states[p.value]
            hd = st['head']
            dte = hd.get('transfer-encoding')
            dte = None if dte is None else [
                x.strip() for x in text(dte).split(',')]
            dcl = hd.get('content-length')
            dcl = None if dcl is None else int(text(dcl))
            data = st['sent']

            def ck(rule, part, ok, msg, fn=f):
                self.note(rule, key + ':' + part, ok, '%s (%s)' % (
                    msg, what), fn)
            if None in data:
                ck('sendbody', 'ends', False, 'the body never ends', fb)
                continue
            wire = b''.join(data)
            ck('send', 'one', dte in (None, ['identity']) or dcl is None,
               'Transfer-Encoding and Content-Length are both declared')
            if nobody:
                ck('send', 'nobody', wire == b'',
                   'a body is sent where none is allowed')
                continue
            if cls == 'Request' and method in ('GET', 'HEAD', 'DELETE'):
                ck('send', 'nobody', wire == b'' and dte in (
                    None, ['identity']) and not dcl,
                   'a body is sent with a request that has none')
                continue
            chunked = dte is not None and dte[-1] == 'chunked'
            if sp != 'HTTP_1p1' or cls == 'Response' and (
                    rp == 'HTTP_1p0' or own == 'HTTP_1p0'):
                ck('send', 'old', dte is None, 'a transfer encoding is '
                   'declared to a recipient that may not know it')
            if te is None and not bodiless:
                self.note('send', key + ':accept', True, '', f)
            if chunked:
                got, end = unchunk(wire)
                ck('sendbody', 'zero', end, 'the chunked body does not end '
                   'with the zero chunk or a chunk has the wrong size: %r' %
                   wire, fb)
                if end:
                    ck('sendbody', 'whole', got == (src or b''),
                       'the chunks hold %r of %r' % (got, src), fb)
            elif dcl is not None:
                ck('sendbody', 'count', len(wire) == dcl,
                   '%i bytes are sent where %i are declared' % (
                       len(wire), dcl), fb)
                ck('sendbody', 'whole', wire == (src or b'')[
                    :dcl if kind == 'stream' else None], 'the body sent is %r' % wire, fb)
            elif cls == 'Request':
                ck('send', 'declared', not wire and not kind,
                   'the body of a request has no declared end')
            else:
                ck('send', 'close', st['keep_alive'] is False and
                   st['close'], 'a response with no declared end is sent '
                   'without closing the connection')
                ck('sendbody', 'whole', wire == (src or b''),
                   'the body sent is %r' % wire, fb)
            if chunked:
                w = 0
                b = st['transferbody']
                while isinstance(b, Sym) and b.op == 'gzip':
                    w += 1
                    b = b.args[0]
                ck('send', 'coded', w == dte.count('gzip'), 'the body is '
                   'compressed %i times but %i are declared' % (
                       w, dte.count('gzip')))

    # ---- receiving ---------------------------------------------------
    def receive(self):
        rep = self.rep
        rep.rule('length', 'a received message ends where its headers say: '
                 'no body for HEAD, 1xx, 204 and 304, then the transfer '
                 'encoding, then the content length', 6)
        rep.rule('recv', 'the reader takes exactly the bytes of the '
                 'message, passes on exactly its body and reports a body '
                 'cut short', 12)
        TES = (None, ('chunked',), ('gzip', 'chunked'), ('gzip',),
               ('identity',), ('identity', 'chunked'))
        n = 0
        for cls, method, status in (
                ('Request', 'POST', None), ('Request', 'GET', None),
                ('Response', 'GET', 100), ('Response', 'GET', 200),
                ('Response', 'GET', 204), ('Response', 'POST', 304),
                ('Response', 'HEAD', 200), ('Response', 'POST', 500)):
            for te in TES:
                for cl in (None, 0, 5):
                    for ct in (None, Sym('ctype')):
                        if ct is not None and status not in (None, 200):
                            continue
                        self.rlength(cls, method, status, te, cl, ct)
                        n += 1
        rep.stats['receive_cases'] = n
        self.flush()
        n = 0
        for raw in (True, False):
            for cls, method, status in (('Request', 'POST', None),
                                        ('Response', 'GET', 200),
                                        ('Response', 'HEAD', 200)):
                for te, cl in ((None, None), (None, 0), (None, 5),
                               (None, 1), (('chunked',), None),
                               (('chunked',), 3), (('identity',), 2)):
                    for cut in (None, 0, 1, 2, 3, 4):
                        n += self.dialogue(cls, method, status, te, cl,
                                           raw, cut)
        rep.stats['dialogues'] = n
        self.flush()

    def rlength(self, cls, method, status, te, cl, ct):
        h = Wire(self.repo, te, cl, ctype=ct, body=b'')
        ev = self.evaluator(h)
        states = []

        def thunk(ev):
            h.reset()
            o = self.message(ev, h, cls, None, method=method,
                             status=status or 200)
            self.call(ev, o, 'start_receiving')
            o.attrs['entity_body'] = o.attrs['transferbody'] = Sym('body')
            if cls == 'Response':
                o.attrs['status'] = status
            self.call(ev, o, 'recv_transferlength')
            states.append(dict(o.attrs))
            return len(states) - 1
        ps = ev.paths(thunk)
        f = self.repo.find_method(self.repo.cls(MSG + cls),
                                  'recv_transferlength')
        nobody = cls == 'Response' and (
            status // 100 == 1 or status in (204, 304) or method == 'HEAD')
        what = '%s %s%s with Transfer-Encoding %s, Content-Length %s' % (
            method, cls.lower(), '' if status is None else ' %i' % status,
            te and ', '.join(te), cl)
        coded = te is not None and te != ('identity',)
        for p in ps:
            def ck(part, ok, msg):
                self.note('length', '%s:%s' % (cls, part), ok,
                          '%s (%s)' % (msg, what), f)
            if p.kind == 'raise':
                ck('accept', not (nobody or not coded or
                                  te[-1] == 'chunked'),
                   'the message is refused: %s' % p.value)
                continue
            if p.kind == 'cut':
                raise AnalysisError('path too long: ' + what)
            st = states[p.value]
            c, ln = st['transferchunked'], st['transferlength']
            if nobody:
                ck('nobody', not c and ln == 0, 'a body is expected')
            elif coded:
                ck('coding', bool(c) == (te[-1] == 'chunked') and ln is None
                   and (cls == 'Response' or bool(c)),
                   'the transfer encoding does not decide the end: '
                   'chunked %s, length %s' % (c, ln))
                w = 0
                b = st['transferbody']
                while isinstance(b, Sym) and b.op == 'gunzip':
                    w += 1
                    b = b.args[0]
                if len(te) > 1:
                    ck('decode', w == te.count('gzip'), 'the body is '
                       'decompressed %i times' % w)
            elif cl is not None:
                ck('count', not c and ln == cl, 'the content length does '
                   'not decide the end: chunked %s, length %s' % (c, ln))
            elif cls == 'Request':
                ck('none', not c and ln == 0, 'a request without a length '
                   'is given a body')
            else:
                ck('none', not c and ln is None, 'a response without a '
                   'length does not end with the connection')

    def dialogue(self, cls, method, status, te, cl, raw, cut):
        """Feeds a message to the reader as its recv_mode asks for it.
        cut: number of body items after which the sender hangs up"""
        h = Wire(self.repo, te, cl, body=b'', raw=raw,
                 blocks=1 if raw else 0)
        ev = self.evaluator(h)
        c = self.repo.cls(MSG + 'Message')
        const = {}
        for n in ('RECV_HEADERS', 'RECV_LINE', 'RECV_ALL'):
            const[n] = ev.getattr(c, n, None)
            if not isinstance(const[n], int):
                raise AnalysisError('Message.%s is not a number' % n)
        nobody = method == 'HEAD' and cls == 'Response'
        chunked = te is not None and te[-1] == 'chunked'
        if nobody:
            items, body = [], b''
        elif chunked:
            items = [b'3' + CRLF, ('data', b'abc'), CRLF, b'2' + CRLF,
                     ('data', b'de'), CRLF, b'0' + CRLF, ('head',)]
            body = b'abcde'
        elif cl is not None:
            body = b'abcdef'[:cl]
            items = [('data', body)] if cl else []
        elif cls == 'Request':
            items, body = [], b''
        else:
            items, body = [('all', b'ab'), ('all', b'cde')], b'abcde'
        if cut is not None and cut >= len(items):
            return 0
        over = items[:cut] if cut is not None else items
        states = []

        def thunk(ev):
            h.reset()
            o = self.message(ev, h, cls, None, method=method,
                             status=status or 200)
            self.call(ev, o, 'start_receiving')
            o.attrs['entity_body'] = o.attrs['transferbody'] = Sym('body')
            if cls == 'Response':
                o.attrs['status'] = status
            wire = [b'start' + CRLF, ('head',)] + list(over)
            trouble = None
            closed = False
            for i in range(60):
                m = self.call(ev, o, 'recv_mode')
                if m is None:
                    break
                if m == 0:
                    self.call(ev, o, 'recv', None)
                    continue
                x = wire[0] if wire else None
                if x is None:
                    if closed:
                        trouble = 'reads on after the connection closed'
                        break
                    if not isinstance(m, int):
                        raise AnalysisError('recv_mode gives %r' % (m,))
                    if m > 0 or m == const['RECV_ALL']:
                        closed = True
                        self.call(ev, o, 'recv', b'')
                        continue
                    trouble = 'more'
                    break
                if m == const['RECV_LINE']:
                    if not isinstance(x, bytes):
                        trouble = 'asks for a line before %s' % (x,)
                        break
                    wire.pop(0)
                    self.call(ev, o, 'recv', x)
                elif m == const['RECV_HEADERS']:
                    if x != ('head',):
                        trouble = 'asks for headers before %s' % (x,)
                        break
                    wire.pop(0)
                    self.call(ev, o, 'recv', PList([CRLF]))
                elif m == const['RECV_ALL']:
                    if x[0] != 'all':
                        trouble = 'reads to the end of the connection'
                        break
                    wire.pop(0)
                    self.call(ev, o, 'recv', x[1])
                elif isinstance(m, int) and m > 0:
                    if not isinstance(x, tuple) or x[0] != 'data':
                        trouble = 'asks for %i bytes of data before %s' % (
                            m, x)
                        break
                    d = x[1]
                    if m > len(d):
                        trouble = 'asks for %i bytes where %i are left' % (
                            m, len(d))
                        break
                    if m > 1 and ev.choose(2):
                        m = 1
                    if m == len(d):
                        wire.pop(0)
                    else:
                        wire[0] = ('data', d[m:])
                    self.call(ev, o, 'recv', d[:m])
                else:
                    raise AnalysisError('recv_mode gives %r' % (m,))
            else:
                trouble = 'never finishes'
            states.append((trouble, h.written, list(wire), h.done,
                           closed))
            return len(states) - 1
        ps = ev.paths(thunk)
        f = self.repo.find_method(self.repo.cls(MSG + cls), 'recv')
        kind = 'nobody' if not body else 'chunked' if chunked else \
            'counted' if cl is not None else 'closed'
        what = '%s %s with Transfer-Encoding %s, Content-Length %s%s' % (
            method, cls.lower(), te and ', '.join(te), cl,
            '' if cut is None else ', cut after %i pieces' % cut)
        for p in ps:
            def ck(part, ok, msg):
                self.note('recv', '%s:%s:%s' % (cls, kind, part), ok,
                          '%s (%s)' % (msg, what), f)
            if p.kind == 'cut':
                raise AnalysisError('path too long: ' + what)
            if cut is not None and kind in ('chunked', 'counted'):
                done = p.kind == 'return' and states[p.value][3]
                if p.kind == 'raise':
                    ck('short', p.value.endswith(('Error', 'Exception')),
                       '')
                else:
                    ck('short', not done, 'a body that was cut short is '
                       'reported as complete')
                continue
            if p.kind == 'raise':
                ck('accept', False, 'the message is refused: ' + p.value)
                continue
            trouble, got, wire, done, closed = states[p.value]
            ck('end', trouble is None and not wire, 'the reader and the '
               'sender disagree on the end: %s, left over %s' % (
                   trouble, wire))
            want = body if cut is None else b''.join(
                x[1] for x in over)
            ck('body', got == want, 'the body passed on is %r, not %r' % (
                got, want))
            ck('done', done == 1, 'completion is reported %i times' % done)
        return 1

    # ---- header values -----------------------------------------------
    def values(self):
        rep = self.rep
        rep.rule('value', 'a content length is a plain number and chunked '
                 'is the last coding, applied once', 3)
        c = self.repo.cls(MSG + 'Message')
        f = self.repo.find_method(c, 'get_content_length')
        self.used.add(f.qual)
        for v, want in ((b'12', 12), (b' 7 ', 7), (b'0', 0), (b'-1', None),
                        (b'-0', None), (b'5, 5', None), (b'5, 7', None),
                        (b'abc', None), (b'1_0', None), (b'0x10', None)):
            h = Wire(self.repo)
            ev = self.evaluator(h)

            def thunk(ev):
                h.reset()
                h.head['content-length'] = v
                o = self.message(ev, h, 'Request', None)
                return self.call(ev, o, 'get_content_length')
            for p in ev.paths(thunk):
                if want is None:
                    self.note('value', 'length', p.kind == 'raise',
                              'Content-Length %r is read as %r' % (
                                  v, p.value), f)
                else:
                    self.note('value', 'length', p.kind == 'return' and
                              p.value == want, 'Content-Length %r gives %r'
                              % (v, p.value), f)
        for op, f in (('get', self.repo.find_method(
                c, 'get_transfer_encoding')), ('set', self.repo.find_method(
                    c, 'set_transfer_encoding'))):
            self.used.add(f.qual)
            for v in ('chunked, chunked', 'chunked, gzip',
                      'gzip, chunked, chunked', 'chunked, identity'):
                h = Wire(self.repo)
                ev = self.evaluator(h)

                def thunk(ev):
                    h.reset()
                    o = self.message(ev, h, 'Request', None)
                    if op == 'get':
                        h.head['transfer-encoding'] = v.encode()
                        return self.call(ev, o, 'get_transfer_encoding')
                    return self.call(ev, o, 'set_transfer_encoding', v)
                for p in ev.paths(thunk):
                    self.note('value', op, p.kind == 'raise',
                              'Transfer-Encoding "%s" is accepted' % v, f)
        self.flush()

    # ---- the server's read loop --------------------------------------
    def server(self):
        from .c17server import server
        server(self)

    def wsgi(self):
        from .c17server import wsgi
        wsgi(self)


def unchunk(b):
    """(content, True if it ends with the zero chunk and no more)"""
    out = b''
    while True:
        n, sep, b = b.partition(CRLF)
        if not sep:
            return out, False
        try:
            k = int(n.split(b';')[0], 16)
        except ValueError:
            return out, False
        if k == 0:
            return out, b == CRLF
        if len(b) < k + 2 or b[k:k + 2] != CRLF:
            return out, False
        out += b[:k]
        b = b[k + 2:]


def run(repo, rep):
    c = C17(repo, rep)
    c.used = set()
    rep.part(c.values)
    rep.part(c.send)
    rep.part(c.receive)
    rep.part(c.server)
    rep.part(c.wsgi)
    for q in sorted(c.used):
        rep.funcs.add(q)
