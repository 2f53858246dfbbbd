"""C27: paged results keep every option and lose or repeat nothing"""

import ast
import itertools
import re

from ..peval import Cut, Hooks, Obj, PDict, PEval, PList, Raised, Sym
from ..repo import AnalysisError, Class, Func
from ..rulebase import baseline

OPTS = ('filter', 'expand', 'select', 'orderby', 'top', 'skip',
        'skiptoken', 'inlinecount')


def opt_name(k):
    """Name of a system query option used as a dictionary key"""
    n = getattr(k, 'name', None)
    if n is None and isinstance(k, Sym):
        n = k.args[-1] if isinstance(k.args[-1], str) else None
    if n is None and isinstance(k, str):
        n = k
    return n


class Base(Hooks):

    max_depth = 14
    max_paths = 6000
    max_while = 60
    max_loop = 40

    def inline(self, ev, f, recv, args, kw):
        return f.qual not in baseline() or f.name in self.deep

    deep = ()

    def compare(self, ev, op, a, b, fr):
        if isinstance(op, (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)):
            for x, y in ((a, b), (b, a)):
                if y is None and isinstance(x, Sym) and x.op == 'opt':
                    return isinstance(op, (ast.IsNot, ast.NotEq))
                if y == 200 and isinstance(x, Sym):
                    return isinstance(op, ast.Eq)
        return NotImplemented

    def cond(self, ev, v, fr):
        if isinstance(v, Sym) and v.op == 'opt':
            return True
        return None


def plain(v):
    """The text of an option, with conversions to text removed"""
    while isinstance(v, Sym) and v.op == 'call' and \
            v.args[0] in ('to_text', 'str', 'text_type') and v.args[2]:
        v = v.args[2][0]
    return v


class Loc(Base):

    """Captures the options a link or a request is built from"""

    deep = ('get_next_page_location', 'next_skiptoken')

    def __init__(self, flags):
        self.flags = flags
        self.opts = []
        self.requests = []
        self.used = []

    def call(self, ev, name, fn, recv, args, kw, node, fr):
        if name == 'format_sys_query_options' and args:
            d = args[0]
            if not isinstance(d, PDict):
                raise AnalysisError('options are not a dictionary')
            o = dict((opt_name(k), v) for k, v in d.items)
            ev.event('options', o)
            return Sym('query', len(ev.path.events))
        if name in ('to_text', 'str', 'text_type') and len(args) == 1 and \
                isinstance(args[0], (str, int)):
            return str(args[0])
        if name == 'next_skiptoken' and isinstance(recv, Obj) and \
                recv.attrs.get('token') is not None:
            return recv.attrs['token']
        if name == 'get_location':
            return Sym('location')
        if name == 'ClientRequest':
            ev.event('request', args[0])
            raise Cut()
        if name == 'from_octets' and args:
            return Sym('uri', args[0])
        return NotImplemented


def contains(v, x):
    if v is x or (isinstance(v, Sym) and v == x):
        return True
    if isinstance(v, Sym):
        return any(contains(a, x) for a in v.args)
    if isinstance(v, (tuple, list)):
        return any(contains(a, x) for a in v)
    if isinstance(v, PList):
        return any(contains(a, x) for a in v.items)
    parts = getattr(v, 'parts', None)
    if parts is not None:
        return any(contains(a, x) for a in parts)
    return False


def option_attrs(sel, top=None, topmax=None):
    a = dict((n, Sym('opt', n) if n in sel else None)
             for n in ('filter', 'expand', 'select', 'orderby'))
    a.update(inlinecount='inlinecount' in sel, top=top, topmax=topmax,
             skip=None, skiptoken=None, nextSkiptoken='TOKEN')
    return a


def run(repo, rep):
    rep.rule('link', 'the next page link carries every option', 40)
    rep.rule('pages', 'following the links returns the requested entities '
             'once and in order', 100)
    rep.rule('sqlpages', 'the same for the SQL store', 100)
    rep.rule('order', 'the order of SQL pages ends with the key and the '
             'position is compared in the same order', 20)
    rep.rule('where', 'every query of a page starts at the position '
             'reached', 8)
    rep.rule('sort', 'entities are sorted by the key and then by the '
             'order asked for while a page is read', 4)
    rep.rule('client', 'the client sends every option with the request of '
             'a page', 20)
    rep.rule('server', 'the server applies every option before it reads a '
             'page', 8)
    rep.part(links, repo, rep)
    rep.part(pages, repo, rep)
    rep.part(sqlpages, repo, rep)
    rep.part(order, repo, rep)
    rep.part(where_skip, repo, rep)
    rep.part(sort, repo, rep)
    rep.part(client, repo, rep)
    rep.part(server, repo, rep)


def family(repo, c):
    out = [c]
    for k in out:
        out += [s for s in repo.subclasses.get(k.qual, ()) if s not in out]
    return out


def link_of(repo, cls, attrs):
    """Options of the next link of a collection, or None"""
    f = repo.find_method(cls, 'get_next_page_location')
    ev = PEval(repo, Loc(None))
    ps = ev.run(f, [], recv=lambda e: Obj(cls, dict(attrs)))
    res = []
    for p in ps:
        o = [x[1] for x in p.events if x[0] == 'options']
        if p.kind == 'raise':
            raise AnalysisError('next link raises ' + str(p.value))
        if p.value is None:
            res.append(None)
            continue
        if not o:
            raise AnalysisError('no options in the next link')
        res.append(o[-1])
    if len(res) != 1:
        # options that are not known fork: they have to agree
        raise AnalysisError('the next link depends on %r' % [
            p.facts for p in ps][:2])
    return res[0]


def links(repo, rep):
    c = repo.cls('odata2.core.EntityCollection')
    names = ('filter', 'expand', 'select', 'orderby', 'inlinecount')
    fs = set(repo.find_method(k, 'get_next_page_location')
             for k in family(repo, c))
    for f in fs:
        rep.funcs.add(f.qual)
        cls = f.cls
        for r in range(len(names) + 1):
            for sel in itertools.combinations(names, r):
                o = link_of(repo, cls, option_attrs(sel))
                label = '%s:%s' % (cls.name, '+'.join(sel) or 'none')
                miss = [n for n in sel if n not in (o or {})]
                extra = [n for n in (o or {}) if n not in sel and
                         n != 'skiptoken']
                wrong = [n for n in sel if n in (o or {}) and
                         n != 'inlinecount' and not contains(
                             o[n], Sym('opt', n))]
                if 'inlinecount' in sel and (o or {}).get(
                        'inlinecount') != 'allpages':
                    wrong.append('inlinecount')
                rep.check(o is not None and not miss and not extra and
                          not wrong and contains_token(o), 'link', label,
                          'the next link has %s' % (
                              '; '.join(filter(None, [
                                  miss and 'no ' + ', '.join(miss),
                                  extra and 'an unasked ' +
                                  ', '.join(extra),
                                  wrong and 'a wrong ' +
                                  ', '.join(wrong)])) or
                              'no position'), f.where)


def contains_token(o):
    v = o.get('skiptoken')
    return plain(v) == 'TOKEN'


# ---- pages of the generic implementation ------------------------------
class Pages(Base):

    deep = ('iterpage', 'next_skiptoken', 'set_page', 'page_generator',
            'EntityCollection', 'get_next_page_location')

    def __init__(self, n):
        self.n = n
        self.sorted = True

    def call(self, ev, name, fn, recv, args, kw, node, fr):
        if name == 'itervalues':
            if isinstance(recv, Obj) and recv.attrs.get('paging') is not \
                    True:
                self.sorted = False
            return PList(list(range(self.n)), 'list')
        return NotImplemented


def one(ps, what):
    if len(ps) != 1:
        raise AnalysisError('%s: %d paths %r' % (what, len(ps), ps[0].facts))
    p = ps[0]
    if p.kind == 'cut':
        raise AnalysisError('%s: cut' % what)
    return p


def follow(repo, cls, read, n, top, skip, topmax, limit, base=None):
    """Pages until there is no next link: (pages, problem)"""
    got = []
    state = dict(base or {}, top=top, skip=skip, skiptoken=None,
                 topmax=topmax)
    for i in range(limit):
        attrs, items, err = read(state)
        if err:
            return got, err
        got.append(items)
        o = link_of(repo, cls, dict(option_attrs(()), **dict(
            (k, v) for k, v in attrs.items()
            if k in ('top', 'topmax', 'skip', 'skiptoken',
                     'nextSkiptoken', 'token')))) \
            if attrs.get('nextSkiptoken') is not None else None
        if o is None:
            return got, None
        t = plain(o.get('top'))
        s = plain(o.get('skip'))
        tok = plain(o.get('skiptoken'))
        if tok is None:
            return got, 'the link has no position'
        state = dict(base or {}, topmax=topmax,
                     top=None if t is None else int(t),
                     skip=None if s is None else int(s), skiptoken=tok)
    return got, 'the links never end'


def judge(rep, rule, label, got, err, want, topmax, where):
    flat = [x for pg in got for x in pg]
    if err:
        rep.bad(rule, label, '%s (pages %r)' % (err, got[:4]), where)
    elif flat != want:
        rep.bad(rule, label, 'the pages %r do not make up %r' % (
            got, want), where)
    elif topmax is not None and any(len(pg) > topmax for pg in got):
        rep.bad(rule, label, 'a page has more than %d entities' % topmax,
                where)
    elif len(got) > 1 and not got[-1] and (
            topmax is None or len(want) % topmax):
        rep.bad(rule, label, 'the last link leads to an empty page',
                where)
    else:
        rep.ok(rule, label)


def pages(repo, rep):
    c = repo.cls('odata2.core.EntityCollection')
    base = repo.cls('odata2.csdl.EntityCollection')
    f = repo.find_method(base, 'iterpage')
    rep.funcs.add(f.qual)
    for n, top, skip, topmax in itertools.product(
            (0, 1, 3, 4, 5), (None, 0, 1, 2, 3, 4, 9), (None, 0, 2),
            (None, 1, 2)):
        h = Pages(n)
        ev = PEval(repo, h)
        holder = {}

        def read(state):
            def mk(e):
                o = Obj(c, dict(option_attrs(()), paging=False,
                                lastEntity=None, nextSkiptoken=None))
                o.attrs.update(state)
                holder['o'] = o
                return o
            p = one(ev.run(f, [], recv=mk), 'iterpage')
            if p.kind == 'raise':
                return None, None, 'raises %s' % p.value
            items = list(p.value.items) if isinstance(
                p.value, PList) else list(p.value)
            at = dict(holder['o'].attrs)
            t = one(ev.run(repo.find_method(c, 'next_skiptoken'), [],
                           recv=lambda e: Obj(c, at)), 'token')
            at['nextSkiptoken'] = t.value
            return at, items, None
        want = list(range(n))[skip or 0:]
        want = want if top is None else want[:top]
        got, err = follow(repo, c, read, n, top, skip, topmax, n + 3)
        label = 'n%s:top%s:skip%s:max%s' % (n, top, skip, topmax)
        judge(rep, 'pages', label, got, err, want, topmax, f.where)
        if top != 0:
            rep.check(h.sorted, 'sort', 'iterpage:' + label,
                      'a page is read without the paging flag', f.where)


# ---- pages of the SQL store -------------------------------------------
class Failed(AnalysisError):

    """The query of a page ends with an exception"""


class Sql(Base):

    """A table with rows (order value, key) in the right order"""

    deep = ('page_generator', 'next_skiptoken', 'set_page')

    def __init__(self, repo, rows, offset, long_from=None):
        self.repo = repo
        self.rows = rows
        self.offset = offset        # the database supports OFFSET
        self.long = long_from
        self.sv = repo.cls('odata2.csdl.StringValue')
        self.iv = repo.cls('odata2.csdl.Int32Value')

    def start(self):
        self.result = None
        self.skip = self.limit = None
        self.pos = 0
        self.use_skip = False
        self.parsed = None

    def val(self, c, v):
        return Obj(c, {'value': v})

    def call(self, ev, name, fn, recv, args, kw, node, fr):
        if name == 'expand_entities' and args:
            return args[0]
        if name == 'new_entity':
            return Obj(self.repo.cls('odata2.core.Entity'), {'row': None})
        if name == 'select_fields' and args:
            v = Obj(self.iv, {'entity': args[0]})
            return PList([('K', v)], 'list')
        if name == 'select_limit_clause':
            return (args[0], None)
        if name == 'limit_clause':
            if self.offset:
                self.skip = args[0] or 0
                self.limit = args[1]
                return (None, ' LIMIT')
            self.skip = 0
            self.limit = None
            return (args[0], '')
        if name == 'where_clause':
            self.use_skip = bool(kw.get('use_skip', args[3] if len(
                args) > 3 else False))
            return ''
        if name in ('orderby_cols', 'orderby_clause', 'join_clause'):
            return ''
        if name == 'SQLTransaction':
            return Sym('transaction')
        if name == 'execute':
            tok = self.coll.attrs.get('skiptoken')
            rows = list(range(len(self.rows)))
            if self.use_skip and tok is not None:
                vals = self.token_values(tok)
                rows = [i for i in rows if self.rows[i] > vals]
            rows = rows[self.skip or 0:]
            if self.limit is not None:
                rows = rows[:self.limit]
            self.result = rows
            return None
        if name == 'fetchone':
            if self.result is None:
                raise AnalysisError('no query')
            if not self.result:
                return None
            i = self.result.pop(0)
            return (('row', i),) + self.rows[i]
        if name == 'read_sql_value' and len(args) == 2:
            if isinstance(args[0], Obj) and isinstance(args[1], tuple):
                args[0].attrs['entity'].attrs['row'] = args[1][1]
            return None
        if name == 'new_from_sql_value':
            v = args[0]
            if isinstance(v, str):
                return self.val(self.sv, v)
            return self.val(self.iv, v)
        if name in ('set_from_value',) and isinstance(recv, Obj):
            recv.attrs['value'] = args[0]
            return None
        if name == 'format_literal':
            v = args[0]
            return repr(v.attrs['value'])
        if name == 'Parser' and args:
            return Obj(self.repo.cls('odata2.core.Parser'),
                       {'todo': PList([ast.literal_eval(x) for x in
                                       self.split(args[0])]), 'n': 0})
        if isinstance(recv, Obj) and recv.cls is self.repo.cls(
                'odata2.core.Parser'):
            t = recv.attrs['todo'].items
            if name == 'parse_uri_literal':
                v = t[recv.attrs['n']]
                recv.attrs['n'] += 1
                return self.val(self.sv if isinstance(v, str)
                                else self.iv, v)
            if name == 'require_production':
                return args[0]
            if name == 'parse':
                return recv.attrs['n'] < len(t)
            if name == 'match_end':
                return recv.attrs['n'] >= len(t)
            return None
        if name == 'ParamsClass':
            return Sym('params')
        if name == 'islice' and len(args) > 1:
            v = args[0]
            v = list(v.items if isinstance(v, PList) else v)
            return PList(v[slice(*args[1:])])
        if name == 'next' and len(args) == 1 and isinstance(
                args[0], PList) and args[0].items:
            return args[0].items.pop(0)
        if name == 'rollback' and isinstance(recv, Sym) and \
                recv.op == 'transaction':
            raise Failed('the query fails: %r' % (args,))
        if name in ('begin', 'commit', 'close', 'info', 'debug'):
            return None
        if name in ('to_text',):
            return Sym('text')
        return NotImplemented

    def split(self, s):
        parts = getattr(s, 'parts', (s,))
        if not all(isinstance(x, str) for x in parts):
            raise AnalysisError('the position %r is not known' % (s,))
        return re.findall(r"'[^']*'|[^,]+", ''.join(parts))

    def token_values(self, tok):
        vals = [o.attrs['value'] for o in (
            tok.items if isinstance(tok, PList) else tok)]
        return tuple(vals[:len(self.rows[0])])

    def cond(self, ev, v, fr):
        if isinstance(v, Obj) and 'value' in v.attrs:
            return v.attrs['value'] is not None
        return None

    def attr(self, ev, base, name, fr):
        if isinstance(base, Sym) and base.op == 'transaction' and \
                name == 'cursor':
            return Sym('cursor')
        return NotImplemented


def sqlpages(repo, rep):
    c = repo.cls('odata2.sqlds.SQLEntityCollection')
    f = repo.find_method(c, 'iterpage')
    setp = repo.find_method(c, 'set_page')
    nxt = repo.find_method(c, 'next_skiptoken')
    rep.funcs.update((f.qual, setp.qual, nxt.qual))
    failed = []
    total = 0
    for n, top, skip, topmax, off, lng in itertools.product(
            (0, 1, 3, 4, 5), (None, 0, 1, 2, 3, 4, 9), (None, 0, 2),
            (None, 1, 2), (True, False), (None, 0, 1)):
        if lng is not None and (topmax is None or n < 3):
            continue
        text = 'x' * 600
        rows = [(('a%d' % i) + (text if lng is not None and i >= lng
                                else ''), i) for i in range(n)]
        h = Sql(repo, rows or [('', 0)], off)
        if not rows:
            h.rows = []
            h.token_values = lambda tok: ()
        ev = PEval(repo, h)
        holder = {}

        def obj():
            a = dict(option_attrs(()), nextSkiptoken=None,
                     container=Sym('container'),
                     connection=Sym('connection'), paging=False,
                     table_name='T', orderNames=PList(
                         [('o_1', 1), ('K', 1)]),
                     orderby=PList([(Sym('expr'), 1)]),
                     entity_set=Obj(repo.cls('odata2.csdl.EntitySet'),
                                    {'keys': PList(['K'])}))
            return Obj(c, a)

        def read(state):
            def go(e):
                h.start()
                o = obj()
                o.attrs['topmax'] = state['topmax']
                holder['o'] = h.coll = o
                e.func(setp, [state['top'], state['skip'],
                              state['skiptoken']], {}, o)
                r = e.func(f, [], {}, o)
                items = list(r.items if isinstance(r, PList) else r)
                return (tuple(x.attrs['row'] for x in items),
                        e.func(nxt, [], {}, o))
            p = one(ev.paths(go), 'page')
            if p.kind == 'raise':
                return None, None, 'raises %s' % p.value
            at = dict(holder['o'].attrs)
            at['nextSkiptoken'] = at['token'] = p.value[1]
            at.pop('orderby', None)
            if at.get('skiptoken') is not None:
                at['skiptoken'] = None
            return at, list(p.value[0]), None
        want = list(range(n))[skip or 0:]
        want = want if top is None else want[:top]
        label = 'n%s:top%s:skip%s:max%s:%s:%s' % (
            n, top, skip, topmax, 'offset' if off else 'count', lng)
        total += 1
        try:
            got, err = follow(repo, c, read, n, top, skip, topmax, n + 3)
        except Failed as e:
            failed.append((label, str(e)))
            continue
        judge_sql(rep, label, got, err, want, topmax, f.where)
    if 2 * len(failed) > total:
        raise AnalysisError(failed[0][1])
    for label, text in failed:
        rep.bad('sqlpages', label, text, f.where)


def judge_sql(rep, label, got, err, want, topmax, where):
    flat = [x for pg in got for x in pg]
    if err:
        rep.bad('sqlpages', label, '%s (pages %r)' % (err, got[:4]), where)
    elif flat != want:
        rep.bad('sqlpages', label, 'the pages %r do not make up %r' % (
            got, want), where)
    elif topmax is not None and any(len(pg) > topmax for pg in got):
        rep.bad('sqlpages', label,
                'a page has more than %d entities' % topmax, where)
    else:
        rep.ok('sqlpages', label)


# ---- the order of SQL pages -------------------------------------------
class Order(Base):

    deep = ('set_orderby', 'orderby_clause', 'orderby_cols',
            'where_skiptoken_clause')

    def call(self, ev, name, fn, recv, args, kw, node, fr):
        if name == 'set_page':
            return None
        if name == 'sql_expression' and args:
            return '<%s>' % args[0].args[0]
        if name == 'prepare_sql_value' and args:
            return args[0]
        if name == 'add_param' and args:
            return ':%s' % args[0].args[0]
        if name == 'get' and isinstance(recv, Sym) and len(args) == 2:
            return args[1]
        return NotImplemented

    def attr(self, ev, base, name, fr):
        return NotImplemented


def order(repo, rep):
    c = repo.cls('odata2.sqlds.SQLEntityCollection')
    seto = repo.find_method(c, 'set_orderby')
    clause = repo.find_method(c, 'orderby_clause')
    cols = repo.find_method(c, 'orderby_cols')
    skipc = repo.find_method(c, 'where_skiptoken_clause')
    rep.funcs.update(f.qual for f in (seto, clause, cols, skipc))
    for exprs in ((), (1,), (-1,), (1, -1), (-1, 1), (1, 1)):
        for keys in (('K',), ('K', 'L')):
            label = 'order:%r:%s' % (exprs, ','.join(keys))
            h = Order()
            ev = PEval(repo, h)
            mangled = PDict([(('S', k), k) for k in keys])
            ob = PList([(Sym('e', 'e%d' % i), d)
                        for i, d in enumerate(exprs)]) if exprs else None

            def go(e):
                o = Obj(c, {
                    'entity_set': Obj(repo.cls('odata2.csdl.EntitySet'), {
                        'name': 'S', 'keys': PList(list(keys))}),
                    'container': Obj(repo.cls(
                        'odata2.sqlds.SQLEntityContainer'),
                        {'mangled_names': mangled}),
                    'table_name': 'T', 'orderby': None,
                    'orderNames': PList([]), 'skiptoken': None})
                e.func(seto, [ob], {}, o)
                names = [tuple(x) for x in o.attrs['orderNames'].items]
                text = e.func(clause, [], {}, o)
                cl = PList(['X'])
                e.func(cols, [cl, Sym('params'), True], {}, o)
                o.attrs['skiptoken'] = PList([
                    Sym('v', i) for i in range(len(names))])
                w = PList([])
                e.func(skipc, [w, Sym('params')], {}, o)
                return names, text, tuple(cl.items), tuple(w.items)
            p = one(ev.paths(go), 'order')
            if p.kind == 'raise':
                rep.bad('order', label, 'raises %s' % p.value, seto.where)
                continue
            names, text, cl, w = p.value
            want = ['T.' + k for k in keys]
            rep.check([x[0] for x in names][len(exprs):] == want and
                      [x[1] for x in names] == list(exprs) + [1] *
                      len(keys), 'order', label + ':names',
                      'the order is by %r' % (names,), seto.where)
            m = re.match(r'^ ORDER BY (.*?) $', text or '')
            got = [tuple(x.split()) for x in m.group(1).split(',')] if \
                m else []
            rep.check(got == [(a, 'DESC' if d < 0 else 'ASC')
                              for a, d in names], 'order',
                      label + ':clause', 'the clause is %r' % text,
                      clause.where)
            tail = [x.split(' AS ')[-1] for x in cl[1:]]
            rep.check(tail == [x[0] for x in names] and all(
                cl[1 + i] == '<e%d> AS %s' % (i, names[i][0])
                for i in range(len(exprs))), 'order', label + ':columns',
                'the columns of the position are %r' % (cl[1:],),
                cols.where)
            rep.check(len(w) == 1 and lexicographic(
                w[0], [('<e%d>' % i, d) for i, d in enumerate(exprs)] +
                [(k, 1) for k in want]), 'order', label + ':position',
                'the position is tested by %r' % (w,), skipc.where)


TOK = re.compile(r"\s*(\(|\)|<e\d+>|T\.\w+|:\d+|OR\b|AND\b|>=|<=|<|>|=)")


def lexicographic(text, names):
    """True if the expression is true of the rows after a position"""
    toks = []
    i = 0
    text = text.strip()
    while i < len(text):
        m = TOK.match(text, i)
        if not m:
            raise AnalysisError('cannot read %r' % text)
        toks.append(m.group(1))
        i = m.end()
        while i < len(text) and text[i] == ' ':
            i += 1
    idx = dict((n, i) for i, (n, d) in enumerate(names))
    out = []
    for t in toks:
        if t in idx:
            out.append('r[%d]' % idx[t])
        elif t[0] == ':':
            out.append('v[%s]' % t[1:])
        elif t == '=':
            out.append('==')
        elif t in ('OR', 'AND'):
            out.append(t.lower())
        elif t[0] in '<T' and len(t) > 2:
            return False
        else:
            out.append(t)
    try:
        tree = ast.parse(' '.join(out), mode='eval').body
    except SyntaxError:
        return False
    n = len(names)
    for v in itertools.product(range(3), repeat=n):
        for r in itertools.product(range(3), repeat=n):
            a = tuple(x * d for x, (k, d) in zip(r, names))
            b = tuple(x * d for x, (k, d) in zip(v, names))
            try:
                if bool(logic(tree, r, v)) != (a > b):
                    return False
            except IndexError:
                return False
    return True


def logic(t, r, v):
    if isinstance(t, ast.BoolOp):
        vals = [logic(x, r, v) for x in t.values]
        return all(vals) if isinstance(t.op, ast.And) else any(vals)
    if isinstance(t, ast.Compare) and len(t.ops) == 1:
        a, b = logic(t.left, r, v), logic(t.comparators[0], r, v)
        op = t.ops[0]
        return {ast.Gt: a > b, ast.Lt: a < b, ast.Eq: a == b,
                ast.GtE: a >= b, ast.LtE: a <= b}[type(op)]
    if isinstance(t, ast.Subscript):
        s = r if t.value.id == 'r' else v
        return s[t.slice.value]
    raise AnalysisError('cannot read an expression')


class Where(Base):

    deep = ('where_clause',)

    def call(self, ev, name, fn, recv, args, kw, node, fr):
        if name == 'where_skiptoken_clause':
            ev.event('skip', args[0])
            if isinstance(args[0], PList):
                args[0].items.append('SKIP')
            return None
        if name == 'sql_expression':
            return 'FILTER'
        if name in ('where_entity_clause', 'reset_joins'):
            return None
        if name == 'dict_items':
            return PList([])
        return NotImplemented


def where_skip(repo, rep):
    c = repo.cls('odata2.sqlds.SQLCollectionBase')
    seen = set()
    for k in family(repo, c):
        f = repo.find_method(k, 'where_clause')
        if f in seen:
            continue
        seen.add(f)
        rep.funcs.add(f.qual)
        for tok in (True, False):
            for use in (True, False):
                for flt in (True, False):
                    ev = PEval(repo, Where())

                    def mk(e):
                        return Obj(f.cls, {
                            'filter': Sym('opt', 'filter') if flt
                            else None,
                            'skiptoken': PList([1]) if tok else None,
                            '_joins': PDict([('x', 1)]),
                            '_source_alias': 'A', 'atable_name': 'B',
                            'aset_name': 'C', 'from_nav_name': 'N',
                            'toNavName': 'M'})
                    ps = ev.run(f, [None, Sym('params')],
                                {'use_filter': True, 'use_skip': use},
                                recv=mk)
                    label = '%s:%s%s%s' % (f.short, 'token ' * tok,
                                           'use ' * use, 'filter' * flt)
                    for p in ps:
                        if p.kind == 'cut':
                            raise AnalysisError('where clause')
                        t = p.value if isinstance(p.value, str) else \
                            repr(p.value)
                        n = len([e for e in p.events if e[0] == 'skip'])
                        want = 1 if tok and use else 0
                        rep.check(p.kind == 'return' and n == want and
                                  ('SKIP' in t) == bool(want) and
                                  ('FILTER' in t) == flt, 'where', label,
                                  'the query is restricted by %r' % t,
                                  f.where)


# ---- sorting in memory ------------------------------------------------
class Sort(Base):

    deep = ('order_entities',)

    def call(self, ev, name, fn, recv, args, kw, node, fr):
        if name == 'key' and isinstance(recv, Obj):
            return recv.attrs['_key']
        if name == 'calculate_order_key' and len(args) == 2:
            return args[0].attrs['vals'][args[1].args[0]]
        if name == 'sort' and isinstance(recv, PList):
            k = kw.get('key') or (args[0] if args else None)
            keys = [ev.apply_key(k, x, fr, node) for x in recv.items]
            rev = kw.get('reverse', False)
            if not all(isinstance(x, (int, tuple)) for x in keys) or \
                    not isinstance(rev, bool):
                raise AnalysisError('sort keys are not known: %r' % keys)
            idx = sorted(range(len(keys)), key=lambda i: keys[i],
                         reverse=rev)
            recv.items[:] = [recv.items[i] for i in idx]
            return None
        if name == 'sorted' and args and isinstance(args[0], PList):
            k = kw.get('key')
            keys = [ev.apply_key(k, x, fr, node) for x in args[0].items]
            idx = sorted(range(len(keys)), key=lambda i: keys[i],
                         reverse=kw.get('reverse', False))
            return PList([args[0].items[i] for i in idx])
        return NotImplemented


class SortEval(PEval):

    def apply_key(self, k, x, fr, node):
        if k is None:
            return x
        return self.callv(k, [x], {}, node, fr, 'key_function')


def sort(repo, rep):
    c = repo.cls('odata2.csdl.EntityCollection')
    f = repo.find_method(c, 'order_entities')
    rep.funcs.add(f.qual)
    ents = [(3, (1, 5)), (1, (2, 5)), (2, (1, 7)), (4, (2, 5)),
            (0, (1, 5))]
    for paging in (True, False):
        for rules in ((), ((0, 1),), ((0, -1),), ((0, 1), (1, -1)),
                      ((1, -1), (0, -1))):
            ev = SortEval(repo, Sort())

            def go(e):
                o = Obj(c, {'paging': paging, 'orderby': PList(
                    [(Sym('rule', i), d) for i, d in rules])
                    if rules else None})
                lst = PList([Obj(repo.cls('odata2.core.Entity'),
                                 {'_key': k, 'vals': v})
                             for k, v in ents])
                r = e.func(f, [lst], {}, o)
                return [x.attrs['_key'] for x in r.items]
            p = one(ev.paths(go), 'sort')
            if p.kind == 'raise':
                rep.bad('sort', 'order:%s:%r' % (paging, rules),
                        'raises %s' % p.value, f.where)
                continue
            d = dict(ents)
            rank = [tuple(d[k][i] * s for i, s in rules) for k in p.value]
            ok = rank == sorted(rank) and sorted(p.value) == sorted(d)
            if paging:
                full = [r + (k,) for r, k in zip(rank, p.value)]
                ok = ok and full == sorted(full)
            rep.check(ok, 'sort', 'order:%s:%r' % (paging, rules),
                      'the keys come out as %r' % (p.value,), f.where)


# ---- the client -------------------------------------------------------
class Req(Loc):

    deep = ('iterpage', 'entity_generator', '__getitem__', '__len__')

    def __init__(self):
        Loc.__init__(self, None)

    def inline(self, ev, f, recv, args, kw):
        return f.qual not in baseline()

    def call(self, ev, name, fn, recv, args, kw, node, fr):
        if name == 'Document':
            return Sym('doc')
        if name == 'isinstance' and len(args) == 2 and isinstance(
                args[0], Sym):
            return str(getattr(args[1], 'name', '')) == 'Feed' or \
                'Feed' in str(args[1])
        return Loc.call(self, ev, name, fn, recv, args, kw, node, fr)


def client(repo, rep):
    base = repo.cls('odata2.client.ClientCollection')
    table = {
        'entity_generator': ('filter', 'expand', 'select', 'orderby'),
        'iterpage': ('filter', 'expand', 'select', 'orderby', 'top',
                     'skip', 'skiptoken'),
        '__getitem__': ('filter', 'expand', 'select'),
        '__len__': ('filter',),
    }
    seen = set()
    for c in family(repo, base):
        for name, names in sorted(table.items()):
            f = repo.find_method(c, name)
            if f is None or f in seen:
                continue
            seen.add(f)
            rep.funcs.add(f.qual)
            for sel in [()] + [(n,) for n in names] + [names]:
                ev = PEval(repo, Req())
                for many in (True, False):
                    if not many and 'Navigation' not in f.cls.name:
                        continue

                    def mk(e):
                        a = option_attrs(())
                        for n in sel:
                            a[n] = Sym('opt', n)
                        a.update(base_uri=Sym('base'),
                                 client=Sym('client'),
                                 isCollection=many, nextSkiptoken=None)
                        return Obj(f.cls, a)
                    args = [Sym('key')] if name == '__getitem__' else []
                    ps = ev.run(f, args, recv=mk)
                    label = '%s:%s:%s' % (f.short, '+'.join(sel) or
                                          'none', many)
                    want = [n for n in sel if many or n not in (
                        'orderby', 'top', 'skip', 'skiptoken')]
                    check_requests(rep, label, f, ps, want, names)


def check_requests(rep, label, f, ps, want, names):
    n = 0
    bad = None
    for p in ps:
        opts = None
        first = True
        for e in p.events:
            if e[0] == 'options':
                opts = e[1]
            elif e[0] == 'request' and first:
                n += 1
                first = False
                miss = [x for x in want if not contains_opt(opts, x)]
                extra = [x for x in (opts or {}) if x not in want and
                         not (f.name == '__getitem__' and x == 'filter')]
                if miss:
                    bad = 'a request without %s' % ', '.join(miss)
                elif extra:
                    bad = 'a request with an unasked %s' % ', '.join(
                        str(x) for x in extra)
                elif opts is not None and opts and not has_query(e[1]):
                    bad = 'the options are not part of the request'
    if not n:
        # handed to the class above
        rep.ok('client', label)
        return
    rep.check(bad is None, 'client', label, bad or '', f.where)


def contains_opt(opts, x):
    return bool(opts) and x in opts and contains(opts[x], Sym('opt', x))


def has_query(v):
    if isinstance(v, Sym):
        return v.op == 'query' or any(has_query(a) for a in v.args)
    if isinstance(v, (tuple, list)):
        return any(has_query(a) for a in v)
    parts = getattr(v, 'parts', None)
    return parts is not None and any(has_query(a) for a in parts)


# ---- the server -------------------------------------------------------
class Serve(Base):

    def __init__(self, repo):
        self.repo = repo

    deep = ('handle_request', 'expand_resource', 'return_entity_collection')

    def call(self, ev, name, fn, recv, args, kw, node, fr):
        coll = isinstance(recv, Obj) and recv.attrs.get('resource')
        if coll:
            ev.event('coll', name, tuple(args), dict(kw))
            return Sym('result', name)
        if name == 'get_resource':
            return (ev.coll, None)
        if name in ('return_entity_collection', 'return_count',
                    'return_links'):
            if name == 'return_entity_collection':
                ev.event('read')
                return NotImplemented
            return Sym('response')
        if name == 'Feed' and any(a is ev.coll for a in args):
            ev.event('out')
            return Sym('feed')
        if name == 'isinstance' and args and args[0] is ev.coll:
            cs = args[1] if isinstance(args[1], tuple) else (args[1],)
            return any(isinstance(k, Class) and self.repo.is_subclass(
                ev.coll.cls, k.qual) for k in cs)
        if name == 'get' and args and isinstance(recv, Sym) and \
                'sys_query_options' in repr(recv):
            return Sym('opt', opt_name(args[0]))
        if name == 'upper':
            return NotImplemented
        return NotImplemented

    def compare(self, ev, op, a, b, fr):
        if isinstance(op, (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)):
            eq = isinstance(op, (ast.Is, ast.Eq))
            for x, y in ((a, b), (b, a)):
                if isinstance(x, Sym) and x.op == 'opt':
                    if y is None:
                        return not eq
                if isinstance(x, Sym) and 'path_option' in repr(x):
                    return not eq
        return NotImplemented


def server(repo, rep):
    c = repo.cls('odata2.server.Server')
    f = repo.find_method(c, 'handle_request')
    rep.funcs.add(f.qual)
    h = Serve(repo)
    ev = PEval(repo, h)

    def go(e):
        e.coll = Obj(repo.cls('odata2.core.EntityCollection'),
                     {'resource': True})
        return e.func(f, [Sym('request'), PDict([
            ('REQUEST_METHOD', 'GET')]), Sym('start'), PList([])], {},
            Obj(c, {'topmax': 100}))
    ps = ev.paths(go)
    n = 0
    bad = {}
    for p in ps:
        names = [e[1] for e in p.events if e[0] == 'coll']
        reads = [i for i, e in enumerate(p.events) if e[0] == 'out' or (
            e[0] == 'coll' and e[1] in (
                'generate_entity_set_in_json', 'iterpage', 'itervalues'))]
        if not reads or not any(e[0] == 'read' for e in p.events):
            continue
        if p.kind != 'return':
            continue
        n += 1
        cut = reads[0] if reads else len(p.events)
        ev_ = p.events[:cut]
        calls = [(e[1], e[2], e[3]) for e in ev_ if e[0] == 'coll']
        pos = dict((x[0], i) for i, x in enumerate(calls))

        def need(name, *opts):
            if name not in pos:
                bad[name] = '%s is not called' % name
                return
            a = list(calls[pos[name]][1]) + list(
                calls[pos[name]][2].values())
            for o in opts:
                if not any(contains(x, Sym('opt', o)) for x in a):
                    bad[name + o] = '%s does not get %s' % (name, o)
        need('set_filter', 'filter')
        need('set_orderby', 'orderby')
        need('set_expand', 'expand', 'select')
        need('set_page', 'top', 'skip', 'skiptoken')
        need('set_inlinecount')
        need('set_topmax')
        a = calls[pos['set_page']] if 'set_page' in pos else None
        if a is not None:
            for i, o in enumerate(('top', 'skip', 'skiptoken')):
                v = a[1][i] if i < len(a[1]) else a[2].get(o)
                if not contains(v, Sym('opt', o)):
                    bad['set_page' + o] = 'set_page: %s is not %s' % (
                        i, o)
            for s in ('set_filter', 'set_orderby'):
                if s in pos and pos[s] > pos['set_page']:
                    bad['late' + s] = '%s resets the page' % s
    if not n:
        raise AnalysisError('no page is read')
    for name in ('set_filter', 'set_orderby', 'set_expand', 'set_page',
                 'set_inlinecount', 'set_topmax', 'late'):
        m = [v for k, v in bad.items() if k.startswith(name)]
        rep.check(not m, 'server', name, '; '.join(m), f.where)
    rep.stats['page_request_paths'] = n
