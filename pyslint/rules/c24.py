"""C24: the identifier table of a document matches its element tree"""

import ast
import itertools

from ..peval import Cut, Hooks, Obj, PDict, PEval, PList, Raised, Sym
from ..repo import AnalysisError, Class, Func
from ..rulebase import baseline

DOC = 'xml.structures.Document'
ELEM = 'xml.structures.Element'
CLASH = 'XMLIDClashError'


class Tree(Hooks):

    """Follows the code of the document model itself"""

    max_depth = 24
    max_paths = 400
    max_loop = 40

    def __init__(self, repo, follow=()):
        self.repo = repo
        self.follow = follow

    def inline(self, ev, f, recv, args, kw):
        return f.module.name.endswith('xml.structures') or \
            f.qual not in baseline() or f.qual in self.follow

    def call(self, ev, name, fn, recv, args, kw, node, fr):
        if name in ('is_valid_name', 'set_base', 'get_base', 'warn',
                    'set_xmlname', 'add_data'):
            return {'is_valid_name': True}.get(name)
        if name == '_find_factory' and isinstance(recv, Obj) and \
                len(args) == 1 and isinstance(args[0], Class):
            for k in self.repo.mro(args[0]):
                if isinstance(k, Class) and (k.name in recv.attrs or
                                             self.member(recv, k.name)):
                    return k.name
            return None
        if name in ('to_text', 'force_text') and len(args) == 1 and \
                isinstance(args[0], str):
            return args[0]
        if name == 'hasattr' and len(args) == 2 and isinstance(
                args[0], Class):
            return any(isinstance(k, Class) and (
                args[1] in k.attrs or args[1] in k.methods)
                for k in self.repo.mro(args[0]))
        if name in ('is_empty', 'is_mixed') and isinstance(recv, Obj):
            return name == 'is_mixed'
        if name == 'is_text' and len(args) == 1:
            return isinstance(args[0], str)
        return NotImplemented

    def attr(self, ev, base, name, fr):
        if isinstance(base, Obj) and name in ('idTable', 'id', 'parent',
                                              '_children', 'root') and \
                name not in base.attrs:
            raise Raised('builtins.AttributeError', (name,), None)
        return NotImplemented

    def member(self, recv, name):
        return any(isinstance(k, Class) and (
            name in k.attrs or name in k.methods)
            for k in self.repo.mro(recv.cls))

    def cond(self, ev, v, fr):
        if isinstance(v, Obj):
            return True
        return None


def kids(o):
    """The elements in the members of an element or document"""
    out = []
    for n, v in sorted(o.attrs.items()):
        if n == 'parent' or n == 'idTable':
            continue
        for x in (v.items if isinstance(v, PList) else [v]):
            if isinstance(x, Obj) and 'parent' in x.attrs and \
                    not any(x is y for y in out):
                out.append(x)
    return out


def below(o):
    out = []
    for k in kids(o):
        out.append(k)
        out += below(k)
    return out


def name_of(o):
    return o.attrs.get('tag', '?')


class World(object):

    """A document r(a(b), c) and an orphan o(p)"""

    def __init__(self, ev, repo, ids):
        self.ev = ev
        self.repo = repo
        self.E = repo.cls(ELEM)
        self.D = repo.cls(DOC)
        self.doc = ev.construct(self.D, [], {}, None, None)
        self.e = {}
        self.add('r', self.doc)
        self.add('a', self.e['r'])
        self.add('b', self.e['a'])
        self.add('c', self.e['r'])
        self.add('o', None)
        self.add('p', self.e['o'])
        for t, i in ids.items():
            self.m(self.e[t], 'set_id', i)

    def add(self, tag, parent):
        if parent is None:
            x = self.ev.construct(self.E, [None], {}, None, None)
        else:
            # elements are mixed with text
            if isinstance(parent.attrs.get('_children'), PList):
                parent.attrs['_children'].items.append('text')
            x = self.m(parent, 'add_child', self.E)
        if not isinstance(x, Obj):
            raise AnalysisError('add_child gives %r' % (x,))
        x.attrs['tag'] = tag
        self.e[tag] = x

    def m(self, recv, name, *args):
        f = self.repo.find_method(recv.cls, name)
        if f is None:
            raise AnalysisError('no %s' % name)
        return self.ev.func(f, list(args), {}, recv)


def table(doc):
    t = doc.attrs.get('idTable')
    if not isinstance(t, PDict):
        raise AnalysisError('the identifier table is %r' % (t,))
    return dict(t.items)


def problem(doc):
    """How the table differs from the tree, or None"""
    t = table(doc)
    seen = {}
    for x in below(doc):
        i = x.attrs.get('id')
        if i is None:
            continue
        if i in seen:
            return 'the tree has two elements %s' % i
        seen[i] = x
    for i, x in seen.items():
        if i not in t:
            return 'the table has no %s' % i
        if t[i] is not x:
            return '%s in the table is another element' % i
    for i in t:
        if i not in seen:
            return 'the table still has %s' % i
    return None


def links(doc, elems):
    """An element that refers to a parent that does not have it"""
    for x in elems:
        p = x.attrs.get('parent')
        if isinstance(p, Obj) and not any(x is k for k in kids(p)):
            return '%s refers to a parent that does not have it' % \
                name_of(x)
    return None


def op_set(w, tag, i):
    w.m(w.e[tag], 'set_id', i)


def op_remove(w, parent, child):
    w.m(w.e[parent], 'remove_child', w.e[child])


def op_reset(w, tag):
    w.m(w.e[tag], 'reset', True)


def op_value(w, tag):
    w.m(w.e[tag], 'set_value', 'text')


def op_adopt(w, parent, child, move=False):
    """The caller links the orphan, as attach_to_parent requires"""
    if move:
        old = [x for x in w.e.values() if any(
            w.e[child] is k for k in kids(x))]
        for x in old:
            w.m(x, 'remove_child', w.e[child])
    w.m(w.e[child], 'attach_to_parent', w.e[parent])
    w.e[parent].attrs['_children'].items.append(w.e[child])


def op_detach(w, child):
    p = w.e[child].attrs.get('parent')
    w.m(w.e[child], 'detach_from_parent')
    if isinstance(p, Obj) and isinstance(p.attrs.get('_children'), PList):
        it = p.attrs['_children'].items
        it[:] = [k for k in it if k is not w.e[child]]


def op_root(w):
    x = w.m(w.doc, 'add_child', w.E)
    x.attrs['tag'] = 'new'
    w.e['new'] = x


def op_new(w, tag, i):
    x = w.m(w.e[tag], 'add_child', w.E)
    x.attrs['tag'] = 'n'
    w.e['n'] = x
    if i:
        w.m(x, 'set_id', i)


def op_doc(w, tag):
    d = w.ev.construct(w.D, [w.e[tag]], {}, None, None)
    w.docs.append(d)


def operations():
    out = []
    for tag in 'rabcop':
        for i in ('i1', 'i2', 'i5'):
            out.append(('%s.id=%s' % (tag, i), op_set, (tag, i)))
    for p, c in ('ra', 'rc', 'ab', 'op'):
        out.append(('%s.remove(%s)' % (p, c), op_remove, (p, c)))
        out.append(('detach(%s)' % c, op_detach, (c,)))
    for p, c in ('rb', 'ac'):
        out.append(('remove(%s)' % c, op_remove, (p, c)))
    for tag in 'rao':
        out.append(('reset(%s)' % tag, op_reset, (tag,)))
    out.append(('value(a)', op_value, ('a',)))
    for p in 'rac':
        out.append(('%s.adopt(o)' % p, op_adopt, (p, 'o')))
    out.append(('move(b,c)', op_adopt, ('c', 'b', True)))
    out.append(('root', op_root, ()))
    for tag in 'rbo':
        for i in (None, 'i1', 'i5'):
            out.append(('%s.add(%s)' % (tag, i), op_new, (tag, i)))
    out.append(('Document(o)', op_doc, ('o',)))
    return out


STARTS = (
    ('plain', {}),
    ('all', {'r': 'i1', 'a': 'i2', 'b': 'i3', 'c': 'i4', 'o': 'i6',
             'p': 'i7'}),
    ('clash', {'a': 'i1', 'b': 'i2', 'o': 'i1', 'p': 'i5'}),
    ('deep', {'b': 'i1', 'c': 'i2', 'p': 'i2', 'o': 'i5'}),
)


def history(repo, ev, ids, ops):
    def go(e):
        w = World(e, repo, ids)
        w.docs = [w.doc]
        e.setup = True
        for k, (label, fn, args) in enumerate(ops):
            try:
                fn(w, *args)
            except Raised as err:
                if err.name.split('.')[-1] not in (
                        CLASH, 'XMLParentError', 'XMLUnknownChild',
                        'ValueError', 'XMLMissingParentError'):
                    return k, 'ends with %s' % err.name
            for d in w.docs:
                t = problem(d)
                if t:
                    return k, t
            t = links(w.doc, w.e.values())
            if t:
                return k, t
        return None
    ps = ev.paths(go)
    if len(ps) != 1 or ps[0].kind != 'return':
        raise AnalysisError('history: %d paths, %s %r' % (
            len(ps), ps[0].kind, ps[0].value if ps[0].kind == 'raise'
            else ps[0].facts))
    return ps[0].value


def histories(repo, rep):
    ev = PEval(repo, Tree(repo))
    ops = operations()
    E, D = repo.cls(ELEM), repo.cls(DOC)
    for n in ('set_id', 'remove_child', 'reset', 'set_value', 'add_child',
              'attach_to_parent', 'attach_to_doc', 'detach_from_parent',
              'detach_from_doc'):
        rep.funcs.add(repo.find_method(E, n).qual)
    for n in ('__init__', 'add_child', 'register_element',
              'unregister_element', 'get_element_by_id'):
        rep.funcs.add(repo.find_method(D, n).qual)
    bad = {}
    n = 0
    for sname, ids in STARTS:
        single = set()
        for o in ops:
            n += 1
            r = history(repo, ev, ids, [o])
            if r:
                single.add(o[0])
                bad.setdefault((o[0], r[1]), sname)
            else:
                rep.ok('history', '%s:%s' % (sname, o[0]))
        for o1, o2 in itertools.product(ops, ops):
            if o1[0] in single or o2[0] in single:
                continue
            n += 1
            r = history(repo, ev, ids, [o1, o2])
            label = '%s:%s,%s' % (sname, o1[0], o2[0])
            if r:
                bad.setdefault((o1[0] + ',' + o2[0], r[1]), sname)
            else:
                rep.ok('history', label)
    for (label, text), sname in sorted(bad.items()):
        rep.bad('history', '%s:%s' % (sname, label), text,
                repo.find_method(E, 'attach_to_doc').where)


# ---- the element classes ----------------------------------------------
REMOVERS = ('remove', 'pop', 'clear', 'popleft', 'discard')


def slot(n):
    return n == '_children' or n[:1].isupper()


def edits(f):
    """Places of a function that may drop elements from a member:
    (node, expression of the member, removed expression)"""
    out = []
    for n in ast.walk(f.node):
        if isinstance(n, ast.Assign):
            for t in n.targets:
                if isinstance(t, ast.Attribute) and slot(t.attr) and (
                        isinstance(n.value, (ast.List, ast.ListComp)) or
                        isinstance(n.value, ast.Constant) and
                        n.value.value is None):
                    out.append((n, t, None))
                elif isinstance(t, ast.Subscript) and isinstance(
                        t.slice, ast.Slice) and isinstance(
                            t.value, ast.Attribute) and slot(t.value.attr):
                    out.append((n, t.value, None))
        elif isinstance(n, ast.Delete):
            for t in n.targets:
                b = t.value if isinstance(t, ast.Subscript) else t
                if isinstance(b, ast.Attribute) and slot(b.attr):
                    out.append((n, b, None))
        elif isinstance(n, ast.Call) and isinstance(
                n.func, ast.Attribute) and n.func.attr in REMOVERS and \
                isinstance(n.func.value, ast.Attribute) and slot(
                    n.func.value.attr):
            out.append((n, n.func.value, n.args[0] if n.args else None))
    return out


class Family(Tree):

    """Follows constructors and edits of all element classes"""

    NAMES = ('__init__', 'reset', 'get_document', 'detach_from_doc',
             'detach_from_parent', 'remove_child', 'set_id',
             'attach_to_doc', 'get_children')

    def __init__(self, repo, fam, names):
        Tree.__init__(self, repo)
        self.fam = set(fam)
        self.names = set(self.NAMES) | set(names)

    def call(self, ev, name, fn, recv, args, kw, node, fr):
        if name == 'index' and isinstance(recv, PList) and args:
            for i, x in enumerate(recv.items):
                if x is args[0]:
                    return i
            raise Raised('builtins.ValueError', (name,), node)
        if name in ('chain', 'from_iterable') and all(isinstance(
                x, (PList, tuple)) for x in args):
            if name == 'from_iterable':
                args = args[0].items if isinstance(args[0], PList) \
                    else args[0]
            out = []
            for x in args:
                out += list(x.items if isinstance(x, PList) else x)
            return PList(out, 'list')
        if name in ('range3', 'range') and all(isinstance(x, int)
                                               for x in args):
            return PList(list(range(*args)), 'list')
        return Tree.call(self, ev, name, fn, recv, args, kw, node, fr)

    def inline(self, ev, f, recv, args, kw):
        if f.name in self.names and (f.cls in self.fam or isinstance(
                recv, Obj) and recv.cls in self.fam):
            return True
        return Tree.inline(self, ev, f, recv, args, kw)


def element_family(repo):
    fam = [repo.cls(ELEM)]
    for k in fam:
        fam += [x for x in repo.subclasses.get(k.qual, ())
                if x not in fam]
    return fam


def members(repo, rep):
    fam = element_family(repo)
    todo = {}
    for c in fam:
        if c.qual == ELEM or c is repo.cls(ELEM):
            continue
        for k in repo.mro(c):
            if not isinstance(k, Class) or k not in fam or \
                    k is repo.cls(ELEM):
                continue
            for name, f in k.methods.items():
                if name in ('__init__', 'add_child', 'content_changed') \
                        or repo.find_method(c, name) is not f:
                    continue
                if edits(f) or name == 'reset':
                    todo.setdefault((f, c if name == 'reset' else k),
                                    name)
    names = set(todo.values())
    seen = set()
    for (f, c), name in sorted(todo.items(), key=lambda x: (
            x[0][0].qual, x[0][1].qual)):
        if c.module.name.endswith('_old'):
            continue
        rep.funcs.add(f.qual)
        rep.part(one_class, repo, rep, fam, names, f, c)
    rep.stats['methods that drop children'] = len(
        set(f for f, c in todo))


def fill(ev, repo, w, c):
    root = ev.construct(c, [w.doc], {}, None, None)
    w.doc.attrs['root'] = root
    root.attrs['tag'] = 'root'
    put = []
    for n in sorted(root.attrs):
        v = root.attrs[n]
        if not slot(n):
            continue
        count = 0
        if v is None:
            count = 1
        elif isinstance(v, PList):
            count = 2
        for i in range(count):
            x = ev.construct(repo.cls(ELEM), [root], {}, None, None)
            x.attrs['tag'] = '%s%d' % (n, i)
            if v is None:
                root.attrs[n] = x
            else:
                v.items.append(x)
            w.m(x, 'set_id', 'id-%s%d' % (n, i))
            put.append(x)
    return root, put


def one_class(repo, rep, fam, names, f, c):
    ev = PEval(repo, Family(repo, fam, names))
    n = len(f.node.args.args) - 1

    def trial(k):
        def go(e):
            w = World.__new__(World)
            w.ev, w.repo = e, repo
            w.doc = e.construct(repo.cls(DOC), [], {}, None, None)
            root, put = fill(e, repo, w, c)
            if k is None:
                args = [True] if n else []
            else:
                if k >= len(put):
                    return 'end', None
                args = [put[k]]
            try:
                e.func(f, args, {}, root)
            except Raised as err:
                if k is None:
                    return 'bad', 'ends with %s' % err.name
                return 'refused', None
            t = problem(w.doc) or links(w.doc, put)
            return ('bad', t) if t else ('ok', len(put))
        ps = ev.paths(go)
        for p in ps:
            if p.kind != 'return':
                raise AnalysisError('%s: %s %s at %s' % (
                    f.short, p.kind, p.value, getattr(getattr(
                        p, 'node', None), 'lineno', None)))
        return set(p.value for p in ps)
    label = '%s:%s' % (c.short if hasattr(c, 'short') else c.name, f.short)
    if f.name == 'reset' or n != 1:
        if f.name != 'reset' and n:
            raise AnalysisError('cannot call %s' % f.short)
        res = trial(None)
        text = [t for k, t in res if k == 'bad']
        rep.check(not text, 'members', label, '; '.join(text), f.where)
        return
    k = done = 0
    text = []
    while k < 60:
        res = trial(k)
        if any(x == 'end' for x, t in res):
            break
        text += [t for x, t in res if x == 'bad']
        done += any(x == 'ok' for x, t in res)
        k += 1
    rep.check(not text, 'members', label, '; '.join(sorted(set(text))[:2]),
              f.where)


def outside(repo, rep):
    """Functions that are not part of an element class"""
    fam = set(element_family(repo))
    slots = set()
    for c in fam:
        f = c.methods.get('__init__')
        if f is None:
            continue
        for n in ast.walk(f.node):
            if isinstance(n, ast.Attribute) and isinstance(
                    n.ctx, ast.Store) and slot(n.attr):
                slots.add(n.attr)
    for f in sorted(repo.funcs.values(), key=lambda f: f.qual):
        if f.cls in fam or f.module.name.endswith('structures'):
            continue
        for node, target, arg in edits(f):
            if target.attr not in slots or isinstance(
                    target.value, ast.Name) and target.value.id == 'self':
                continue
            text = ast.dump(target).replace('Store()', 'Load()').replace(
                'Del()', 'Load()')
            good = False
            for loop in ast.walk(f.node):
                if isinstance(loop, ast.For) and any(
                        ast.dump(x) == text for x in ast.walk(loop.iter)) \
                        and loop.lineno < node.lineno and isinstance(
                            loop.target, ast.Name):
                    good = good or detaches(loop.body, loop.target.id)
            if arg is not None and isinstance(arg, ast.Name):
                good = good or detaches(f.node.body, arg.id)
            rep.funcs.add(f.qual)
            rep.check(good, 'members', '%s:%s' % (f.short, target.attr),
                      'elements are dropped without being detached',
                      '%s:%d' % (f.module.rel, node.lineno))


def detaches(body, name):
    for s in body:
        for n in ast.walk(s):
            if isinstance(n, ast.Call) and isinstance(
                    n.func, ast.Attribute) and n.func.attr in (
                        'detach_from_doc', 'detach_from_parent',
                        'DetachFromDocument', 'DetachFromParent') and \
                    isinstance(n.func.value, ast.Name) and \
                    n.func.value.id == name:
                return True
    return False


# ---- the identifier itself --------------------------------------------
def identifiers(repo, rep):
    fam = element_family(repo)
    n = 0
    for c in fam:
        for name, vals in sorted(c.attrs.items()):
            if not name.startswith('XMLATTR_'):
                continue
            n += 1
            v = vals[-1]
            if isinstance(v, ast.Tuple) and v.elts:
                v = v.elts[0]
            member = v.value if isinstance(v, ast.Constant) else None
            rep.check(member != 'id', 'identifier', '%s.%s' % (
                c.qual, name), 'the attribute sets the identifier of the '
                'element without registering it', '%s:%d' % (
                    c.module.rel, getattr(v, 'lineno', 0)))
        for m, f in sorted(c.methods.items()):
            if f.name in ('__init__', 'set_id'):
                continue
            for x in ast.walk(f.node):
                if isinstance(x, ast.Attribute) and x.attr == 'id' and \
                        isinstance(x.ctx, (ast.Store, ast.Del)) and \
                        isinstance(x.value, ast.Name) and \
                        x.value.id == 'self':
                    if helper_of(repo, f, 'set_id'):
                        continue
                    rep.bad('identifier', f.short, 'the identifier is set '
                            'without being registered', '%s:%d' % (
                                f.module.rel, x.lineno))
    rep.stats['attribute maps'] = n


def helper_of(repo, f, name):
    """True if a new function is only used by the named one"""
    return f.qual not in baseline() and f.cls is repo.cls(ELEM)


def run(repo, rep):
    rep.rule('history', 'the identifier table matches the tree after every '
             'edit', 500)
    rep.rule('members', 'methods of element classes that drop children '
             'detach them', 8)
    rep.rule('identifier', 'identifiers are only set through set_id', 300)
    rep.part(histories, repo, rep)
    rep.part(members, repo, rep)
    rep.part(outside, repo, rep)
    rep.part(identifiers, repo, rep)
