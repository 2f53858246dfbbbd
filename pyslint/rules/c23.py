"""C23: typed children of XML elements"""

import ast
import os

from .. import guards as g
from .. import rulebase
from ..interp import T
from ..repo import Class, Const, Func, walk_own
from .. import slots as sl

ELEMENT = 'pyslet.xml.structures.Element'
CONTENT = 'pyslet.qtiv1.common.ContentMixin'
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

# Elements with a closed content model, which keep nothing but their
# named members (all other elements must visit their own content too)
CLOSED = os.path.join(HERE, 'closed_elements.txt')


class Model(object):

    def __init__(self, repo):
        self.repo = repo
        self.elements = sorted(
            (c for c in repo.classes.values()
             if repo.is_subclass(c, ELEMENT)), key=lambda c: c.qual)
        self.names = set()
        for c in self.elements:
            for k in self.classes(c):
                self.names.add(k.name)
        self.names.discard('object')
        self._own = {}

    def classes(self, c):
        return [k for k in self.repo.mro(c) if isinstance(k, Class)]

    def own(self, c):
        """name -> kind of the members set up by c's constructor; kind is
        'list', 'none' (optional) or 'one' (always there)"""
        if c in self._own:
            return self._own[c]
        out = self._own[c] = {}
        f = c.methods.get('__init__')
        if f is not None:
            self.scan(c, f, out, set())
        f = c.methods.get('add_child')
        if f is not None and c.qual not in (ELEMENT, CONTENT):
            # members that add_child puts children in directly
            me = f.node.args.args[0].arg
            for a in self.stored(f, me):
                init = self.repo.find_method(c, '__init__')
                if isinstance(init, Func):
                    self.scan(c, init, out, set(), {a})
        return out

    def stored(self, f, me):
        for n in walk_own(f.node):
            if isinstance(n, ast.Call) and isinstance(
                    n.func, ast.Attribute) and \
                    n.func.attr in ('append', 'insert') and \
                    self.mine(n.func.value, me):
                yield n.func.value.attr
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    if self.mine(t, me):
                        yield t.attr

    def mine(self, n, me):
        return isinstance(n, ast.Attribute) and isinstance(
            n.value, ast.Name) and n.value.id == me

    def scan(self, c, f, out, seen, only=None):
        if f in seen:
            return
        seen.add(f)
        me = f.node.args.args[0].arg if f.node.args.args else 'self'
        for n in walk_own(f.node):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    self.slot(t, n.value, me, out, only)
            elif isinstance(n, ast.AnnAssign) and n.value is not None:
                self.slot(n.target, n.value, me, out, only)
            elif isinstance(n, ast.Call) and isinstance(
                    n.func, ast.Attribute) and isinstance(
                    n.func.value, ast.Name) and n.func.value.id == me:
                g = self.repo.find_method(c, n.func.attr)
                if isinstance(g, Func) and n.func.attr.startswith('_'):
                    self.scan(c, g, out, seen, only)

    def slot(self, t, v, me, out, only=None):
        if isinstance(t, (ast.Tuple, ast.List)) and isinstance(
                v, (ast.Tuple, ast.List)) and len(t.elts) == len(v.elts):
            for a, b in zip(t.elts, v.elts):
                self.slot(a, b, me, out, only)
            return
        if not (isinstance(t, ast.Attribute) and isinstance(
                t.value, ast.Name) and t.value.id == me):
            return
        a = t.attr
        if a not in (only or self.names) and a not in (
                'contentChildren', '_children'):
            return
        if isinstance(v, ast.List) or (
                isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and
                v.func.id == 'list'):
            out[a] = 'list'
        elif isinstance(v, ast.Constant) and v.value is None:
            out[a] = 'none'
        elif isinstance(v, ast.Call):
            out[a] = 'one'

    def slots(self, c):
        out = {}
        for k in reversed(self.classes(c)):
            out.update(self.own(k))
        return out


def read_closed():
    with open(CLOSED) as f:
        return set(l.strip() for l in f if l.strip())


def collects(repo, c):
    """Whether ContentMixin.add_child is the one in force"""
    f = repo.find_method(c, 'add_child')
    return isinstance(f, Func) and f.qual == CONTENT + '.add_child'


def content_is(model, c, *names):
    for k in model.classes(c):
        for n in k.node.body:
            if isinstance(n, ast.Assign) and any(
                    isinstance(t, ast.Name) and t.id == 'XMLCONTENT'
                    for t in n.targets):
                return ast.unparse(n.value).split('.')[-1] in names
    return False


def member_rule(repo, rep, model):
    closed = read_closed()
    rep.rule('member', 'iterating the children of an element visits each '
             'of its named members, and its content, exactly once')
    used = set()
    for c in model.elements:
        ss = model.slots(c)
        for s in sorted(ss):
            kind = ss[s]
            if s == '_children' and (c.short in closed or (
                    c.qual + '.get_children' not in BASE and
                    'get_children' in c.methods and
                    content_is(model, c, 'ElementContent',
                               'ELEMENT_CONTENT'))):
                continue
            if s == 'contentChildren' and not collects(repo, c):
                continue
            if content_is(model, c, 'EMPTY', 'Empty', 'XMLEmpty'):
                continue
            inst = '%s:%s' % (c.short, s)
            f, i = sl.Evaluator(repo, c, s, kind, True, ss).find(
                'get_children')
            where = '%s:%d' % (f.module.rel, f.node.lineno)
            try:
                for present in ([True] if kind == 'one'
                                else [True, False]):
                    got, u = sl.visits(
                        repo, c, s, 'list' if kind == 'list' else 'one',
                        present, ss)
                    used |= u
                    want = 1 if present else 0
                    bad = [g for g in got if g != want]
                    if not bad:
                        continue
                    msg = describe(c, s, present, bad)
                    break
                else:
                    bad, msg = [], ''
            except sl.Unsupported as e:
                rep.stats['not_analysed'] = rep.stats.get(
                    'not_analysed', 0) + 1
                continue
            rep.check(not bad, 'member', inst, msg, where)
    rep.stats['classes'] = len(model.elements)


def describe(c, s, present, bad):
    x = bad[0]
    if x == 'none':
        return '%s: None is yielded as a child when %s is not there' % (
            c.short, s)
    if x == 'list':
        return '%s: the list %s is yielded as if it was a child' % (
            c.short, s)
    if x == 'item':
        return '%s: the single child %s is iterated as if it was a list' % (
            c.short, s)
    if x == 0:
        return '%s: there is a path on which %s is not visited' % (
            c.short, s)
    return '%s: %s may be visited more than once' % (c.short, s)


# ------------------------------------------------------- attributes
ENUM = 'pyslet.xml.xsdatatypes.Enumeration'
NOCASE = 'pyslet.xml.xsdatatypes.EnumerationNoCase'
NAMED = 'pyslet.html401.NamedBoolean'
X = 'pyslet.xml.xsdatatypes.'
Q = 'pyslet.qml420.'

# decoders that return their argument, as a string of the same meaning
STRINGS = {
    None, 'pyslet.html401.character_from_str',
    'pyslet.odata2.csdl.validate_simple_identifier',
    'pyslet.qtiv2.core.validate_identifier', X + 'name_from_str',
    'pyslet.py2.to_text', 'builtins.str', 'pyslet.py2.force_text'}

# encoders that leave a string alone, or turn an object into its text
TEXT = {None, 'identity', 'pyslet.py2.to_text', 'builtins.str',
        'pyslet.py2.force_text', X + 'name_from_str', X + 'name_to_str'}

PAIRS = {
    'pyslet.odata2.csdl.maxlength_from_str':
        'pyslet.odata2.csdl.maxlength_to_str',
    'pyslet.odata2.csdl.multiplictiy_from_str':
        'pyslet.odata2.csdl.multiplicity_to_str',
    'pyslet.qtiv1.core.yn_from_str': 'pyslet.qtiv1.core.yn_to_str',
    'pyslet.rfc4287.decode_content_type':
        'pyslet.rfc4287.encode_content_type',
    'pyslet.rfc5023.parse_yes_no': 'pyslet.rfc5023.format_yes_no',
    X + 'boolean_from_str': X + 'boolean_to_str',
    X + 'datetime_from_str': X + 'datetime_to_str',
    X + 'float_from_str': X + 'float_to_str',
    X + 'double_from_str': X + 'double_to_str',
    X + 'decimal_from_str': X + 'decimal_to_str',
    X + 'integer_from_str': X + 'integer_to_str',
    'builtins.int': 'builtins.str',
}
for _n in ('align', 'alternative', 'ceiling', 'comment_height',
           'comment_width', 'direction', 'floor', 'length', 'margin',
           'max_response', 'max_select', 'message', 'name', 'pve_length',
           'questionid', 'shuffle', 'truefalse', 'yesno'):
    PAIRS[Q + _n + '_from_str'] = Q + _n + '_to_str'

CASE = {'from_str': lambda s: s.strip(),
        'from_str_lower': lambda s: s.strip().lower(),
        'from_str_upper': lambda s: s.strip().upper(),
        'from_str_title': lambda s: s.strip()[:1].upper() +
        s.strip()[1:].lower()}


class Attrs(object):

    def __init__(self, repo, rep, model):
        self.repo = repo
        self.rep = rep
        self.model = model
        self.tables = {}
        self.outside = {}
        for m in repo.modules.values():
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Call) and isinstance(
                        n.func, ast.Name) and n.func.id == 'setattr' and \
                        len(n.args) == 3 and \
                        isinstance(n.args[1], ast.Constant) and \
                        str(n.args[1].value).startswith('XMLATTR_'):
                    c = repo.resolve_expr(n.args[0], m)
                    if isinstance(c, Class):
                        self.outside.setdefault(c, []).append(
                            (n.args[1].value, n.args[2], m))

    def own(self, c):
        if c not in self.tables:
            t = {}
            for n in c.node.body:
                if isinstance(n, ast.Assign):
                    for x in n.targets:
                        if isinstance(x, ast.Name) and \
                                x.id.startswith('XMLATTR_'):
                            t[x.id[8:]] = (n.value, c.module, c)
            for name, v, m in self.outside.get(c, ()):
                t[name[8:]] = (v, m, c)
            self.tables[c] = t
        return self.tables[c]

    def table(self, c):
        t = {}
        for k in reversed(self.model.classes(c)):
            t.update(self.own(k))
        return t

    def qual(self, e, m):
        """(key, class it is bound to, method name)"""
        if isinstance(e, ast.Constant) and e.value is None:
            return None, None, None
        if isinstance(e, ast.Lambda):
            b = e.body
            if isinstance(b, ast.Name):
                return 'identity', None, None
            if isinstance(b, ast.Call) and isinstance(
                    b.func, ast.Attribute) and isinstance(
                    b.func.value, ast.Name) and \
                    b.func.attr in ('lower', 'upper', 'strip', 'title'):
                return 'identity', None, None
            return '?', None, None
        r = self.repo.resolve_expr(e, m)
        if isinstance(r, Func) and isinstance(e, ast.Attribute):
            k = self.repo.resolve_expr(e.value, m)
            if isinstance(k, Class):
                return r.qual, k, r.name
        return getattr(r, 'qual', '?'), None, None

    # ----------------------------------------------- enumerations
    def literal(self, k, name):
        for n in k.node.body:
            if isinstance(n, ast.Assign) and any(
                    isinstance(t, ast.Name) and t.id == name
                    for t in n.targets):
                if isinstance(n.value, ast.Dict):
                    try:
                        return ast.literal_eval(n.value)
                    except ValueError:
                        return False
                return False
        return None

    def enum(self, c):
        """(decode map with the aliases, canonical names) or None"""
        decode = aliases = None
        for k in self.model.classes(c):
            if decode is None:
                decode = self.literal(k, 'decode')
            if aliases is None:
                aliases = self.literal(k, 'aliases')
        if not decode or aliases is False:
            return None
        canon = {}
        for k, v in decode.items():
            canon[v] = k
        aliases = dict(aliases or {})
        if self.repo.is_subclass(c, NOCASE):
            for k in decode:
                aliases.setdefault(k.lower(), k)
        full = dict(decode)
        for a, k in aliases.items():
            if a is not None and k in decode:
                full.setdefault(a, decode[k])
        return full, canon

    # ------------------------------------------------------ rules
    def run(self):
        rep = self.rep
        rep.rule('pair', 'the decoder and the encoder of an attribute are '
                 'inverse to each other')
        rep.rule('roundtrip', 'each name an enumeration writes is one that '
                 'its decoder reads back as the same value')
        rep.rule('distinct', 'no two attributes of an element share a '
                 'member')
        rep.rule('multi', 'a member has the kind of value (one, list or '
                 'dictionary) that its attribute is declared with')
        seen = set()
        for c in sorted(self.repo.classes.values(), key=lambda c: c.qual):
            for name, (v, m, k) in sorted(self.own(c).items()):
                where = '%s:%d' % (m.rel, v.lineno)
                inst = '%s:%s' % (c.short, name)
                v = self.value(v, m)
                if isinstance(v, ast.Constant) and isinstance(v.value, str):
                    continue
                if not isinstance(v, ast.Tuple) or len(v.elts) not in (
                        3, 4):
                    if not isinstance(v, ast.Tuple):
                        rep.stats['attrs_skipped'] = rep.stats.get(
                            'attrs_skipped', 0) + 1
                        continue
                    rep.bad('pair', inst, '%s: the attribute has %d parts' %
                            (inst, len(v.elts)), where)
                    continue
                self.pair(inst, v.elts[1], v.elts[2], m, where, seen)
        for c in self.model.elements:
            self.members(c)

    def value(self, v, m):
        for i in range(3):
            if isinstance(v, ast.Name):
                r = self.repo.resolve_expr(v, m)
                if isinstance(r, Const):
                    v = r.value
                    continue
            break
        return v

    def pair(self, inst, d, e, m, where, seen):
        dq, dk, dn = self.qual(d, m)
        eq, ek, en = self.qual(e, m)
        rep = self.rep
        if '?' in (dq, eq):
            rep.stats['attrs_skipped'] = rep.stats.get(
                'attrs_skipped', 0) + 1
            return
        if dk is not None and (self.repo.is_subclass(dk, ENUM) or
                               self.repo.is_subclass(dk, NAMED)):
            ok = ek is dk and en == 'to_str'
            if not ok and eq not in TEXT and eq not in BASE:
                return
            rep.check(ok, 'pair', inst,
                      '%s: %s decodes the attribute but %s encodes it' % (
                          inst, ast.unparse(d), ast.unparse(e)), where)
            if ok and self.repo.is_subclass(dk, ENUM):
                self.roundtrip(dk, dn, where, seen)
            return
        if dq in PAIRS:
            if eq != PAIRS[dq] and eq is not None and eq not in BASE and \
                    eq not in TEXT:
                return      # a new encoder, which is not judged
            ok = eq == PAIRS[dq]
        elif dq in STRINGS or dq == 'identity':
            ok = eq in TEXT
            if not ok and eq not in BASE:
                return
        elif dk is not None or isinstance(
                self.repo.resolve_expr(d, m), Class):
            # an object, whose text is written
            k = dk or self.repo.resolve_expr(d, m)
            ok = eq in TEXT - {None, 'identity', X + 'name_from_str'} or \
                ek is k
            if not ok and eq is not None and eq not in BASE and \
                    eq not in ('identity', X + 'name_from_str'):
                return
        else:
            rep.stats['attrs_skipped'] = rep.stats.get(
                'attrs_skipped', 0) + 1
            return
        rep.check(ok, 'pair', inst,
                  '%s: %s decodes the attribute but %s encodes it' % (
                      inst, ast.unparse(d), ast.unparse(e)), where)

    def roundtrip(self, k, mode, where, seen):
        if (k, mode) in seen:
            return
        seen.add((k, mode))
        e = self.enum(k)
        if e is None or mode not in CASE:
            return
        full, canon = e
        inst = '%s.%s' % (k.short, mode)
        bad = sorted(n for v, n in canon.items()
                     if full.get(CASE[mode](n)) != v)
        self.rep.check(not bad, 'roundtrip', inst,
                       '%s does not read back %s, which %s.to_str writes' % (
                           inst, ', '.join(map(repr, bad)), k.name), where)

    def members(self, c):
        t = self.table(c)
        users = {}
        for name, (v, m, k) in sorted(t.items()):
            v = self.value(v, m)
            kind = None
            if isinstance(v, ast.Tuple) and v.elts:
                a = v.elts[0]
                if len(v.elts) == 4:
                    kind = ast.unparse(v.elts[3])
            else:
                a = v
            if not (isinstance(a, ast.Constant) and
                    isinstance(a.value, str)):
                continue
            users.setdefault(a.value, []).append((name, m, v, kind))
        inits = None
        for a, names in sorted(users.items()):
            inst = '%s:%s' % (c.short, a)
            name, m, v, kind = names[0]
            where = '%s:%d' % (m.rel, v.lineno)
            self.rep.check(
                len(names) == 1, 'distinct', inst,
                '%s: the attributes %s are all mapped to %s' % (
                    c.short, ', '.join(n[0] for n in names), a), where)
            if inits is None:
                inits = self.inits(c)
            if a not in inits:
                continue
            want = {'list': 'list', 'dict': 'dict', 'None': None,
                    None: None}.get(kind, '?')
            got = inits[a]
            if want == '?' or got == '?' or (got is None and want):
                continue
            self.rep.check(
                got == want, 'multi', inst,
                '%s.%s is set up as %s but its attribute %s is mapped as '
                '%s' % (c.short, a, got or 'one value', name,
                        want or 'one value'), where)

    def inits(self, c):
        """how the constructors set up each member"""
        out = {}
        for k in reversed(self.model.classes(c)):
            f = k.methods.get('__init__')
            if f is None or not f.node.args.args:
                continue
            me = f.node.args.args[0].arg
            for n in walk_own(f.node):
                if not isinstance(n, ast.Assign):
                    continue
                for x in n.targets:
                    if self.model.mine(x, me):
                        v = n.value
                        if isinstance(v, ast.List):
                            r = 'list'
                        elif isinstance(v, ast.Dict):
                            r = 'dict'
                        elif isinstance(v, ast.Constant):
                            r = None
                        else:
                            r = '?'
                        out[x.attr] = r
        return out


BASE = rulebase.baseline()


# ---------------------------------------------------- declarations
def declared_rule(repo, rep, model):
    """Members that get_children reads are set up by the constructors, and
    are named as the elements they are for"""
    rep.rule('declared', 'each member that get_children visits is set up by '
             'the constructors of its class, under a name by which children '
             'are added to it')
    lower = {}
    for c in model.elements:
        for k in model.classes(c):
            lower.setdefault(k.name.lower(), set()).add(k.name)
    for c in model.elements:
        f = c.methods.get('get_children')
        if f is None or c.qual == ELEMENT:
            continue
        me = f.node.args.args[0].arg
        have = set()
        for k in model.classes(c):
            for g_ in k.methods.values():
                if k.qual == ELEMENT and g_.name in ('add_child',
                                                     'remove_child'):
                    continue
                have.add(g_.name)
                if g_.node.args.args:
                    m_ = g_.node.args.args[0].arg
                    for n in walk_own(g_.node):
                        if isinstance(n, ast.Attribute) and isinstance(
                                n.ctx, ast.Store) and model.mine(n, m_):
                            have.add(n.attr)
                        elif isinstance(n, ast.Call) and isinstance(
                                n.func, ast.Name) and \
                                n.func.id == 'setattr':
                            have.add('*')
            for n in k.node.body:
                if isinstance(n, ast.Assign):
                    for t in n.targets:
                        if isinstance(t, ast.Name):
                            have.add(t.id)
                            if t.id.startswith('XMLATTR_'):
                                have |= set(strings(n.value))
        if any(k.name == '__getattr__' or '__getattr__' in k.methods
               for k in model.classes(c) if k.qual != ELEMENT):
            have.add('*')
        for n in walk_own(f.node):
            if not (model.mine(n, me) and isinstance(n.ctx, ast.Load)):
                continue
            a = n.attr
            where = '%s:%d' % (f.module.rel, n.lineno)
            inst = '%s:%s' % (c.short, a)
            if a.startswith('__'):
                continue
            rep.check(a in have or '*' in have, 'declared', inst,
                      '%s.get_children uses %s, which no constructor sets '
                      'up' % (c.short, a), where)
            if a in model.names or not a[:1].isupper() or a in (
                    m.name for k in model.classes(c)
                    for m in k.methods.values()):
                continue
            alt = lower.get(a.lower(), set()) | (
                lower.get(a[3:].lower(), set())
                if a.startswith('QTI') else set())
            rep.check(not alt, 'declared', inst + ':name',
                      '%s.%s is not the name of an element class, so '
                      'that %s children are not kept in it' % (
                          c.short, a, '/'.join(sorted(alt))), where)


def strings(v):
    for n in ast.walk(v):
        if isinstance(n, ast.Constant) and isinstance(n.value, str):
            yield n.value


# --------------------------------------------------------- walkers
WALKERS = {
    'generate_xml', 'deepcopy', '__eq__', 'find_children',
    'find_children_breadth_first', 'find_children_depth_first',
    'attach_to_doc', 'detach_from_doc', 'generate_value',
    'get_canonical_children', 'get_or_add_child'}
VISITS = {'get_children', 'get_canonical_children',
          'find_children_depth_first', 'find_children_breadth_first',
          'generate_value', 'generate_xml'}
STORES = {'__init__', 'add_child', 'remove_child', 'get_children',
          'add_data', 'content_changed', 'set_value', 'reset'}
SAME = ('child_class', 'sub_match', 'max_depth', 'child_list', 'max')


class Walk(g.EventCheck):

    """Loops over the children that do one thing for each of them"""

    def __init__(self, rep, kind):
        g.EventCheck.__init__(self, rep)
        self.kind = kind

    def iterate(self, it, st, iterable, node, fr):
        if g.has(iterable, lambda t: g.is_call(
                t, 'get_children', 'get_canonical_children')):
            return self.put(st.with_auto(frozenset(
                e for e in st.auto if e[0] != 'did')), ('loop', id(node)))
        return st

    def after_call(self, it, st, ci, val):
        if ci.name in ('add_data', 'deepcopy', 'attach_to_doc',
                       'detach_from_doc'):
            if ci.name == 'add_data':
                if not self.copy(ci.recv):
                    return st
            elif ci.name == 'deepcopy' and not self.copy(
                    ci.arg(0, 'parent')):
                return st
            for x in [ci.recv] + list(ci.args):
                if x is not None:
                    st = self.put(st, ('did', ci.name, g.unver(x)))
        return st

    def copy(self, t):
        # the new element
        return t is not None and g.unver(t).op in ('call', 'new', 'phi')

    def loop_back(self, it, st, node, fr):
        tg = getattr(node, 'target', None)
        if ('loop', id(node)) not in st.auto or not isinstance(
                tg, ast.Name):
            return st
        v = st.env.get(tg.id)
        if v is None:
            return st
        v = g.unver(v)
        ok = False
        for e in self.events(st, 'did'):
            if e[2] is v and (e[1] == self.kind or (
                    self.kind == 'deepcopy' and e[1] == 'add_data')):
                ok = True
        if self.kind != 'deepcopy':
            for t, p in st.facts.items():
                if t.op == 'call' and t.args[3] and \
                        g.unver(t.args[3][0]) is v and (
                            (t.args[0] == 'isinstance' and not p) or
                            (t.args[0] == 'is_text' and p)):
                    ok = True
        self.note('core', '%s:each' % self.func.short, ok,
                  'a child is left out by %s' % self.func.short,
                  rulebase.where_of(fr, node), st.trace)
        return st


class Remove(g.EventCheck):

    """Element.remove_child"""

    def gone(self, it, st, ok, node, fr, inst):
        self.note('core', '%s:%s' % (self.func.short, inst), ok,
                  'a child other than the one given may be taken out',
                  rulebase.where_of(fr, node), st.trace)
        return self.put(st, ('out',))

    def is_child(self, t):
        t = g.unver(t)
        return t.op == 'param' and t.args[0] == \
            self.func.node.args.args[1].arg

    def known(self, st):
        return any(p and x.op == 'cmp' and x.args[0] == 'is' and (
            self.is_child(x.args[1]) or self.is_child(x.args[2])) and not (
            is_none(x.args[1]) or is_none(x.args[2]))
            for x, p in st.facts.items())

    def sub_del(self, it, st, base, idx, node, fr):
        return self.gone(it, st, self.known(st), node, fr, 'same')

    def after_call(self, it, st, ci, val):
        if ci.name in ('remove', 'pop') and ci.recv is not None and not (
                isinstance(ci.targets, (list, tuple)) and any(
                    isinstance(x, Func) for x in ci.targets)):
            return self.gone(it, st, ci.name == 'pop' and self.known(st),
                             ci.node, ci.fr, 'same')
        if ci.name == 'setattr' and len(ci.args) == 3:
            return self.gone(it, st, self.known(st), ci.node, ci.fr, 'same')
        if ci.name in ('detach_from_doc', 'detach_from_parent'):
            return self.put(st, ('detached',))
        return st

    def func_exit(self, it, st, func, kind, payload, fr):
        if kind == 'raise':
            return
        self.note('core', func.short + ':out', bool(
            self.events(st, 'out')), 'it can return with the child still '
            'there', '%s:%d' % (func.module.rel, func.node.lineno),
            st.trace)
        self.note('core', func.short + ':detached', bool(
            self.events(st, 'detached')), 'the identifiers of a child that '
            'is taken out stay registered',
            '%s:%d' % (func.module.rel, func.node.lineno), st.trace)


def is_none(t):
    return t.op == 'const' and t.args[0] is None


def core_rule(repo, rep, model):
    rep.rule('core', 'copying, comparing, writing, searching and attaching '
             'elements go through get_children, for each child')
    named = [c for c in model.elements
             if any(m in c.methods for m in WALKERS)]
    for c in named:
        for m in sorted(WALKERS & set(c.methods)):
            f = c.methods[m]
            inst = '%s' % f.short
            where = '%s:%d' % (f.module.rel, f.node.lineno)
            names, direct, dele = reach(repo, model, c, f)
            if c.qual == ELEMENT or c.name in ('XMLNSElement', 'NSElement'):
                rep.check(bool(names & (VISITS - {m})) or dele, 'core',
                          inst + ':visits',
                          '%s does not visit the children' % f.short, where)
            rep.check(not direct, 'core', inst + ':direct',
                      '%s reads the internal list of children, so that '
                      'those kept in named members are missed' % f.short,
                      where)
            if not m.startswith('find_children'):
                continue
            params = [a.arg for a in f.node.args.args]
            for n in walk_own(f.node):
                if isinstance(n, ast.Call) and isinstance(
                        n.func, ast.Attribute) and n.func.attr == m and \
                        not (isinstance(n.func.value, ast.Name) and
                             repo.resolve_expr(n.func.value, f.module)):
                    passed = dict(zip(params[1:], n.args))
                    passed.update((k.arg, k.value) for k in n.keywords)
                    for q in params[1:]:
                        if q not in SAME:
                            continue
                        v = passed.get(q)
                        ok = v is not None and mentions(f, v, q)
                        rep.check(ok, 'core', '%s:%s' % (inst, q),
                                  '%s of nested elements is searched with '
                                  'another %s' % (f.short, q),
                                  '%s:%d' % (f.module.rel, n.lineno))
    el = repo.classes[ELEMENT]
    for m in ('deepcopy', 'attach_to_doc', 'detach_from_doc'):
        f = el.methods.get(m)
        if f is None:
            raise g.AnalysisError('anchor %s has gone' % m)
        chk = Walk(rep, m)
        rulebase.run_func(repo, chk, f)
        chk.flush()
    f = el.methods.get('remove_child')
    if f is None:
        raise g.AnalysisError('anchor Element.remove_child has gone')
    chk = Remove(rep)
    rulebase.run_func(repo, chk, f)
    chk.flush()


def mentions(f, v, name, depth=0):
    """Whether the value of an expression derives from a parameter"""
    todo = [n.id for n in ast.walk(v) if isinstance(n, ast.Name)]
    seen = set()
    while todo:
        x = todo.pop()
        if x == name:
            return True
        if x in seen:
            continue
        seen.add(x)
        for n in walk_own(f.node):
            if isinstance(n, ast.Assign) and any(
                    isinstance(t, ast.Name) and t.id == x
                    for t in n.targets):
                todo += [k.id for k in ast.walk(n.value)
                         if isinstance(k, ast.Name)]
    return False


def reach(repo, model, c, f):
    """(names of methods called, reads of _children, delegates to base) by
    f and the helpers it calls that were added since"""
    names, direct, dele = set(), False, False
    todo, seen = [f], set()
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        for n in walk_own(x.node):
            if isinstance(n, ast.Attribute) and n.attr == '_children' and \
                    isinstance(n.ctx, ast.Load):
                direct = True
            if not isinstance(n, ast.Call):
                continue
            if isinstance(n.func, ast.Attribute):
                names.add(n.func.attr)
                if n.func.attr == f.name and (
                        isinstance(n.func.value, ast.Call) or isinstance(
                            repo.resolve_expr(n.func.value, x.module),
                            Class)):
                    dele = True
                h = repo.find_method(c, n.func.attr)
            else:
                h = repo.resolve_expr(n.func, x.module)
            if isinstance(h, Func) and h.qual not in BASE:
                todo.append(h)
    return names, direct, dele


def run(repo, rep):
    model = Model(repo)
    rep.part(member_rule, repo, rep, model)
    rep.part(declared_rule, repo, rep, model)
    rep.part(core_rule, repo, rep, model)
    Attrs(repo, rep, model).run()
