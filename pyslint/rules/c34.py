"""C34: old style names"""

import ast
import os

from .. import rulebase
from ..interp import T, is_const
from ..repo import Class, Const, Func, walk_own

MIG = 'pyslet.pep8.MigratedClass'
META = 'pyslet.pep8.MigratedMetaclass'
INVENTORY = os.path.join(os.path.dirname(os.path.dirname(
    os.path.abspath(__file__))), 'aliases.txt')


# ---------------------------------------------------------- the tables
class Aliases(object):

    """What MigratedMetaclass makes of the classes of the package"""

    def __init__(self, repo):
        self.repo = repo
        self.own = {}

    def migrated(self, c):
        for k in self.repo.mro(c):
            if getattr(k, 'qual', None) == MIG:
                return True
            if not isinstance(k, Class) and self.by_metaclass(k):
                return True
        return False

    def by_metaclass(self, k):
        """types.new_class(name, bases, {'metaclass': M}) constants"""
        mod, _, name = k.qual.rpartition('.')
        m = self.repo.modules.get(mod)
        if m is None:
            return False
        for b in m.names.get(name, ()):
            if isinstance(b, Const) and isinstance(b.value, ast.Call):
                for a in b.value.args:
                    if isinstance(a, ast.Dict):
                        for x, v in zip(a.keys, a.values):
                            if isinstance(x, ast.Constant) and \
                                    x.value == 'metaclass':
                                r = self.repo.resolve_expr(v, m)
                                if r is not None and \
                                        self.repo.is_subclass(r, META):
                                    return True
        return False

    def classes(self, c):
        return [k for k in self.repo.mro(c) if isinstance(k, Class)]

    def defined(self, c):
        """decorated methods of c: [(old, Func)]"""
        return [(o, f) for m, f in c.methods.items() if m == f.name
                for o in f.old_names]

    def table(self, c):
        """old -> new installed in the dictionary of class c itself"""
        if c in self.own:
            return self.own[c]
        t = self.own[c] = {}
        if not self.migrated(c):
            return t
        for o, f in self.defined(c):
            t[o] = f.name
        for k in self.classes(c)[1:]:
            src = dict(self.table(k))
            for o, f in self.defined(k):
                src.setdefault(o, f.name)
            for o, n in src.items():
                f = c.methods.get(n)
                if f is not None and f.name == n:
                    t.setdefault(o, n)
        return t

    def visible(self, c):
        v = {}
        for k in self.classes(c):
            for o, n in self.table(k).items():
                v.setdefault(o, (k, n))
        return v

    def where_new(self, c, n):
        for k in self.classes(c):
            if n in k.methods and k.methods[n].name == n or n in k.attrs:
                return k
        return None


def simple_aliases(repo):
    """module level X = Y pairs naming a class or function twice"""
    out = {}
    for m in repo.modules.values():
        for s in m.tree.body:
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and \
                    isinstance(s.targets[0], ast.Name) and isinstance(
                        s.value, (ast.Name, ast.Attribute)):
                b = m.names.get(s.targets[0].id, ())
                if len(b) != 1:
                    continue
                r = repo.resolve_expr(s.value, m)
                q = getattr(r, 'qual', None)
                if q is None and isinstance(s.value, ast.Attribute):
                    q = ast.unparse(s.value)
                if q and r is not None:
                    out[(m.name, s.targets[0].id)] = q
                elif q and s.value.attr.isupper():
                    out[(m.name, s.targets[0].id)] = q
    return out


def stars(repo):
    out = []
    for m in repo.modules.values():
        for s in m.tree.body:
            if isinstance(s, ast.ImportFrom) and any(
                    a.name == '*' for a in s.names):
                out.append((m.name, repo._from_module(m, s)))
    return out


def kw_aliases(repo, f):
    """old keyword -> parameter of function f"""
    a = f.node.args
    if a.kwarg is None:
        return {}
    kw = a.kwarg.arg
    ps = set(x.arg for x in a.posonlyargs + a.args + a.kwonlyargs)
    out = {}

    def keys(e, kwname):
        r = []
        for n in ast.walk(e):
            k = None
            if isinstance(n, ast.Call):
                if isinstance(n.func, ast.Attribute) and isinstance(
                        n.func.value, ast.Name) and \
                        n.func.value.id == kwname and \
                        n.func.attr in ('get', 'pop') and n.args:
                    k = n.args[0]
                elif any(isinstance(x, ast.Name) and x.id == kwname
                         for x in n.args):
                    # a helper given the dictionary
                    for x in n.args:
                        if isinstance(x, ast.Constant) and isinstance(
                                x.value, str):
                            r.append(x.value)
            elif isinstance(n, ast.Subscript) and isinstance(
                    n.value, ast.Name) and n.value.id == kwname:
                k = n.slice
            if isinstance(k, ast.Constant):
                r.append(k.value)
        return r
    for n in walk_own(f.node):
        if isinstance(n, ast.Assign):
            pairs = []
            t = n.targets[0]
            if isinstance(t, ast.Name):
                pairs = [(t.id, n.value)]
            elif isinstance(t, ast.Tuple):
                if isinstance(n.value, ast.Tuple):
                    pairs = [(x.id, v) for x, v in zip(
                        t.elts, n.value.elts) if isinstance(x, ast.Name)]
            for p, v in pairs:
                if p in ps:
                    for k in keys(v, kw):
                        out.setdefault(k, []).append((p, n))
    return out


def early_use(f, p, node):
    """a read of parameter p before the alias is looked at"""
    own = set(id(x) for x in ast.walk(node))
    for n in walk_own(f.node):
        if isinstance(n, ast.Name) and n.id == p and isinstance(
                n.ctx, ast.Load) and id(n) not in own and (
                    n.lineno, n.col_offset) < (
                        node.lineno, node.col_offset):
            return n
    return None


def inventory(repo):
    al = Aliases(repo)
    out = []
    for c in repo.classes.values():
        for o, n in al.table(c).items():
            out.append(('M', c.short, o, n))
    for m in repo.modules.values():
        for f in repo.funcs.values():
            if f.module is m and f.cls is None and f.outer is None:
                for o in f.old_names:
                    out.append(('F', m.name, o, f.name))
    for (m, o), q in simple_aliases(repo).items():
        out.append(('A', m, o, q))
    for m, s in stars(repo):
        out.append(('S', m, '*', s))
    for f in repo.funcs.values():
        if isinstance(f.node, ast.Lambda):
            continue
        for k, ps in kw_aliases(repo, f).items():
            for p, _ in ps:
                out.append(('K', f.short, k, p))
    return sorted(set(out))


def load():
    with open(INVENTORY) as f:
        return [tuple(line.split()) for line in f if line.strip() and
                not line.startswith('#')]


# --------------------------------------------------- the alias machinery
class Machine(rulebase.RuleCheck):

    """Paths through the decorators and the metaclass"""

    def start(self, it, st, func):
        self.func = func
        return st.with_auto(frozenset())

    def forwards(self, ci):
        """the call passes on *args and **kwargs as they are"""
        n, f = ci.node, ci.fr.func.node
        va = f.args.vararg and f.args.vararg.arg
        ka = f.args.kwarg and f.args.kwarg.arg
        return len(n.args) == 1 and isinstance(
            n.args[0], ast.Starred) and isinstance(
                n.args[0].value, ast.Name) and \
            n.args[0].value.id == va and len(n.keywords) == 1 and \
            n.keywords[0].arg is None and isinstance(
                n.keywords[0].value, ast.Name) and \
            n.keywords[0].value.id == ka

    def mark(self, st, *what):
        return st.with_auto(st.auto | set(what))

    def call(self, it, st, ci):
        nm = self.func.name
        if nm == 'call':
            ft = ci.fterm
            if ci.name == 'new_func' and ci.recv is not None and \
                    it.is_root_self(ci.recv, ci.fr):
                t = T('unk', ('forward', id(ci.node)))
                st = self.mark(st, 'fwd' if self.forwards(ci) else 'bad')
                return [(st, T('unk', 'forwarded'))]
        if nm == 'call_renamed' and ci.name == 'call':
            st = self.mark(st, 'fwd' if self.forwards(ci) else 'bad')
            return [(st, T('unk', 'forwarded'))]
        if nm == '__new__' and ci.fterm is not None and \
                ci.fterm.op == 'call' and ci.fterm.args[0] == 'old_method':
            return [(self.mark(st, 'wrapped'), T('unk', 'wrapped'))]
        return None

    def sub_store(self, it, st, base, idx, value, node, fr):
        if self.func.name == '__new__':
            st = self.mark(st, ('store', idx, value))
        return st

    def sub_del(self, it, st, base, idx, node, fr):
        if self.func.name == '__new__':
            st = self.mark(st, ('del', idx))
        return st

    def attr_store(self, it, st, base, attr, value, node, fr):
        if attr in ('old_method', 'old_function', '__name__'):
            st = self.mark(st, ('set', attr, base, value))
        return st

    def relevant(self, t):
        return self.func is not None and self.func.name == '__new__' and \
            t.op in ('cmp', 'call')

    def loop_back(self, it, st, node, fr):
        if self.func.name != '__new__':
            return st
        old = new = None
        tagged = None
        facts = {t: p for t, p in st.facts.items() if not t.mentions(
            lambda y: y.op == 'phi' and '#ver' not in str(y.args[1]))}
        for t, pol in facts.items():
            if t.op == 'call' and t.args[0] == 'hasattr' and \
                    len(t.args[3]) == 2 and is_const(
                        t.args[3][1], 'old_method'):
                tagged = (t.args[3][0], pol)
            if t.op == 'cmp' and t.args[0] == 'in':
                if t.args[1].op == 'attr' and \
                        t.args[1].args[1] == '__name__':
                    b = t.args[1].args[0]
                    if b.op == 'attr' and b.args[1] == 'old_method':
                        old = (t.args[1], pol)
                    else:
                        new = (t.args[1], pol)
        a = st.auto
        st = st.with_auto(frozenset())
        if tagged is None or not tagged[1]:
            if tagged is not None:
                self.note('machinery', 'metaclass:undecorated', not a,
                          "a method without an old name is changed",
                          rulebase.where_of(fr, node))
            return st
        stores = [x for x in a if x[0] == 'store']
        dels = [x for x in a if x[0] == 'del']
        w = rulebase.where_of(fr, node)
        if old is not None and old[1]:
            nm = new[0] if new else None
            ok = any(x[1].op == 'attr' and x[1].args[1] == '__name__' and
                     not (x[1].args[0].op == 'attr' and
                          x[1].args[0].args[1] == 'old_method')
                     for x in stores) and any(
                         x[1] is old[0] for x in dels) and 'wrapped' in a
            self.note('machinery', 'metaclass:override of old name', ok,
                      "a method overriding an old name is not renamed, "
                      "removed and wrapped", w)
        elif old is not None:
            if new is not None and new[1]:
                self.note('machinery', 'metaclass:override of new name',
                          'wrapped' in a, "a method overriding a renamed "
                          "method is not given the old name", w)
        else:
            ok = any(self.oldname(x[1]) and self.oldfunc(x[2])
                     for x in stores)
            self.note('machinery', 'metaclass:installs', ok,
                      "a decorated method is not installed under its old "
                      "name", w)
            tests = [p for t, p in facts.items() if t.op == 'call' and
                     t.args[0] == 'isinstance' and t.mentions(
                         lambda y: y.op == 'glob' and y.args[0].name in (
                             'builtins.classmethod',
                             'builtins.staticmethod'))]
            plain = len(tests) >= 2 and True not in tests
            for x in stores:
                if self.oldname(x[1]) and self.oldfunc(x[2]):
                    self.note('machinery', 'metaclass:class methods',
                              plain == (x[2].op == 'attr'),
                              "the old name of a class or static method "
                              "is installed as a plain function", w)
        return st

    def oldname(self, t):
        return t.op == 'attr' and t.args[1] == '__name__' and \
            t.args[0].op == 'attr' and t.args[0].args[1] == 'old_method'

    def oldfunc(self, t):
        return t.mentions(lambda x: x.op == 'attr' and
                          x.args[1] == 'old_method')

    def func_exit(self, it, st, func, kind, payload, fr):
        nm = func.name
        if kind != 'return':
            return
        if nm in ('call', 'call_renamed'):
            ok = 'fwd' in st.auto and 'bad' not in st.auto and \
                payload is T('unk', 'forwarded')
            self.note('machinery', func.short, ok,
                      "does not return the result of calling the new "
                      "function with all the arguments", func.where)
        elif nm.startswith('custom_renamed'):
            sets = dict(((x[1], x[2]), x[3]) for x in st.auto
                        if x[0] == 'set')
            attr = 'old_method' if 'method' in nm else 'old_function'
            p = T('param', func.params()[0])
            w = sets.get((attr, p))
            ok = payload is p and w is not None and \
                sets.get(('__name__', w)) is not None and \
                sets[('__name__', w)].op in ('free', 'param')
            self.note('machinery', func.short, ok,
                      "does not tag the function with a wrapper carrying "
                      "its old name", func.where)


class Lookup(rulebase.RuleCheck):

    """PEP8Compatibility.__getattr__"""

    def func_exit(self, it, st, func, kind, payload, fr):
        if kind != 'return':
            if payload is not None:
                pass
            return
        p = payload
        ok = p is not None and p.op == 'call' and \
            p.args[0] == 'getattr' and len(p.args[3]) == 2 and \
            p.args[3][0] is T('param', 'self') and \
            p.args[3][1].op != 'param'
        self.note('machinery', 'PEP8Compatibility.__getattr__', ok,
                  "does not return the attribute with the converted name",
                  func.where)


class Convert(rulebase.RuleCheck):

    """make_attr_name: what is appended for each kind of letters"""

    def start(self, it, st, func):
        self.func = func
        return st.with_auto(())

    def relevant(self, t):
        return t.op == 'call' and t.args[0] in ('isupper', 'islower')

    def call(self, it, st, ci):
        if ci.name == 'append' and len(ci.args) == 1:
            a = ci.args[0]
            if is_const(a, '_'):
                k = '_'
            elif a.op == 'call' and a.args[0] == 'lower':
                k = 'lower'
            else:
                k = 'same'
            return [(st.with_auto(st.auto + (k,)), T('const', None))]
        if ci.name in ('isupper', 'islower', 'lower') and \
                ci.recv is not None:
            return [(st, T('call', ci.name, (), ci.recv, (), ()))]
        return None

    def kinds(self, it, st, t):
        return [it.truth(st, T('call', n, (), t, (), ()))
                for n in ('isupper', 'islower')]

    def expect(self, it, st, l0, l1, c):
        u1 = self.kinds(it, st, l1)[0]
        if u1 is False:
            return ('same',)
        if u1 is not True:
            return None
        u0, w0 = self.kinds(it, st, l0)
        if c is not None:
            cl = self.kinds(it, st, c)[1]
            if cl is None:
                return None
            if cl:
                if u0 or w0:
                    return ('_', 'lower')
                return ('lower',) if u0 is False and w0 is False else None
        if u0:
            return ('lower',)
        if w0:
            return ('_', 'lower')
        return ('lower',) if u0 is False and w0 is False else None

    def loop_back(self, it, st, node, fr):
        a, st = st.auto, st.with_auto(())
        e = st.env
        if 'l0' in e and 'l1' in e and isinstance(
                node, ast.For) and isinstance(node.target, ast.Name):
            l1, c = e['l0'], e['l1']
            l0s = set(t.args[2] for t in st.facts if self.relevant(t) and
                      t.args[2] is not l1 and t.args[2] is not c and
                      t.args[2].op == 'phi')
            l0 = l0s.pop() if len(l0s) == 1 else T('unk', 'l0')
            want = self.expect(it, st, l0, l1, c)
            self.note('machinery', 'make_attr_name:letter',
                      want is None or a == want, "appends %s where %s is "
                      "expected" % (a, want), rulebase.where_of(fr, node))
            self.note('machinery', 'make_attr_name:steps',
                      c is e.get(node.target.id), "the letters looked at "
                      "are not advanced", rulebase.where_of(fr, node))
        return st

    def func_exit(self, it, st, func, kind, payload, fr):
        if kind == 'return' and st.auto and 'l0' in st.env and \
                'l1' in st.env:
            want = self.expect(it, st, st.env['l0'], st.env['l1'], None)
            self.note('machinery', 'make_attr_name:last',
                      want is None or st.auto == want, "appends %s where "
                      "%s is expected" % (st.auto, want), func.where)


FORWARD = {
    'rfc2396.URIFactoryClass.register': 'register',
    'rfc2396.URIFactoryClass.uri': 'from_octets',
    'rfc2396.URIFactoryClass.url_from_pathname': 'from_path',
    'rfc2396.URIFactoryClass.url_from_virtual_file_path':
        'from_virtual_path',
    'rfc2396.URIFactoryClass.resolve': 'resolve',
    'rfc2396.URIFactoryClass.relative': 'relative',
    'odata2.sqlds.SQLEntityContainer.CreateAllTables':
        'create_all_tables',
    'odata2.csdl.Entity.update': 'commit',
    'odata2.metadata.ValidateMetadataDocument': 'validate',
}


class Forward(rulebase.RuleCheck):

    """Hand written deprecated functions call their replacement"""

    def start(self, it, st, func):
        self.func = func
        return st.with_auto(None)

    def call(self, it, st, ci):
        if ci.name == FORWARD[self.func.short]:
            used = set()
            for a in list(ci.args) + list(ci.kw.values()) + [
                    x for x in [ci.recv] if x is not None]:
                for t in a.subterms():
                    if t.op == 'param':
                        used.add(t.args[0])
            order = [a.args[0] for a in ci.args if a.op == 'param']
            r = T('unk', 'replacement')
            return [(st.with_auto((frozenset(used), tuple(order))), r)]
        return None

    def func_exit(self, it, st, func, kind, payload, fr):
        if kind != 'return':
            return
        ps = [p for p in func.params() if p != 'self']
        if st.auto is None:
            ok, why = False, "returns without calling it"
        else:
            used, order = st.auto
            ok = used >= set(ps) and list(order) == [
                p for p in ps if p in order]
            why = "does not pass its arguments on in order"
            if ok and func.name in ('resolve', 'relative'):
                ok = order == ('b',)
            if ok and func.name != 'register':
                ok = payload is T('unk', 'replacement')
                why = "does not return its result"
        self.note('forward', func.short, ok, "the deprecated name of %s %s"
                  % (FORWARD[func.short], why), func.where)


def decorator_name(d):
    if isinstance(d, ast.Call):
        d = d.func
    return getattr(d, 'id', getattr(d, 'attr', '?'))


def run(repo, rep):
    rep.rule('kept', 'each old name still exists and leads to the '
             'recorded current name', 400)
    rep.rule('same', 'in every class the old and the new name reach the '
             'same implementation', 200)
    rep.rule('unique', 'no other definition uses an old name and no '
             'method has two', 100)
    rep.rule('migrated', 'a class with old method names is built by the '
             'migrating metaclass, decorators in working order', 30)
    rep.rule('keywords', 'an old keyword sets its parameter before the '
             'parameter is used', 30)
    rep.rule('machinery', 'the decorators and the metaclass forward and '
             'install old names on every path', 6)
    rep.rule('forward', 'a hand written deprecated name returns the result '
             'of its replacement', 7)
    al = Aliases(repo)
    inv = load()
    sa = simple_aliases(repo)
    st = set(stars(repo))
    for kind, owner, old, new in inv:
        if kind == 'M':
            inst = "%s.%s" % (owner, old)
            c = repo.classes.get('pyslet.' + owner)
            if c is None:
                m, _, n = ('pyslet.' + owner).rpartition('.')
                c = repo.member(repo.modules.get(m), n) \
                    if m in repo.modules else None
            if not isinstance(c, Class):
                rep.bad('kept', inst, "class %s is gone" % owner)
                continue
            v = al.visible(c).get(old)
            w = c.module.rel + ':%s' % c.node.lineno
            if v is None:
                rep.bad('kept', inst, "the old name is gone", w)
            else:
                rep.check(v[1] == new, 'kept', inst, "the old name now "
                          "reaches %s, not %s" % (v[1], new), w)
        elif kind in 'FA':
            inst = "%s.%s" % (owner, old)
            m = repo.modules.get(owner)
            if m is None:
                rep.bad('kept', inst, "module %s is gone" % owner)
                continue
            b = m.names.get(old, ())
            if kind == 'F':
                r = repo.lookup(m, old)
                rep.check(isinstance(r, Func) and r.name == new and
                          old in r.old_names or
                          isinstance(r, Func) and r.name == old,
                          'kept', inst, "the old name does not reach %s" %
                          new, m.rel)
            else:
                r = repo.lookup(m, old)
                if not b:
                    rep.bad('kept', inst, "the old name is gone", m.rel)
                    continue
                q = getattr(r, 'qual', None)
                ok = q == new or sa.get((owner, old)) == new
                if not ok and isinstance(r, Class):
                    ok = repo.is_subclass(r, new)
                rep.check(ok, 'kept', inst, "the old name does not reach "
                          "%s" % new, m.rel)
        elif kind == 'S':
            inst = "%s imports %s" % (owner, new)
            rep.check((owner, new) in st, 'kept', inst,
                      "the old module no longer provides the names of %s" %
                      new, owner)
        elif kind == 'K':
            inst = "%s(%s)" % (owner, old)
            f = repo.funcs.get('pyslet.' + owner)
            if f is None:
                rep.bad('keywords', inst, "function %s is gone" % owner)
                continue
            ps = kw_aliases(repo, f).get(old, ())
            hit = [n for p, n in ps if p == new]
            if not hit:
                rep.bad('keywords', inst, "the old keyword %s no longer "
                        "sets %s" % (old, new), f.where)
                continue
            e = early_use(f, new, hit[0])
            rep.check(e is None, 'keywords', inst, "%s is used before the "
                      "old keyword %s is looked at" % (new, old), f.where)
    # keyword aliases follow the naming convention
    for f in repo.funcs.values():
        if isinstance(f.node, ast.Lambda):
            continue
        for k, ps in kw_aliases(repo, f).items():
            for p, n in ps:
                rep.check(k.replace('_', '').lower() ==
                          p.replace('_', '').lower(), 'keywords',
                          "%s(%s)->%s" % (f.short, k, p), "the old keyword "
                          "%s sets %s" % (k, p), f.where)
    # classes
    for c in repo.classes.values():
        own = al.defined(c)
        w = c.module.rel + ':%s' % c.node.lineno
        if own:
            rep.check(al.migrated(c), 'migrated', c.short, "old method "
                      "names are declared but the class is not built by "
                      "MigratedMetaclass", w)
        for o, f in own:
            ds = [decorator_name(d) for d in f.node.decorator_list]
            i = ds.index('old_method') if 'old_method' in ds else 0
            rep.check('old_method' in ds and
                      'property' not in ds and not any(
                          x in ('classmethod', 'staticmethod')
                          for x in ds[i + 1:]), 'migrated',
                      "%s:decorators" % f.short, "old_method does not "
                      "decorate a plain function or is under a class or "
                      "static method decorator", f.where)
            defs = [x for x in own if x[0] == o]
            rep.check(len(defs) == 1, 'unique', "%s.%s" % (c.short, o),
                      "two methods have this old name", f.where)
        vis = al.visible(c)
        byname = {}
        for o, (k, n) in vis.items():
            byname.setdefault(n, set()).add(o)
            nw = al.where_new(c, n)
            if nw is not k:
                rep.bad('same', "%s.%s" % (c.short, o), "%s is found in %s "
                        "but %s in %s" % (o, k.short, n,
                                          nw.short if nw else 'no class'),
                        w)
            for x in al.classes(c):
                if o in x.attrs or o in x.methods and \
                        x.methods[o].name == o or o in x.self_stores:
                    rep.bad('unique', "%s.%s" % (x.short, o),
                            "another definition shadows the old name", w)
        for n, os_ in byname.items():
            if len(os_) > 1:
                rep.bad('unique', "%s.%s" % (c.short, n), "has the old "
                        "names %s but only the last one reaches an "
                        "override" % ', '.join(sorted(os_)), w)
        if vis:
            rep.ok('same', c.short)
    for m in repo.modules.values():
        for nm, b in m.names.items():
            olds = [x for x in b if isinstance(x, Func) and
                    nm in x.old_names]
            if olds:
                rep.check(len(set(id(x) for x in b)) == 1, 'unique',
                          "%s.%s" % (m.name, nm), "another definition "
                          "uses the old name", m.rel)
        seen = {}
        for src in m.star:
            sm = repo.modules.get(src)
            if sm is None:
                continue
            for nm in sm.names:
                if nm.startswith('_'):
                    continue
                r = repo.lookup(sm, nm)
                q = getattr(r, 'qual', None) or getattr(
                    getattr(r, 'module', None), 'name', None)
                if r is None or not isinstance(r, (Class, Func)):
                    continue
                if nm in seen and seen[nm][0] != q:
                    rep.bad('unique', "%s.%s" % (m.name, nm), "imported "
                            "from both %s and %s" % (seen[nm][1], src),
                            m.rel)
                seen.setdefault(nm, (q, src))
        if seen:
            rep.ok('unique', m.name)
    # machinery
    mc = Machine(rep)
    for q in ('pep8.DeprecatedMethod.call', 'pep8.DeprecatedFunction.call',
              'pep8.old_method.custom_renamed_method',
              'pep8.old_function.custom_renamed_function',
              'pep8.old_method.custom_renamed_method.call_renamed',
              'pep8.old_function.custom_renamed_function.call_renamed',
              'pep8.MigratedMetaclass.__new__'):
        rulebase.run_func(repo, mc, repo.func(q))
    mc.flush()
    lk = Lookup(rep)
    rulebase.run_func(repo, lk, repo.func('pep8.PEP8Compatibility.'
                                          '__getattr__'))
    lk.flush()
    cv = Convert(rep)
    rulebase.run_func(repo, cv, repo.func('pep8.make_attr_name'))
    cv.flush()
    fw = Forward(rep)
    for q in FORWARD:
        if 'pyslet.' + q in repo.funcs:
            rulebase.run_func(repo, fw, repo.func(q))
        else:
            rep.bad('forward', q, "the deprecated name is gone")
    fw.flush()
