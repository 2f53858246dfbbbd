"""Name, attribute and call resolution over the whole package"""

import ast
import importlib
import inspect
import re
import textwrap

from .repo import (BUILTINS, Class, Const, Ext, Func, ModRef, ext_class,
                   walk_own)


def target_names(t):
    if isinstance(t, ast.Name):
        yield t.id
    elif isinstance(t, (ast.Tuple, ast.List)):
        for e in t.elts:
            for n in target_names(e):
                yield n
    elif isinstance(t, ast.Starred):
        for n in target_names(t.value):
            yield n


class Scope(object):

    def __init__(self, kind, names, parent, func=None, cls=None):
        self.kind = kind
        self.names = names
        self.parent = parent
        self.func = func
        self.cls = cls


def scope_names(node):
    """Names bound directly in a function, lambda, class or module"""
    names = set()
    glob = set()
    if isinstance(node, (ast.FunctionDef, ast.Lambda)):
        a = node.args
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            names.add(x.arg)
        for x in (a.vararg, a.kwarg):
            if x:
                names.add(x.arg)
    body = [node.body] if isinstance(node, ast.Lambda) else list(node.body)
    todo = body
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            names.add(n.name)
            todo += n.decorator_list
            continue
        if isinstance(n, ast.Lambda):
            continue
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp,
                          ast.DictComp)):
            # targets are local to the comprehension
            for g in n.generators:
                todo.append(g.iter)
            for w in ast.walk(n):
                if isinstance(w, ast.NamedExpr):
                    names.add(w.target.id)
            continue
        if isinstance(n, ast.Name) and isinstance(
                n.ctx, (ast.Store, ast.Del)):
            names.add(n.id)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            names.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for al in n.names:
                if al.name != '*':
                    names.add((al.asname or al.name).split('.')[0])
        elif isinstance(n, (ast.Global, ast.Nonlocal)):
            glob.update(n.names)
        todo += list(ast.iter_child_nodes(n))
    return names - glob


class Walker(object):

    """Walks every expression of a module with its lexical scope"""

    def __init__(self, repo, module, visit):
        self.repo = repo
        self.m = module
        self.visit_cb = visit     # called as visit(node, scope, parents)

    def run(self):
        top = Scope('module', None, None)
        for s in self.m.tree.body:
            self.walk(s, top, ())

    def walk(self, n, sc, parents):
        if isinstance(n, ast.FunctionDef):
            self.visit_cb(n, sc, parents)
            for d in n.decorator_list:
                self.walk(d, sc, parents + (n,))
            for d in n.args.defaults + [x for x in n.args.kw_defaults
                                        if x is not None]:
                self.walk(d, sc, parents + (n,))
            f = self.find_func(n)
            s2 = Scope('func', scope_names(n), sc, f)
            for b in n.body:
                self.walk(b, s2, parents + (n,))
            return
        if isinstance(n, ast.Lambda):
            self.visit_cb(n, sc, parents)
            for d in n.args.defaults:
                self.walk(d, sc, parents + (n,))
            s2 = Scope('func', scope_names(n), sc, None)
            self.walk(n.body, s2, parents + (n,))
            return
        if isinstance(n, ast.ClassDef):
            self.visit_cb(n, sc, parents)
            for b in n.bases + n.decorator_list + \
                    [k.value for k in n.keywords]:
                self.walk(b, sc, parents + (n,))
            s2 = Scope('class', scope_names(n), sc, None,
                       self.find_class(n))
            for b in n.body:
                self.walk(b, s2, parents + (n,))
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp,
                          ast.DictComp)):
            self.visit_cb(n, sc, parents)
            names = set()
            for g in n.generators:
                names.update(target_names(g.target))
            s2 = Scope('comp', names, sc)
            first = True
            for g in n.generators:
                self.walk(g.iter, sc if first else s2, parents + (n,))
                first = False
                self.walk(g.target, s2, parents + (n,))
                for i in g.ifs:
                    self.walk(i, s2, parents + (n,))
            if isinstance(n, ast.DictComp):
                self.walk(n.key, s2, parents + (n,))
                self.walk(n.value, s2, parents + (n,))
            else:
                self.walk(n.elt, s2, parents + (n,))
            return
        self.visit_cb(n, sc, parents)
        for c in ast.iter_child_nodes(n):
            self.walk(c, sc, parents + (n,))

    def find_func(self, node):
        i = self.__dict__.setdefault('_fi', None)
        if i is None:
            i = {}
            for f in self.repo.funcs.values():
                if f.module is self.m:
                    i[id(f.node)] = f
            for c in self.repo.classes.values():
                if c.module is self.m:
                    for f in list(c.methods.values()) + \
                            list(c.setters.values()):
                        i[id(f.node)] = f
            self._fi = i
        return i.get(id(node))

    def find_class(self, node):
        for c in self.repo.classes.values():
            if c.node is node:
                return c
        return None


def enclosing(sc):
    """(Func, Class) enclosing a scope"""
    func = None
    while sc is not None:
        if sc.kind == 'func' and sc.func is not None and func is None:
            func = sc.func
        if sc.kind == 'class' and func is None:
            return None, sc.cls
        sc = sc.parent
    return func, func.cls if func is not None else None


def local_names(sc):
    """Finds which scope binds names, inner to outer"""
    first = True
    while sc is not None and sc.kind != 'module':
        if sc.kind != 'class' or first:
            yield sc
        if sc.kind != 'comp':
            first = False
        sc = sc.parent


def resolve(repo, m, e, sc):
    """Resolves expression e in scope sc; None if it is a local value"""
    if isinstance(e, ast.Name):
        for s in local_names(sc):
            if e.id in s.names:
                if s.kind == 'func' and s.func is not None:
                    r = s.func.nested.get(e.id)
                    if r is not None:
                        return r
                    return local_import(repo, m, s.func, e.id)
                if s.kind == 'class' and s.cls is not None:
                    return repo.class_member(s.cls, e.id)
                return None
        r = repo.lookup(m, e.id)
        if r is None and e.id in BUILTINS:
            return Ext('builtins.' + e.id)
        return follow(repo, r)
    if isinstance(e, ast.Attribute):
        b = resolve(repo, m, e.value, sc)
        if b is None or b.kind == 'const':
            return None
        return follow(repo, repo.member(b, e.attr))
    return None


def follow(repo, r):
    """Looks through simple aliases X = module.Y"""
    n = 0
    while isinstance(r, Const) and isinstance(
            r.value, (ast.Name, ast.Attribute)) and n < 5:
        if isinstance(r.value, ast.Name) and r.value.id == r.name:
            break
        r2 = repo.resolve_expr(r.value, r.module)
        if r2 is None:
            break
        r = r2
        n += 1
    return r


def local_import(repo, m, func, name):
    found = None
    stores = 0
    for n in walk_own(func.node):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and \
                n.id == name:
            stores += 1
        if isinstance(n, ast.Import):
            for a in n.names:
                if (a.asname or a.name.split('.')[0]) == name:
                    full = a.name if a.asname else a.name.split('.')[0]
                    found = repo.resolve_binding(('import', full))
        elif isinstance(n, ast.ImportFrom):
            for a in n.names:
                if (a.asname or a.name) == name:
                    found = repo.resolve_binding(
                        ('from', repo._from_module(m, n), a.name))
    if stores or name in func.params():
        return None
    return found


_FMT = re.compile(
    r'%(\((?P<key>[^)]*)\))?[#0\- +]*(?P<w>\*|\d+)?(\.(?P<p>\*|\d+))?'
    r'[hlL]?(?P<c>.)', re.S)


def count_format(s):
    """Number of positional arguments of a % format (None = mapping)"""
    if isinstance(s, bytes):
        s = s.decode('latin-1')
    n = 0
    keys = set()
    pos = 0
    while True:
        i = s.find('%', pos)
        if i < 0:
            break
        m = _FMT.match(s, i)
        if m is None:
            return 'bad', None
        pos = m.end()
        if m.group('c') == '%':
            continue
        if m.group('c') not in 'diouxXeEfFgGcrsab':
            return 'bad', None
        if m.group('key') is not None:
            keys.add(m.group('key'))
            continue
        n += 1 + (m.group('w') == '*') + (m.group('p') == '*')
    if keys:
        return 'map', keys
    return 'pos', n


def ext_members(name):
    """Names available on an external class (None if unknown)"""
    c = ext_class(name)
    if c is None:
        return None
    return set(dir(c)) | source_attrs(c)


def source_attrs(c):
    """Instance attributes stored by the source of a stdlib class"""
    out = set()
    for k in c.__mro__:
        if k in _srcattrs:
            out |= _srcattrs[k]
            continue
        s = set()
        try:
            t = ast.parse(textwrap.dedent(inspect.getsource(k)))
            for n in ast.walk(t):
                if isinstance(n, ast.Attribute) and isinstance(
                        n.ctx, ast.Store):
                    s.add(n.attr)
        except (OSError, TypeError, SyntaxError):
            pass
        _srcattrs[k] = s
        out |= s
    return out


_srcattrs = {}


def ext_module_has(mod, attr):
    """Does the stdlib module have attribute attr (None = unknown)"""
    import sys
    top = mod.split('.')[0]
    if top not in sys.stdlib_module_names:
        return None
    if top in ('antigravity', 'this', 'idlelib', 'turtle', 'tkinter'):
        return None
    try:
        o = importlib.import_module(mod)
    except Exception:
        return None
    if hasattr(o, attr):
        return True
    try:
        importlib.import_module(mod + '.' + attr)
        return True
    except Exception:
        return False


def make_attr_name(name):
    # re-implementation of pyslet.pep8.make_attr_name's contract
    if name.islower():
        return name
    result = []
    l0 = l1 = ''
    for c in name:
        if c.islower():
            if l1.isupper():
                if l0.isupper() or l0.islower():
                    result.append('_')
                result.append(l1.lower())
            else:
                result.append(l1)
        else:
            if l1.isupper():
                if l0.isupper():
                    result.append(l1.lower())
                elif l0.islower():
                    result.append('_')
                    result.append(l1.lower())
                else:
                    result.append(l1.lower())
            else:
                result.append(l1)
        l0 = l1
        l1 = c
    if l1.isupper():
        if l0.islower():
            result.append('_')
        result.append(l1.lower())
    else:
        result.append(l1)
    return ''.join(result)


class Members(object):

    """Which attribute names can exist on instances of a class"""

    def __init__(self, repo):
        self.repo = repo
        self.cache = {}
        # old-name wrappers inherited by MigratedMetaclass: a class which
        # overrides a renamed method also gets the old name
        self.ext_stores = {}   # class qual -> names stored from outside
        self._outside()

    def _outside(self):
        """Stores like ``cls.x = v`` or ``obj = C(); obj.x = v``"""
        for m in self.repo.modules.values():
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Attribute) and isinstance(
                        n.ctx, ast.Store) and isinstance(
                        n.value, (ast.Name, ast.Attribute)):
                    r = self.repo.resolve_expr(n.value, m)
                    if isinstance(r, Class):
                        self.ext_stores.setdefault(
                            r.qual, set()).add(n.attr)

    def own(self, c):
        names = set(c.methods) | set(c.attrs) | set(c.self_stores) | \
            set(c.setters) | self.ext_stores.get(c.qual, set())
        return names

    def names(self, c):
        """Returns (names, open) for class c including its bases"""
        if c.qual in self.cache:
            return self.cache[c.qual]
        names = set(dir(object)) | {'__dict__', '__class__', '__module__',
                                    '__weakref__', '__name__', '__mro__'}
        op = False
        for k in self.repo.mro(c):
            if isinstance(k, Class):
                names |= self.own(k)
                if ('__getattr__' in k.methods or '__getattribute__' in
                        k.methods) and k.qual != \
                        'pyslet.pep8.PEP8Compatibility':
                    op = True
                for f in set(k.methods.values()):
                    for n in ast.walk(f.node):
                        if isinstance(n, ast.Call) and isinstance(
                                n.func, ast.Name) and n.func.id == \
                                'setattr' and n.args and isinstance(
                                n.args[0], ast.Name) and f.params() and \
                                n.args[0].id == f.params()[0]:
                            if len(n.args) > 1 and isinstance(
                                    n.args[1], ast.Constant):
                                names.add(n.args[1].value)
                        if isinstance(n, ast.Attribute) and \
                                n.attr == '__dict__' and isinstance(
                                n.ctx, ast.Load) and False:
                            op = True
            elif k is not None and k.name == \
                    'pyslet.xml.xsdatatypes.EnumBase':
                names |= {'encode', '__name__'}
                e = self.enum_members(c)
                if e is None:
                    op = True
                else:
                    names |= e
            elif k is not None and k.name not in (
                    'builtins.object', 'pyslet.pep8.MigratedClass'):
                e = ext_members(k.name)
                if e is None:
                    op = True
                else:
                    names |= e
                    if k.name == 'builtins.Exception' or (
                            ext_class(k.name) and issubclass(
                                ext_class(k.name), BaseException)):
                        names |= {'args', 'message'} - {'message'}
        self.cache[c.qual] = (names, op)
        return names, op

    def enum_members(self, c):
        """Names created by the Enumeration metaclass (None = unknown)"""
        out = set()
        for k in self.repo.mro(c):
            if not isinstance(k, Class):
                continue
            for table in ('decode', 'aliases'):
                for v in k.attrs.get(table, ()):
                    if not isinstance(v, ast.Dict):
                        return None
                    for x in v.keys:
                        if not isinstance(x, ast.Constant):
                            return None
                        if isinstance(x.value, str):
                            out.add(x.value)
        return out

    def has(self, c, attr, subs=True):
        names, op = self.names(c)
        if c.qual.endswith('Mixin'):
            subs = True
        if op or attr in names:
            return True
        if attr.startswith('__') and not attr.endswith('__'):
            return True
        if self.repo.is_subclass(c, 'pyslet.pep8.PEP8Compatibility'):
            new = make_attr_name(attr)
            if new != attr and self.has(c, new, subs):
                return True
        if subs:
            for k in self.repo.subclasses.get(c.qual, ()):
                names, op = self.names(k)
                if op or attr in names:
                    return True
        return False


def vocabulary(repo):
    """Every attribute name that anything could define

    Members of the package's classes, stored attributes, module globals
    and the members of builtin and imported standard library types."""
    v = set()
    import builtins
    for c in repo.classes.values():
        v |= set(c.methods) | set(c.attrs) | set(c.setters)
    exts = set()
    for m in repo.modules.values():
        v |= set(m.names)
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Attribute) and isinstance(
                    n.ctx, ast.Store):
                v.add(n.attr)
            elif isinstance(n, ast.Call) and isinstance(
                    n.func, ast.Name) and n.func.id in (
                    'setattr',) and len(n.args) > 1 and isinstance(
                    n.args[1], ast.Constant):
                v.add(n.args[1].value)
            elif isinstance(n, ast.Call) and getattr(
                    n.func, 'id', getattr(n.func, 'attr', '')) == \
                    'namedtuple' and len(n.args) > 1:
                a = n.args[1]
                if isinstance(a, ast.Constant):
                    v |= set(a.value.replace(',', ' ').split())
                elif isinstance(a, (ast.List, ast.Tuple)):
                    v |= {e.value for e in a.elts
                          if isinstance(e, ast.Constant)}
            elif isinstance(n, ast.Import):
                exts |= {a.name for a in n.names}
            elif isinstance(n, ast.ImportFrom) and n.level == 0:
                exts.add(n.module)
    for n in dir(builtins):
        o = getattr(builtins, n)
        v.add(n)
        v |= set(dir(o))
    import sys
    for name in sorted(exts | {'threading', 'io', 're', 'socket', 'sqlite3',
                               'zipfile', 'select', 'hashlib', 'decimal',
                               'datetime', 'wsgiref.simple_server',
                               'sqlite3.dbapi2', '_io', 'struct',
                               'ssl', 'types', 'urllib.parse',
                               'http.client', 'collections', 'uuid'}):
        top = name.split('.')[0]
        if top not in sys.stdlib_module_names:
            continue
        try:
            o = importlib.import_module(name)
        except Exception:
            continue
        for n in dir(o):
            v.add(n)
            x = getattr(o, n, None)
            if isinstance(x, type):
                v |= set(dir(x)) | source_attrs(x)
            elif isinstance(x, tuple):
                v |= set(dir(x))      # e.g. sys.float_info
    import threading
    for o in (threading.Lock(), threading.RLock(), threading.Condition(),
              threading.local(), re.compile(''), re.match('', ''),
              (lambda: 0), (x for x in ()), importlib):
        v |= set(dir(o))
    # instance attributes set by socketserver and http.server classes
    v |= {'server', 'client_address', 'request', 'rfile', 'wfile',
          'handle_request'}
    # vobject (third party) vCard content
    v |= {'vCard', 'fn', 'org'}
    v |= {'im_func', 'errno', 'strerror', 'filename', 'description',
          '__code__'}
    return v
