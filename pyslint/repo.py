"""Loads and resolves the source of the package under analysis.

Nothing is imported from /repo: modules are read and parsed only."""

import ast
import builtins
import hashlib
import importlib
import os
import warnings


warnings.simplefilter("ignore", SyntaxWarning)


class AnalysisError(Exception):
    """The analysis cannot be carried out (missing anchor etc.)"""


REPO = os.environ.get('PYSLINT_REPO', '/repo')
BUILTINS = set(dir(builtins)) | {
    '__file__', '__name__', '__doc__', '__builtins__', '__path__',
    '__package__', '__spec__', '__loader__', '__debug__', '__class__'}


class Fold(ast.NodeTransformer):

    """Folds the py2 flag (and sys.version tests) to the Python 3 value"""

    def const_test(self, t):
        if isinstance(t, ast.Name) and t.id in ('py2', 'py26'):
            return False
        if isinstance(t, ast.Attribute) and t.attr in ('py2', 'py26') and \
                isinstance(t.value, ast.Name) and \
                t.value.id in ('py2', 'py26'):
            return False
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            v = self.const_test(t.operand)
            return None if v is None else not v
        if isinstance(t, ast.BoolOp):
            vals = [self.const_test(v) for v in t.values]
            if isinstance(t.op, ast.And):
                if False in vals:
                    return False
                if all(v is True for v in vals):
                    return True
            else:
                if True in vals:
                    return True
                if all(v is False for v in vals):
                    return False
        return None

    def visit_If(self, node):
        v = self.const_test(node.test)
        if v is True:
            out = []
            for s in node.body:
                r = self.visit(s)
                out += r if isinstance(r, list) else [r]
            return out
        if v is False:
            out = []
            for s in node.orelse:
                r = self.visit(s)
                out += r if isinstance(r, list) else [r]
            return out or ast.copy_location(ast.Pass(), node)
        self.generic_visit(node)
        return node

    def visit_IfExp(self, node):
        v = self.const_test(node.test)
        if v is True:
            return self.visit(node.body)
        if v is False:
            return self.visit(node.orelse)
        self.generic_visit(node)
        return node


class Module(object):

    def __init__(self, name, path, is_pkg):
        self.name = name
        self.path = path
        self.is_pkg = is_pkg
        with open(path, 'rb') as f:
            data = f.read()
        self.digest = hashlib.sha256(data).hexdigest()
        self.src = data.decode('utf-8')
        self.tree = Fold().visit(ast.parse(self.src, path))
        ast.fix_missing_locations(self.tree)
        self.names = {}      # name -> list of bindings
        self.star = []       # star imported module names
        self.rel = os.path.relpath(path, REPO)

    def __repr__(self):
        return "<M %s>" % self.name


class Func(object):

    kind = 'func'

    def __init__(self, module, node, cls, outer, qual):
        self.module = module
        self.node = node
        self.cls = cls
        self.outer = outer
        self.qual = qual
        self.name = getattr(node, 'name', '<lambda>')
        self.nested = {}
        self.static = False
        self.classm = False
        self.prop = False
        self.propset = False
        self.ctxman = False
        self.old_names = []
        for d in getattr(node, 'decorator_list', []):
            if isinstance(d, ast.Name):
                if d.id == 'staticmethod':
                    self.static = True
                elif d.id == 'classmethod':
                    self.classm = True
                elif d.id == 'property':
                    self.prop = True
            elif isinstance(d, ast.Attribute):
                if d.attr in ('setter', 'deleter'):
                    self.propset = True
                if d.attr == 'contextmanager':
                    self.ctxman = True
            elif isinstance(d, ast.Call):
                fn = d.func
                nm = fn.id if isinstance(fn, ast.Name) else \
                    getattr(fn, 'attr', None)
                if nm in ('old_method', 'old_function') and d.args and \
                        isinstance(d.args[0], ast.Constant):
                    self.old_names.append(d.args[0].value)
        self.is_gen = any(
            isinstance(n, (ast.Yield, ast.YieldFrom))
            for n in walk_own(node))

    def params(self):
        a = self.node.args
        return [x.arg for x in a.posonlyargs + a.args]

    @property
    def bound(self):
        """True if the first parameter is self (or cls)"""
        return self.cls is not None and not self.static and \
            self.outer is None

    @property
    def where(self):
        return "%s:%s" % (self.module.rel, self.node.lineno)

    @property
    def short(self):
        return self.qual.replace('pyslet.', '', 1)

    def __repr__(self):
        return "<F %s>" % self.qual


class Class(object):

    kind = 'class'

    def __init__(self, module, node, qual, outer):
        self.module = module
        self.node = node
        self.qual = qual
        self.name = node.name
        self.outer = outer
        self.methods = {}
        self.setters = {}
        self.attrs = {}      # class level name -> list of value exprs
        self.base_refs = []  # resolved
        self._mro = None
        self.self_stores = {}   # attr -> list of (Func, value node, node)

    @property
    def short(self):
        return self.qual.replace('pyslet.', '', 1)

    def __repr__(self):
        return "<C %s>" % self.qual


def walk_own(fnode):
    """Walks a function body without entering nested functions/classes

    (nested def nodes themselves are yielded)."""
    if isinstance(fnode, ast.Lambda):
        todo = [fnode.body]
    else:
        todo = list(fnode.body)
    while todo:
        n = todo.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef,
                          ast.AsyncFunctionDef)):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                todo += n.decorator_list
                todo += [d for d in n.args.defaults]
            continue
        todo += list(ast.iter_child_nodes(n))


class Ext(object):

    """A reference to something outside the package"""

    kind = 'ext'

    def __init__(self, name):
        self.name = name
        self.qual = name

    def __repr__(self):
        return "<X %s>" % self.name

    def __eq__(self, other):
        return isinstance(other, Ext) and other.name == self.name

    def __hash__(self):
        return hash(self.name)


class Const(object):

    """A module or class level variable"""

    kind = 'const'

    def __init__(self, module, name, value, qual):
        self.module = module
        self.name = name
        self.value = value
        self.qual = qual

    def __repr__(self):
        return "<V %s>" % self.qual


class ModRef(object):

    kind = 'module'

    def __init__(self, module):
        self.module = module
        self.qual = module.name

    def __repr__(self):
        return "<MR %s>" % self.qual


class Repo(object):

    def __init__(self, root=None, package='pyslet'):
        self.root = root or REPO
        self.modules = {}
        self.package = package
        base = os.path.join(self.root, package)
        for dp, dn, fn in os.walk(base):
            dn.sort()
            if '__pycache__' in dp:
                continue
            for f in sorted(fn):
                if not f.endswith('.py'):
                    continue
                p = os.path.join(dp, f)
                rel = os.path.relpath(p, self.root)[:-3].split(os.sep)
                pkg = rel[-1] == '__init__'
                if pkg:
                    rel = rel[:-1]
                m = Module('.'.join(rel), p, pkg)
                self.modules[m.name] = m
        self.funcs = {}      # qual -> Func
        self.classes = {}    # qual -> Class
        self.method_index = {}   # name -> list of Func (methods)
        for m in self.modules.values():
            self._scan(m)
        for c in self.classes.values():
            for b in c.node.bases:
                r = self.resolve_expr(b, c.module, c.outer if isinstance(
                    c.outer, Class) else None)
                if r is None:
                    r = self.resolve_expr(b, c.module)
                n = 0
                while isinstance(r, Const) and isinstance(
                        r.value, (ast.Name, ast.Attribute)) and n < 5:
                    r = self.resolve_expr(r.value, r.module)
                    n += 1
                c.base_refs.append(r)
        self.subclasses = {}
        for c in self.classes.values():
            for k in self.mro(c)[1:]:
                if isinstance(k, Class):
                    self.subclasses.setdefault(k.qual, []).append(c)
        for c in self.classes.values():
            self._self_stores(c)

    # ---- scanning -------------------------------------------------
    def _bind(self, table, name, b):
        table.setdefault(name, []).append(b)

    def _scan(self, m):
        self._scan_block(m, m.tree.body, m.names)

    def _target_names(self, t):
        if isinstance(t, ast.Name):
            return [t.id]
        if isinstance(t, (ast.Tuple, ast.List)):
            out = []
            for e in t.elts:
                out += self._target_names(e)
            return out
        if isinstance(t, ast.Starred):
            return self._target_names(t.value)
        return []

    def _scan_block(self, m, body, table):
        for s in body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f = self._add_func(m, s, None, None, m.name + '.' + s.name)
                self._bind(table, s.name, f)
                for o in f.old_names:
                    self._bind(table, o, f)
            elif isinstance(s, ast.ClassDef):
                c = self._add_class(m, s, m.name + '.' + s.name, None)
                self._bind(table, s.name, c)
            elif isinstance(s, ast.Import):
                for a in s.names:
                    if a.asname:
                        self._bind(table, a.asname, ('import', a.name))
                    else:
                        self._bind(table, a.name.split('.')[0],
                                   ('import', a.name.split('.')[0]))
            elif isinstance(s, ast.ImportFrom):
                src = self._from_module(m, s)
                for a in s.names:
                    if a.name == '*':
                        m.star.append(src)
                    else:
                        self._bind(table, a.asname or a.name,
                                   ('from', src, a.name))
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    single = isinstance(t, ast.Name)
                    for n in self._target_names(t):
                        self._bind(table, n, Const(
                            m, n, s.value if single else None,
                            m.name + '.' + n))
            elif isinstance(s, (ast.AugAssign, ast.AnnAssign)):
                for n in self._target_names(s.target):
                    self._bind(table, n, Const(m, n, None, m.name + '.' + n))
            elif isinstance(s, (ast.If, ast.While)):
                self._scan_block(m, s.body, table)
                self._scan_block(m, s.orelse, table)
            elif isinstance(s, ast.For):
                for n in self._target_names(s.target):
                    self._bind(table, n, Const(m, n, None, m.name + '.' + n))
                self._scan_block(m, s.body, table)
                self._scan_block(m, s.orelse, table)
            elif isinstance(s, ast.Try):
                self._scan_block(m, s.body, table)
                for h in s.handlers:
                    self._scan_block(m, h.body, table)
                self._scan_block(m, s.orelse, table)
                self._scan_block(m, s.finalbody, table)
            elif isinstance(s, ast.With):
                for i in s.items:
                    if i.optional_vars is not None:
                        for n in self._target_names(i.optional_vars):
                            self._bind(table, n, Const(
                                m, n, None, m.name + '.' + n))
                self._scan_block(m, s.body, table)

    def _from_module(self, m, s):
        if s.level == 0:
            return s.module
        parts = m.name.split('.')
        if not m.is_pkg:
            parts = parts[:-1]
        parts = parts[:len(parts) - (s.level - 1)]
        if s.module:
            parts = parts + s.module.split('.')
        return '.'.join(parts)

    def _add_func(self, m, node, cls, outer, qual):
        f = Func(m, node, cls, outer, qual)
        # keep the last definition under the qualified name
        self.funcs[qual] = f
        if cls is not None and outer is None:
            self.method_index.setdefault(f.name, []).append(f)
        for n in walk_own(node):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                g = self._add_func(m, n, cls, f, qual + '.' + n.name)
                f.nested[n.name] = g
            elif isinstance(n, ast.ClassDef):
                c = self._add_class(m, n, qual + '.' + n.name, f)
                f.nested[n.name] = c
        return f

    def _add_class(self, m, node, qual, outer):
        c = Class(m, node, qual, outer)
        self.classes[qual] = c

        def block(body):
            for s in body:
                if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    f = Func(m, s, c, None, qual + '.' + s.name)
                    if f.propset:
                        c.setters[s.name] = self._add_func(
                            m, s, c, None, qual + '.' + s.name + '#set')
                        continue
                    f = self._add_func(m, s, c, None, qual + '.' + s.name)
                    c.methods[s.name] = f
                    for o in f.old_names:
                        c.methods[o] = f
                elif isinstance(s, ast.ClassDef):
                    k = self._add_class(m, s, qual + '.' + s.name, c)
                    c.attrs.setdefault(s.name, []).append(k)
                elif isinstance(s, ast.Assign):
                    for t in s.targets:
                        for n in self._target_names(t):
                            c.attrs.setdefault(n, []).append(s.value)
                elif isinstance(s, (ast.AugAssign, ast.AnnAssign)):
                    for n in self._target_names(s.target):
                        c.attrs.setdefault(n, []).append(s.value)
                elif isinstance(s, (ast.Import, ast.ImportFrom)):
                    for a in s.names:
                        c.attrs.setdefault(
                            (a.asname or a.name).split('.')[0],
                            []).append(None)
                elif isinstance(s, ast.For):
                    for n in self._target_names(s.target):
                        c.attrs.setdefault(n, []).append(None)
                    block(s.body)
                elif isinstance(s, (ast.If,)):
                    block(s.body)
                    block(s.orelse)
                elif isinstance(s, ast.Try):
                    block(s.body)
                    for h in s.handlers:
                        block(h.body)
                    block(s.orelse)
                    block(s.finalbody)
        block(node.body)
        # migrated metaclass: method = old name assignments
        return c

    def _self_stores(self, c):
        seen = set()
        for f in list(c.methods.values()) + list(c.setters.values()):
            if id(f) in seen:
                continue
            seen.add(id(f))
            if not f.bound or not f.params():
                continue
            me = f.params()[0]
            for n in ast.walk(f.node):
                targets = []
                val = None
                if isinstance(n, ast.Assign):
                    targets = n.targets
                    val = n.value
                elif isinstance(n, (ast.AugAssign, ast.AnnAssign)):
                    targets = [n.target]
                    val = n.value
                elif isinstance(n, ast.For):
                    targets = [n.target]
                elif isinstance(n, ast.With):
                    targets = [i.optional_vars for i in n.items
                               if i.optional_vars is not None]
                elif isinstance(n, ast.Delete):
                    continue
                for t in targets:
                    multi = isinstance(t, (ast.Tuple, ast.List))
                    for e in (t.elts if multi else [t]):
                        if isinstance(e, ast.Starred):
                            e = e.value
                        if isinstance(e, ast.Attribute) and \
                                isinstance(e.value, ast.Name) and \
                                e.value.id == me:
                            c.self_stores.setdefault(e.attr, []).append(
                                (f, None if multi else val, n))

    # ---- resolution -----------------------------------------------
    def module(self, name):
        try:
            return self.modules[name]
        except KeyError:
            raise AnalysisError("module %s not found" % name)

    def resolve_binding(self, b, depth=0):
        if depth > 12:
            return None
        if isinstance(b, tuple):
            if b[0] == 'import':
                if b[1] in self.modules:
                    return ModRef(self.modules[b[1]])
                return Ext(b[1])
            src, name = b[1], b[2]
            if src in self.modules:
                m = self.modules[src]
                if src + '.' + name in self.modules and \
                        name not in m.names:
                    return ModRef(self.modules[src + '.' + name])
                return self.lookup(m, name, depth + 1)
            return Ext(src + '.' + name)
        return b

    def lookup(self, m, name, depth=0):
        """Resolves name in module m's global scope (last binding wins)"""
        if name in m.names:
            bs = m.names[name]
            # prefer a resolvable import over a fallback None constant
            for b in reversed(bs):
                r = self.resolve_binding(b, depth)
                if r is None:
                    continue
                if isinstance(r, Const) and isinstance(
                        r.value, ast.Constant) and r.value.value is None \
                        and len(bs) > 1:
                    continue
                return r
            return self.resolve_binding(bs[-1], depth)
        for s in m.star:
            if s in self.modules:
                r = self.lookup(self.modules[s], name, depth + 1)
                if r is not None:
                    return r
        if m.is_pkg and m.name + '.' + name in self.modules:
            return ModRef(self.modules[m.name + '.' + name])
        return None

    def member(self, ref, name):
        """Resolves attribute name of a resolved reference"""
        if ref is None:
            return None
        if ref.kind == 'module':
            return self.lookup(ref.module, name)
        if ref.kind == 'class':
            return self.class_member(ref, name)
        if ref.kind == 'ext':
            return Ext(ref.name + '.' + name)
        if ref.kind == 'const' and ref.value is not None:
            r = self.resolve_expr(ref.value, ref.module)
            if r is not None and r is not ref and r.kind != 'const':
                return self.member(r, name)
        return None

    def class_member(self, c, name):
        for k in self.mro(c):
            if isinstance(k, Class):
                if name in k.methods:
                    return k.methods[name]
                if name in k.attrs:
                    v = k.attrs[name][-1]
                    if isinstance(v, Class):
                        return v
                    if v is not None:
                        r = self.resolve_expr(v, k.module, k)
                        if r is not None and r.kind in ('func', 'class'):
                            return r
                    return Const(k.module, name, v, k.qual + '.' + name)
        return None

    def resolve_expr(self, e, module, cls=None, func=None):
        """Resolves a Name/Attribute expression in a static scope"""
        if isinstance(e, ast.Name):
            f = func
            while f is not None:
                if e.id in f.nested:
                    return f.nested[e.id]
                f = f.outer if isinstance(f.outer, Func) else None
            if cls is not None and func is None:
                if e.id in cls.methods:
                    return cls.methods[e.id]
                if e.id in cls.attrs:
                    v = cls.attrs[e.id][-1]
                    if isinstance(v, Class):
                        return v
                    if isinstance(v, ast.AST) and v is not e and not (
                            isinstance(v, ast.Name) and v.id == e.id):
                        return self.resolve_expr(v, module, None)
                    return None
            r = self.lookup(module, e.id)
            if r is None and e.id in BUILTINS:
                return Ext('builtins.' + e.id)
            return r
        if isinstance(e, ast.Attribute):
            return self.member(
                self.resolve_expr(e.value, module, cls, func), e.attr)
        return None

    def mro(self, c):
        if not isinstance(c, Class):
            return [c]
        if c._mro is not None:
            return c._mro
        c._mro = [c]   # recursion guard
        seqs = []
        for b in c.base_refs:
            if isinstance(b, Class):
                seqs.append(list(self.mro(b)))
            elif b is not None and b.kind == 'const' and \
                    b.value is not None:
                # e.g. MigratedClass = types.new_class(...)
                seqs.append([Ext(b.qual)])
            else:
                seqs.append([b if b is not None else Ext('?')])
        seqs.append([s[0] for s in seqs])
        out = [c]
        seqs = [s for s in seqs if s]
        while seqs:
            for s in seqs:
                h = s[0]
                if not any(h in t[1:] for t in seqs):
                    break
            else:
                h = seqs[0][0]
            out.append(h)
            seqs = [[x for x in s if x != h] for s in seqs]
            seqs = [s for s in seqs if s]
        c._mro = out
        return out

    def find_method(self, c, name, after=None):
        """Finds method name in c's MRO (after class after, for super)"""
        mro = self.mro(c)
        if after is not None:
            if after in mro:
                mro = mro[mro.index(after) + 1:]
            else:
                return None
        for k in mro:
            if isinstance(k, Class):
                if name in k.methods:
                    return k.methods[name]
                if name in k.attrs:
                    v = k.attrs[name][-1]
                    if isinstance(v, ast.AST):
                        r = self.resolve_expr(v, k.module, k)
                        if r is not None and r.kind == 'func':
                            return r
                    return None
        return None

    def open_bases(self, c):
        """True if c has a base class outside the package (not object)"""
        for k in self.mro(c):
            if not isinstance(k, Class):
                if k is None or k.name not in (
                        'builtins.object', 'pyslet.pep8.MigratedClass'):
                    return True
        return False

    def ext_bases(self, c):
        return [k for k in self.mro(c) if not isinstance(k, Class)]

    def is_subclass(self, c, qual):
        """Resolved class c is (a subclass of) qual (repo or external)"""
        if isinstance(c, Class):
            return any(getattr(k, 'qual', None) == qual
                       for k in self.mro(c))
        return c is not None and c.qual == qual

    def cls(self, qual):
        if not qual.startswith('pyslet.'):
            qual = 'pyslet.' + qual
        try:
            return self.classes[qual]
        except KeyError:
            raise AnalysisError("class %s not found" % qual)

    def func(self, qual):
        if not qual.startswith('pyslet.'):
            qual = 'pyslet.' + qual
        if qual in self.funcs:
            return self.funcs[qual]
        cq, _, mn = qual.rpartition('.')
        if cq in self.classes:
            f = self.find_method(self.classes[cq], mn)
            if f is not None:
                return f
        raise AnalysisError("function %s not found" % qual)


# ---- exception hierarchy ------------------------------------------
_ext_exc = {}


def ext_class(name):
    """Looks up a builtin or standard library class object by name"""
    if name in _ext_exc:
        return _ext_exc[name]
    r = None
    if name.startswith('builtins.'):
        r = getattr(builtins, name[9:], None)
    elif '.' in name:
        mod, _, attr = name.rpartition('.')
        if mod.split('.')[0] in ('socket', 'os', 'io', 'select', 'ssl',
                                 'sqlite3', 'zipfile', 'threading', 'errno',
                                 'json', 'decimal', 'collections', 'struct',
                                 'string', 'time', 'codecs', 'hashlib',
                                 'random', 'math', 'logging', 'warnings',
                                 'tempfile', 'shutil', 'types', 'itertools',
                                 'datetime', 'base64', 'binascii', 'uuid',
                                 'traceback', 'pickle', 'string', 'sys',
                                 're', 'optparse', 'getpass', 'inspect',
                                 'contextlib', 'functools', 'urllib',
                                 'unicodedata', 'imp', 'numbers', 'hmac',
                                 'quopri', 'copy', 'bisect', 'operator',
                                 'weakref', 'queue', 'locale', 'zlib',
                                 'gzip', 'cgi', 'wsgiref', 'http',
                                 'html', 'textwrap', 'stat', 'xml'):
            try:
                r = getattr(importlib.import_module(mod), attr, None)
            except Exception:
                r = None
    if not isinstance(r, type):
        r = None
    _ext_exc[name] = r
    return r
