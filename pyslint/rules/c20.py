"""C20: content packages stay inside their own directory"""

import ast

from ..peval import Hooks, Obj, PDict, PEval, PList, Raised, Str, Sym
from ..repo import AnalysisError, Class, Func, walk_own
from ..rulebase import baseline

PKG = 'imscpv1p2.ContentPackage'
PURE = {'join', 'normpath', 'normcase', 'abspath', 'realpath', 'splitext',
        'isabs', 'get_virtual_file_path', 'lower', 'upper', 'encode',
        'decode', 'resolve_uri', 'relative_uri', 'from_virtual_path',
        'relative', 'resolve', 'from_octets', 'resolve_base', 'get_base',
        'strip', 'replace'}
TESTS = {'isdir', 'isfile', 'exists', 'is_absolute', 'is_zipfile'}
EFFECTS = {'mkdir', 'makedirs', 'remove', 'rmtree', 'move', 'rmdir',
           'unlink', 'rename', 'symlink', 'extract', 'extractall',
           'copyfile', 'write_bytes', 'write_text', 'copytree', 'touch'}
FX = EFFECTS | {'open', 'copy'}


def path(op, *args):
    return Sym('p', op, *args)


class Pk(Hooks):

    """Knows paths and URLs; the effects on files are events"""

    max_depth = 14
    max_while = 4

    def __init__(self, repo, deep=(), fails=()):
        self.repo = repo
        self.mod = repo.cls(PKG).module
        self.deep = deep
        self.fails = fails

    def inline(self, ev, f, recv, args, kw):
        if f.name in self.deep:
            return True
        if isinstance(recv, Obj) and f.module is self.mod and \
                f.qual not in baseline():
            return True
        return f.module is self.mod and f.qual not in baseline()

    def cond(self, ev, v, fr):
        # the encoding of a name is the same for all segments
        if isinstance(v, Sym) and v.op not in ('p', 'rel') and mentions(
                v, Sym('entry', 0)) or mentions(v, Sym('entry', 1)):
            if 'flag_bits' in repr(v):
                return ev.decide('encoding')
        return None

    def attr(self, ev, base, name, fr):
        if isinstance(base, Sym) and name == '__class__':
            return path('class')
        return NotImplemented

    def compare(self, ev, op, a, b, fr):
        if isinstance(op, (ast.Eq, ast.NotEq)):
            for x, y in ((a, b), (b, a)):
                if isinstance(y, str) and isinstance(x, Sym):
                    r = ev.decide(('text', strip_text(x), y,
                                   lowered(x)))
                    return r if isinstance(op, ast.Eq) else not r
        return NotImplemented

    def call(self, ev, name, fn, recv, args, kw, node, fr):
        a0 = args[0] if args else None
        if name in self.deep:
            return NotImplemented
        if name == 'isinstance' and len(args) == 2 and isinstance(
                a0, Sym):
            if a0.op == 'seg':
                a0 = Sym('seg')
            return ev.decide(('isinstance', a0, str(getattr(
                args[1], 'name', args[1]))))
        if name in ('package_path', 'path_in_path') and args:
            if name == 'path_in_path':
                p, top = a0, args[1] if len(args) > 1 else kw.get(
                    'parent_path')
            else:
                p, top = a0, 'own'
                if not isinstance(recv, Obj):
                    top = None
            if ev.decide(('inside', p, top, name)):
                return Sym('rel', p)
            return None
        if name in ('ignore_file', 'ignore_file_path') and args:
            return ev.decide(('ignored', strip_text(a0)))
        if name in ('to_text', 'str', 'unicode') and len(args) == 1 and \
                isinstance(a0, Sym):
            return Sym('text', a0)
        if name == 'get_unique_path' and isinstance(recv, Obj):
            if ev.choose(2):
                raise Raised('imscpv1p2.CPFilePathError', (), node)
            return Sym('unique', a0)
        if name in ('File', 'new_file') and isinstance(recv, Obj) and \
                len(args) == 2:
            if ev.choose(2):
                raise Raised('imscpv1p2.CPFilePathError', (), node)
            ev.event('file', args[1], dict(ev.facts))
            return Sym('file', args[1])
        if name == 'mkdtemp':
            if 'mkdtemp' in self.fails and ev.choose(2):
                raise Raised('builtins.OSError', (), node)
            v = path('temp', ev.choose(1), node.lineno)
            ev.event('mkdtemp', v)
            return v
        if name == 'ZipFile':
            if 'zip' in self.fails and ev.choose(2):
                raise Raised('zipfile.BadZipFile', (), node)
            return Sym('zip')
        if isinstance(recv, Sym) and recv.op == 'zip':
            if name in ('infolist', 'namelist'):
                n = 1 if 'zip' in self.fails or ev.decide(
                    'entries') else 2
                return PList([Sym('entry', i) for i in range(n)])
            if name in ('extract', 'extractall'):
                raise AnalysisError("files are extracted by zipfile (line "
                                    "%s)" % node.lineno)
            if name in ('read', 'open', 'close'):
                return Sym('data')
        if name == 'split' and isinstance(recv, Sym):
            if args and a0 == '/':
                n = 1 + (ev.choose(3) if ev.facts.get('entries') else 0)
                return PList([Sym('seg', recv, i) for i in range(n)])
            return (path('head', recv), path('tail', recv))
        if name == 'splitext' and isinstance(recv, Sym):
            return (path('stem', recv), path('ext', recv))
        if name in TESTS and isinstance(recv, Sym):
            return ev.decide((name, recv))
        if name == 'read' and 'read' in self.fails and ev.choose(2):
            raise Raised('pyslet.xml.structures.XMLError', (), node)
        if name in EFFECTS and isinstance(recv, (Sym, Str)):
            ev.event(name, recv, dict(ev.facts), tuple(args), node.lineno)
            return Sym('done')
        if name == 'copy' and isinstance(recv, Sym) and args:
            ev.event('copy', a0, dict(ev.facts), (recv,), node.lineno)
            return Sym('done')
        if name == 'open' and (isinstance(recv, Sym) or recv is None):
            mode = kw.get('mode')
            target = recv
            if recv is None:
                target = a0
                mode = mode or (args[1] if len(args) > 1 else None)
            else:
                mode = mode or a0
            if mode is None or isinstance(mode, str) and not (
                    set(mode) & set('wax+')):
                return Sym('handle')
            ev.event('open', target, dict(ev.facts), (), node.lineno)
            return Sym('handle')
        if name in PURE and recv is not None and isinstance(recv, Sym):
            return path(name, recv, *args)
        return NotImplemented


def strip_text(x):
    while isinstance(x, Sym) and (
            x.op == 'text' or x.op == 'p' and x.args[0] in (
                'lower', 'upper', 'normcase')):
        x = x.args[-1] if x.op == 'text' else x.args[1]
    return x


def lowered(x):
    while isinstance(x, Sym) and (
            x.op == 'text' or x.op == 'p' and x.args[0] in (
                'lower', 'normcase')):
        if x.op == 'p' and x.args[0] == 'lower':
            return True
        x = x.args[-1] if x.op == 'text' else x.args[1]
    return False


def norm(p):
    """p without what does not change the file"""
    while isinstance(p, Sym) and p.op == 'p' and p.args[0] in (
            'normpath', 'abspath', 'normcase'):
        p = p.args[1]
    return p


def normal(p):
    return isinstance(p, Sym) and p.op == 'p' and p.args[0] in (
        'normpath', 'abspath', 'realpath')


def inside(p, facts, top):
    """The facts show that p is below top"""
    if p == top:
        return True
    for k, v in facts.items():
        if v is True and isinstance(k, tuple) and k[0] == 'inside' and (
                k[2] == 'own' or k[2] == top):
            q = k[1]
            if norm(q) == norm(p) and (
                    k[3] == 'path_in_path' or normal(q)):
                return True
    return False


def ours(p, facts, top):
    """p is the place of a unique file of the package or above it"""
    if inside(p, facts, top):
        return True
    if isinstance(p, Sym) and p.op == 'p' and p.args[0] == 'join' and \
            p.args[1] == top and len(p.args) == 3 and isinstance(
                p.args[2], Sym) and p.args[2].op == 'unique':
        return True
    if isinstance(p, Sym) and p.op == 'p' and p.args[0] == 'head':
        q = p.args[1]
        return q != top and ours(q, facts, top)
    return False


def free(p, facts):
    """p is neither the manifest nor ignored"""
    man = ign = False
    for k, v in facts.items():
        if not isinstance(k, tuple):
            continue
        if k[0] == 'text' and v is False and k[3] and \
                k[2].lower() == 'imsmanifest.xml' and \
                k[1] in (Sym('rel', p), Sym('rel', norm(p))):
            man = True
        if k[0] == 'ignored' and v is False and k[1] in (
                path('tail', p), p, Sym('rel', p)):
            ign = True
    return man, ign


class Rule(object):

    def __init__(self, repo, rep):
        self.repo = repo
        self.rep = rep
        self.cls = repo.cls(PKG)
        self.seen = {}

    def note(self, rule, inst, ok, msg, f, line=None):
        k = (rule, inst)
        if k not in self.seen or not ok:
            self.seen[k] = (ok, msg, '%s:%s' % (
                f.module.rel, line or f.node.lineno))

    def flush(self):
        for (rule, inst), (ok, msg, where) in sorted(self.seen.items()):
            self.rep.check(ok, rule, inst, msg, where=where)
        self.seen = {}

    def method(self, name):
        f = self.repo.find_method(self.cls, name)
        if f is None:
            raise AnalysisError("no method %s" % name)
        return f

    def pkg(self, **extra):
        a = {'dPath': Sym('dpath'), 'tempDir': Sym('tempDir'),
             'manifest': Sym('manifest'), 'fileTable': Sym('fileTable'),
             'packageName': Sym('packageName')}
        a.update(extra)
        return Obj(self.cls, a)

    def run(self, name, args, hooks=None, **extra):
        f = self.method(name)
        self.rep.funcs.add(f.short)
        ev = PEval(self.repo, hooks or Pk(self.repo))
        ps = ev.run(f, args, recv=lambda e: self.pkg(**extra))
        if not ps:
            raise AnalysisError("no paths in %s" % name)
        return f, ps

    # ---- expanding an archive ----------------------------------------
    def expand(self):
        f, ps = self.run('expand_zip', [Sym('zf')])
        n = 0
        for p in ps:
            top = None
            for e in p.events:
                if e[0] == 'mkdtemp':
                    top = e[1]
                    continue
                if e[0] not in FX:
                    continue
                n += 1
                where, facts = e[1], e[2]
                ok = top is not None and inside(where, facts, top)
                self.note('expand', e[0], ok, "%s() is used on a path that "
                          "has not been shown to be inside the package" %
                          e[0], f, e[4])
                if e[0] == 'open':
                    old = any(facts.get((t, where)) is False
                              for t in ('exists', 'isfile'))
                    self.note('expand', 'new', old, "a file that an "
                              "earlier entry created is overwritten", f,
                              e[4])
        if n < 3:
            raise AnalysisError("expand_zip does not create files")

    # ---- what inside means -------------------------------------------
    def contain(self):
        for name in ('package_path', 'path_in_path'):
            hooks = Pk(self.repo, deep=(name,))
            child, top = Sym('child'), Sym('dpath')
            if name == 'package_path':
                f, ps = self.run(name, [child], hooks)
            else:
                f = self.repo.func('imscpv1p2.path_in_path')
                self.rep.funcs.add(f.short)
                ps = PEval(self.repo, hooks).run(f, [child, top])
            n = 0
            for p in ps:
                if p.kind != 'return' or p.value is None:
                    continue
                facts = dict(p.facts)
                n += 1
                eq = None
                for k, v in facts.items():
                    m = equality(k, v)
                    if m:
                        a, b = m
                        for x, y in ((a, b), (b, a)):
                            if norm(y) == top and up(x) == child:
                                eq = x
                self.note('contain', name + ':ancestor', eq is not None,
                          "a path is accepted although neither it nor a "
                          "directory above it is the package", f)
                if eq is not None and name == 'path_in_path':
                    x = eq
                    while isinstance(x, Sym) and x.op == 'p' and \
                            x.args[0] in ('head', 'normcase'):
                        x = x.args[1]
                    self.note('contain', name + ':normal', normal(x),
                              "the path is not normalised before it is "
                              "compared", f)
            if not n:
                raise AnalysisError("%s accepts nothing" % name)

    # ---- deleting ----------------------------------------------------
    def delete(self):
        f, ps = self.run('delete_file', [Sym('href')])
        n = 0
        for p in ps:
            for e in p.events:
                if e[0] not in FX:
                    continue
                n += 1
                facts = e[2]
                ok = inside(e[1], facts, Sym('dpath')) and \
                    e[1] != Sym('dpath')
                self.note('delete', 'inside', ok, "a file is removed that "
                          "has not been shown to be inside the package",
                          f, e[4])
                man, ign = free(e[1], facts)
                self.note('delete', 'manifest', man, "the manifest can be "
                          "removed", f, e[4])
                self.note('delete', 'ignored', ign, "an ignored file can "
                          "be removed", f, e[4])
                self.note('delete', 'file', e[0] in (
                    'remove', 'unlink') and facts.get(
                        ('isfile', e[1])) is True, "something other than "
                    "a regular file can be removed", f, e[4])
        if not n:
            raise AnalysisError("delete_file removes nothing")

    # ---- adding ------------------------------------------------------
    def add(self):
        class AH(Pk):

            def call(self, ev, name, fn, recv, args, kw, node, fr):
                if name == 'add_child':
                    ev.event('add', None, dict(ev.facts), (), node.lineno)
                    return Sym('newfile')
                return Pk.call(self, ev, name, fn, recv, args, kw, node, fr)

        hooks = AH(self.repo, deep=('new_file',))
        f, ps = self.run('new_file', [Sym('resource'), Sym('href')], hooks)
        n = 0
        for p in ps:
            for e in p.events:
                if e[0] != 'add':
                    continue
                facts = e[2]
                local = [v for k, v in facts.items() if isinstance(
                    k, tuple) and k[0] == 'isinstance' and
                    k[2] == 'FileURL']
                if local == [False]:
                    continue
                n += 1
                good = []
                for k, v in facts.items():
                    if isinstance(k, tuple) and k[0] == 'inside' and \
                            v is True:
                        q = k[1]
                        if inside(q, facts, Sym('dpath')) and \
                                has_call(q, 'get_virtual_file_path'):
                            good.append(q)
                self.note('add', 'inside', bool(good), "a file outside the "
                          "package can be added", f, e[4])
                man = any(free(q, facts)[0] for q in good)
                ign = any(free(q, facts)[1] or free(norm(q), facts)[1]
                          for q in good)
                self.note('add', 'manifest', man, "the manifest can be "
                          "added as a file", f, e[4])
                self.note('add', 'ignored', ign, "an ignored file can be "
                          "added", f, e[4])
        if not n:
            raise AnalysisError("new_file adds nothing")

    def copy(self):
        f, ps = self.run('file_copy', [Sym('resource'), Sym('src_url')])
        n = 0
        for p in ps:
            added = []
            for e in p.events:
                if e[0] == 'file':
                    added.append(e[1])
                    continue
                if e[0] not in FX:
                    continue
                n += 1
                self.note('copy', e[0] + ':inside', ours(
                    e[1], e[2], Sym('dpath')), "%s() is used on a path "
                    "that is not a unique path of the package" % e[0], f,
                    e[4])
                self.note('copy', e[0] + ':checked', any(
                    mentions(a, base(e[1])) for a in added), "%s() comes "
                    "before the file was accepted by new_file" % e[0], f,
                    e[4])
        if n < 2:
            raise AnalysisError("file_copy copies nothing")

    def unique(self):
        hooks = Pk(self.repo, deep=('get_unique_path',))
        f, ps = self.run('get_unique_path', [Sym('suggested')], hooks)
        n = 0
        for p in ps:
            if p.kind != 'return':
                continue
            n += 1
            facts = dict(p.facts)
            ok = False
            for k, v in facts.items():
                if isinstance(k, tuple) and k[0] == 'inside' and \
                        v is True and mentions(p.value, Sym(
                            'rel', k[1])) and inside(
                                k[1], facts, Sym('dpath')):
                    ok = True
            self.note('unique', 'inside', ok, "a path outside the package "
                      "is offered for a new file", f)
            free_ = any(v is False and is_member(k, 'fileTable')
                        for k, v in facts.items())
            self.note('unique', 'new', free_, "the path of an existing "
                      "file is offered for a new file", f)
        if not n:
            raise AnalysisError("get_unique_path returns nothing")

    # ---- temporary directories ---------------------------------------
    def temp(self):
        f, ps = self.run('close', [])
        n = 0
        for p in ps:
            for e in p.events:
                if e[0] not in FX:
                    continue
                n += 1
                facts = e[2]
                self.note('temp', 'close:guard', e[1] == Sym('dpath') and
                          facts.get(Sym('tempDir')) is True, "a directory "
                          "that is not temporary can be removed", f, e[4])
        if not n:
            raise AnalysisError("close does not remove anything")
        init = self.method('__init__')
        new = self.repo.cls(PKG)
        for label, args in (('new', []), ('path', [Sym('dpath_arg')])):
            hooks = Pk(self.repo, deep=('expand_zip', 'close', 'Close'),
                       fails=('mkdtemp', 'zip', 'read'))
            hooks.max_paths = 20000
            ev = PEval(self.repo, hooks)
            objs = []

            def make(e):
                o = Obj(new, {})
                objs.append(o)
                return o
            k = 0
            for p in ev.run(init, args, recv=make):
                o = objs[k]
                k += 1
                temps = [e[1] for e in p.events if e[0] == 'mkdtemp']
                for e in p.events:
                    if e[0] in ('rmtree', 'remove', 'move'):
                        self.note('temp', label + ':removed',
                                  e[1] in temps, "the constructor can "
                                  "remove a directory that the package "
                                  "did not create", init, e[4])
                if p.kind == 'return' and ev.truth(o.attrs.get(
                        'tempDir', False)) is True:
                    self.note('temp', label + ':flag', o.attrs.get(
                        'dPath') in temps, "the directory of the package "
                        "is marked as temporary although the package did "
                        "not create it", init)
                elif p.kind == 'return':
                    self.note('temp', label + ':flag', True, '', init)
        ex = self.method('expand_zip')
        for p in self.run('expand_zip', [Sym('zf')], Pk(
                self.repo, fails=('mkdtemp', 'zip')))[1]:
            pass

    # ---- nothing else touches files ----------------------------------
    def others(self):
        mod = self.cls.module
        known = {'expand_zip', 'delete_file', 'file_copy', 'close',
                 '__init__'}
        for f in self.repo.funcs.values():
            if f.module is not mod and not (
                    f.cls is not None and self.cls in self.repo.mro(f.cls)):
                continue
            for n in walk_own(f.node):
                if not isinstance(n, ast.Call):
                    continue
                name = n.func.attr if isinstance(
                    n.func, ast.Attribute) else n.func.id if isinstance(
                        n.func, ast.Name) else ''
                if name in EFFECTS or name == 'copy' and n.args or \
                        name == 'open' and any(
                            isinstance(a, ast.Constant) and set(
                                str(a.value)) & set('wax+')
                            for a in list(n.args) + [
                                k.value for k in n.keywords]):
                    ok = f.cls is not None and (
                        f.name in known or self.reached(f, known))
                    self.note('sites', '%s:%s' % (f.short, name), ok,
                              "files are changed outside the routines that "
                              "check where they are", f, n.lineno)

    def reached(self, f, known):
        """Only called from the routines that are evaluated"""
        if f.qual in baseline():
            return False
        callers = [g for g in self.repo.funcs.values() if any(
            isinstance(n, (ast.Name, ast.Attribute)) and getattr(
                n, 'attr', getattr(n, 'id', None)) == f.name
            for n in walk_own(g.node))]
        return bool(callers) and all(
            g.module is f.module and (g.name in known)
            for g in callers)

    # ---- documents added to a package --------------------------------
    def documents(self):
        n = 0
        for f in sorted(self.repo.funcs.values(), key=lambda x: x.qual):
            if f.name not in ('add_to_content_package',) or \
                    f.cls is None:
                continue
            params = [a.arg for a in f.node.args.args]
            if not any(isinstance(x, ast.Attribute) and x.attr in (
                    'set_base', 'SetBase') for x in ast.walk(f.node)):
                continue
            n += 1
            self.rep.funcs.add(f.short)
            self.document(f, params)
        if not n:
            raise AnalysisError("no documents are added to packages")

    def document(self, f, params):
        rule = self

        class DH(Pk):

            def inline(self, ev, g, recv, args, kw):
                return g.qual not in baseline()

            def call(self, ev, name, fn, recv, args, kw, node, fr):
                if name in ('set_base', 'SetBase') and args:
                    ev.event('base', args[0], dict(ev.facts), (),
                             node.lineno)
                    return None
                if name in ('GetUniqueFile', 'get_unique_path') and args:
                    return Sym('unique', args[0])
                if name in ('File', 'new_file') and len(args) == 2:
                    ev.event('file', args[1], dict(ev.facts))
                    return Sym('file', args[1])
                return Pk.call(self, ev, name, fn, recv, args, kw, node, fr)

        cp = Sym('cp')
        ev = PEval(self.repo, DH(self.repo))
        for p in ev.run(f, [cp] + [Sym(x) for x in params[2:]],
                        recv=lambda e: Obj(f.cls, {
                            'identifier': Sym('identifier'),
                            'parent': Sym('parent'),
                            'metadata': Sym('metadata')})):
            if p.kind == 'raise':
                continue
            files = [e[1] for e in p.events if e[0] == 'file']
            for e in p.events:
                if e[0] != 'base':
                    continue
                top = Sym('attr', cp, 'dPath')
                b = e[1]
                ok = isinstance(b, Sym) and any(
                    isinstance(x, Sym) and x.op == 'p' and
                    x.args[0] == 'join' and isinstance(
                        x.args[-1], Sym) and x.args[-1].op == 'unique' and
                    'dPath' in repr(x.args[1])
                    for x in subterms(b))
                rule.note('document', f.short + ':place', ok, "a document "
                          "is given a place that is not a unique path of "
                          "the package", f, e[4])
                rule.note('document', f.short + ':added', any(
                    mentions(x, b) for x in files), "a document is written "
                    "to a package without having been accepted by "
                    "new_file", f, e[4])


def equality(k, v):
    """(a, b) if the fact says that a equals b"""
    if isinstance(k, tuple) and len(k) == 3 and k[0] == '==' and v is True:
        return k[1], k[2]
    if isinstance(k, Sym) and k.op == 'cmp' and len(k.args) == 3:
        if k.args[0] == '==' and v is True or \
                k.args[0] == '!=' and v is False:
            return k.args[1], k.args[2]
    if isinstance(k, Sym) and k.op in ('==', 'eq') and v is True:
        return k.args[0], k.args[1]
    if isinstance(k, Sym) and k.op in ('!=', 'ne') and v is False:
        return k.args[0], k.args[1]
    return None


def up(x):
    """What x was before directories below it were cut off"""
    while isinstance(x, Sym) and x.op == 'p' and x.args[0] in (
            'head', 'normpath', 'normcase', 'abspath'):
        x = x.args[1]
    return x


def subterms(x):
    yield x
    for a in (x.args if isinstance(x, Sym) else x.parts if isinstance(
            x, Str) else x if isinstance(x, tuple) else ()):
        for y in subterms(a):
            yield y


def mentions(x, y):
    return any(z == y for z in subterms(x) if isinstance(z, Sym))


def has_call(x, name):
    return any(isinstance(z, Sym) and z.op == 'p' and z.args[0] == name
               for z in subterms(x))


def base(p):
    while isinstance(p, Sym) and p.op == 'p' and p.args[0] == 'head':
        p = p.args[1]
    return p


def is_member(k, name):
    return name in repr(k) and (
        isinstance(k, Sym) and k.op in ('in', 'cmp', 'contains') or
        isinstance(k, tuple) and k[:1] == ('in',))


def run(repo, rep):
    rep.rule('expand', "an archive is expanded below its directory only", 3)
    rep.rule('contain', "a path is inside when it, or a directory above it, "
             "is the package", 3)
    rep.rule('delete', "only regular files of the package are removed", 4)
    rep.rule('add', "only files of the package are added to resources", 3)
    rep.rule('copy', "files are copied to new places in the package", 3)
    rep.rule('unique', "new files get an unused path of the package", 2)
    rep.rule('temp', "only temporary directories of the package are "
             "removed", 4)
    rep.rule('sites', "files are changed by these routines only", 5)
    rep.rule('document', "documents are written to unique paths of the "
             "package", 2)
    r = Rule(repo, rep)
    for fn in (r.expand, r.contain, r.delete, r.add, r.copy, r.unique,
               r.temp, r.others, r.documents):
        rep.part(fn)
    r.flush()
