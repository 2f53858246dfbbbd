"""C04: in-memory storage is only touched under the container's lock"""

import ast

from .. import lockset
from ..interp import Check, Interp
from ..repo import Class

STORE = 'pyslet.odata2.memds.InMemoryEntityStore'
INDEX = 'pyslet.odata2.memds.InMemoryAssociationIndex'
CONT = 'pyslet.odata2.memds.InMemoryEntityContainer'

STORE_F = {'data', 'streams', '_deleting'}
INDEX_F = {'index', 'reverseIndex'}


class MemSpec(lockset.Spec):

    modules = ('pyslet.odata2.memds',)
    fields = {'data': 'rw', 'streams': 'rw', '_deleting': 'rw',
              'index': 'rw', 'reverseIndex': 'rw'}
    nested = ('index', 'reverseIndex')
    lock_names = ('lock',)
    contextual = ('odata2.memds.InMemoryEntityStore.start_deleting_entity',
                  'odata2.memds.InMemoryEntityStore.deleting',
                  'odata2.memds.InMemoryEntityStore.stop_deleting',
                  'odata2.memds.InMemoryEntityStore.test_key',
                  'odata2.memds.InMemoryAssociationIndex.delete_hook',
                  'odata2.memds.InMemoryAssociationIndex.rdelete_hook')
    exempt = ('odata2.memds.InMemoryEntityStore.__init__',
              'odata2.memds.InMemoryAssociationIndex.__init__')
    calls = {'lookupMethod': (('index',), ()),
             'rLookupMethod': (('index',), ())}
    cross = True

    def owner(self, it, base, fr):
        if base.op == 'attr':
            if base.args[1] in ('entity_store', 'from_store', 'to_store'):
                return STORE
            if base.args[1] == 'aindex':
                return INDEX
        c = it.typeof(base, fr)
        if isinstance(c, Class):
            for q in (STORE, INDEX, CONT):
                if it.repo.is_subclass(c, q):
                    return q
        if base.op == 'sub' and base.args[0].op == 'attr':
            a = base.args[0].args[1]
            if a == 'entityStorage':
                return STORE
            if a in ('associationStorage', 'associations',
                     'reverseAssociations'):
                return INDEX
        if base.op == 'elem' or (base.op == 'call' and
                                 base.args[0] == 'get'):
            if base.mentions(lambda t: t.op == 'attr' and t.args[1] in (
                    'associations', 'reverseAssociations',
                    'associationStorage')):
                return INDEX
            if base.mentions(lambda t: t.op == 'attr' and
                             t.args[1] == 'entityStorage'):
                return STORE
        return None

    def lock(self, it, t, fr):
        if t.op != 'attr' or t.args[1] != 'lock':
            return False
        b = t.args[0]
        if b.op == 'attr' and b.args[1] == 'container':
            return True
        return self.owner(it, b, fr) == CONT

    def guarded(self, it, base, attr, fr):
        o = self.owner(it, base, fr)
        return (o == STORE and attr in STORE_F) or (
            o == INDEX and attr in INDEX_F)

    # ---- both directions of a link ---------------------------------
    def extra0(self):
        return frozenset()

    def extra(self, it, st, x, event, *args):
        if event == 'mut':
            field, op, key, val = args[:4]
            if op in ('remove', 'discard'):
                op = 'discard'
            return x | frozenset([(field, op, key, val)])
        if event == 'sub_del':
            base, field = args[:2]
            if field in INDEX_F:
                return x | frozenset([(field, 'del', None, None)])
        elif event == 'call':
            ci = args[0]
            n = {'test_key': 'key', 'insert_entity': 'entity',
                 'add_entity': 'entity', 'update_entity': 'entity',
                 'update_entity_stream': 'stream'}.get(ci.name)
            f = self.chk.func
            if n is None or ci.recv is None:
                return x
            for p, what in (('key', 'the test that its key is free'),
                            ('entity', 'the change of its entity')):
                if p != n and ('ever', p) in x and n != 'key':
                    self.chk.note(
                        'together', "%s:%s %s" % (f.short, p, n),
                        ('now', p) in x and st.auto.held > 0,
                        "the %s is stored in a different critical section "
                        "from %s" % (n, what), ci.where)
            return x | frozenset([('ever', n)] + (
                [('now', n)] if st.auto.held > 0 else []))
        return x

    def after_release(self, x):
        return frozenset(e for e in x if e[0] != 'now')

    def extra_done(self, chk, it, st, x, kind, func, payload):
        if kind != 'return' or func.cls is None or \
                not chk.repo.is_subclass(func.cls, INDEX):
            return
        x = frozenset(e for e in x if e[0] not in ('ever', 'now'))
        self.seen.setdefault(func.short, set()).update(
            (e[0], e[1]) for e in x)
        self.paths.setdefault(func, []).append(x)

    def static(self, repo, f, n):
        return isinstance(n.value, ast.Name) and n.value.id == 'self' and (
            (repo.is_subclass(f.cls, STORE) and n.attr in STORE_F) or
            (repo.is_subclass(f.cls, INDEX) and n.attr in INDEX_F))


def run(repo, rep):
    rep.rule('lock-held', 'every access to the entity, stream, deletion and '
             'link tables (including iteration, live views that are '
             'returned, and calls of functions that need the lock) happens '
             'with the container lock held', 20)
    rep.rule('atomic', 'a table is not changed in a different critical '
             'section from the one in which it was tested', 6)
    rep.rule('together', 'the test of a new key, the entity and its stream '
             'share one critical section', 2)
    rules = {'held': 'lock-held', 'atomic': 'atomic', 'together': 'together'}
    rep.rule('both-ways', 'a path that adds or removes a link in one '
             'direction does the same, with the keys exchanged, in the '
             'other direction', 2)
    spec = MemSpec()
    spec.seen = {}
    spec.paths = {}
    lockset.analyse(repo, rep, spec, rules)
    for func, paths in sorted(spec.paths.items(), key=lambda i: i[0].qual):
        if any(e[1] == 'del' for x in paths for e in x):
            continue
        for x in paths:
            for f, op, k, v in x:
                o = 'reverseIndex' if f == 'index' else 'index'
                rep.check((o, op, v, k) in x, 'both-ways',
                          "%s:%s" % (func.short, op),
                          "a link is changed in %s but not the other way "
                          "round in %s" % (f, o), func.where)
    rep.rule('cascade', 'deleting an entity removes its links in both '
             'directions from every association index', 4)
    for name, own, other in (('delete_hook', 'index', 'reverseIndex'),
                             ('rdelete_hook', 'reverseIndex', 'index')):
        f = repo.func('odata2.memds.InMemoryAssociationIndex.' + name)
        ev = spec.seen.get(f.short, set())
        rep.check((own, 'del') in ev and (
            (other, 'discard') in ev), 'cascade', f.short,
            "does not remove the links in both directions", f.where)
    f = repo.func('odata2.memds.InMemoryEntityStore.delete_entity')
    c = DeleteCheck()
    it = Interp(repo, c)
    it.run(f)
    for tab, hook in (('associations', 'delete_hook'),
                      ('reverseAssociations', 'rdelete_hook')):
        rep.check(c.paths and all((tab, hook) in p for p in c.paths),
                  'cascade', "%s:%s" % (f.short, tab),
                  "a path deletes the entity without calling %s on every "
                  "index in %s" % (hook, tab), f.where)


class DeleteCheck(Check):

    """Which indexes have been told when an entity is removed"""

    inline_size = 60
    cap = 400

    def __init__(self):
        self.paths = []

    def start(self, it, st, func):
        return st.with_auto(frozenset())

    def iterate(self, it, st, iterable, node, fr):
        for tab, hook in (('associations', 'delete_hook'),
                          ('reverseAssociations', 'rdelete_hook')):
            if not iterable.mentions(lambda t: t.op == 'attr' and
                                     t.args[1] == tab):
                continue
            # the body calls the hook on every iteration
            for n in node.body:
                for k in ast.walk(n):
                    if isinstance(k, ast.Call) and isinstance(
                            k.func, ast.Attribute) and k.func.attr == hook:
                        if isinstance(n, ast.Expr):
                            st = st.with_auto(st.auto | {(tab, hook)})
        return st

    def sub_del(self, it, st, base, idx, node, fr):
        if base.op == 'attr' and base.args[1] == 'data':
            self.paths.append(st.auto)
        return st

    def after_call(self, it, st, ci, term):
        if ci.name == 'pop' and ci.recv is not None and \
                ci.recv.op == 'attr' and ci.recv.args[1] == 'data':
            self.paths.append(st.auto)
        return st
