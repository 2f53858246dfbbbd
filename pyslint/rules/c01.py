"""C01: SQL text never contains request or entity data"""

import ast

from ..guards import family
from ..peval import Hooks, Obj, PEval, Str, Sym
from ..repo import AnalysisError, Func
from ..sqltext import SqlText

SINKS = ('execute', 'executemany', 'executescript')
TRUSTED = {'quote_identifier', 'add_param'}
DRIVERS = ('sqlite3', 'MySQLdb', 'pymysql', 'psycopg2', 'pyodbc')


def sql_modules(repo):
    base = repo.cls('odata2.sqlds.SQLEntityContainer')
    tops = [c for c in repo.classes.values() if c.module is base.module]
    mods = {base.module}
    for c in repo.classes.values():
        if any(t in repo.mro(c) for t in tops if t is not c and
               t.name.startswith('SQL')):
            mods.add(c.module)
    for m in repo.modules.values():
        for n in ast.walk(m.tree):
            names = [a.name for a in n.names] if isinstance(
                n, ast.Import) else [n.module or ''] if isinstance(
                    n, ast.ImportFrom) else []
            if any(x.split('.')[0] in DRIVERS for x in names):
                mods.add(m)
    return sorted(mods, key=lambda m: m.name)


def statements(repo, rep, mods):
    strict = SqlText(repo, mods, TRUSTED, {'prepare_sql_literal'})
    ddl = SqlText(repo, mods, TRUSTED | {'prepare_sql_literal'})
    n = 0
    seen = {}
    for name in SINKS:
        for call, f in sorted(strict.calls.get(name, ()),
                              key=lambda x: (x[1].qual, x[0].lineno)):
            if not call.args or not isinstance(call.func, ast.Attribute):
                continue
            n += 1
            e = call.args[0]
            if f.name in SINKS:
                # its own callers are judged
                continue
            r = strict.judge(e, f)
            if r is not None and 'prepare_sql_literal' in r.text:
                ddl.known_safe = set()
                r = ddl.judge(e, f)
                if r is None:
                    ok = any(c.lstrip().upper().startswith('CREATE')
                             for c in ddl.consts)
                    inst = '%s:literal' % f.short
                    rep.check(ok, 'statement', inst, "a literal is put "
                              "in a statement that is not CREATE TABLE",
                              where=f.where)
                    continue
            k = seen[f.short] = seen.get(f.short, 0) + 1
            inst = '%s:%i' % (f.short, k)
            rep.funcs.add(f.short)
            if r is not None and r.soft:
                rep.give_up(inst, AnalysisError(
                    '%s at %s' % (r.text, r.where())))
                continue
            rep.check(r is None, 'statement', inst, r and
                      "the statement contains %s (%s)" % (
                          r.text, r.where()),
                      where='%s:%i' % (f.module.rel, call.lineno),
                      trace=r.chain if r else ())
    rep.require(n > 5, "no SQL statements found")
    rep.stats['expressions'] = strict.count + ddl.count
    # fragments returned to the rest of the module by overridable methods
    for name in sorted(strict.funcs):
        if not (name.startswith('sql_expression') or name.endswith(
                '_clause') or name in ('mangle_name', 'prepare_sql_type')):
            continue
        for f in strict.funcs[name]:
            if f.cls is None or isinstance(f.node, ast.Lambda):
                continue
            an = strict if name != 'prepare_sql_type' else ddl
            an.visited = set()
            an.consts = set()
            # limit clauses come with the number of items to skip
            r = an.result(f, (1,) if name.endswith('limit_clause') else ())
            if r is None:
                an.known_safe |= an.visited
            if r is not None and (r.soft or 'the parameter' in r.text):
                continue
            rep.check(r is None, 'fragment', f.short, r and
                      "the SQL returned contains %s (%s)" % (
                          r.text, r.where()), where=f.where,
                      trace=r.chain if r else ())


def placeholders(repo, rep, mods):
    """add_param returns a placeholder, never the value"""
    an = SqlText(repo, mods, TRUSTED)
    for c in family(repo, 'odata2.sqlds.SQLParams'):
        f = c.methods.get('add_param')
        if not isinstance(f, Func):
            continue
        an.visited = set()
        an.consts = set()
        r = an.result(f, ())
        rep.check(r is None, 'placeholder', f.short, r and
                  "the text returned contains %s" % r.text, where=f.where)


class QH(Hooks):

    def inline(self, ev, f, recv, args, kw):
        return True


def quoting(repo, rep, mods):
    for c in family(repo, 'odata2.sqlds.SQLEntityContainer'):
        f = c.methods.get('quote_identifier')
        if not isinstance(f, Func):
            continue
        ev = PEval(repo, QH())
        ident = Sym('identifier')
        bad = None
        for p in ev.run(f, [ident], recv=lambda e: Obj(c, {})):
            if p.kind != 'return':
                continue
            v = p.value
            parts = list(v.parts) if isinstance(v, Str) else []
            if len(parts) != 3 or not isinstance(parts[0], str) or \
                    not parts[0] or parts[0] != parts[2]:
                bad = "an identifier is not returned between quotes"
                continue
            q = parts[0]
            hole = parts[1]
            while isinstance(hole, Sym) and hole.op in ('str', 'text') and \
                    hole.args:
                hole = hole.args[0]
            if not (isinstance(hole, Sym) and hole.op == 'call' and
                    hole.args[0] == 'replace' and
                    tuple(hole.args[2][:1]) == (q,) and
                    hole.args[2][1] in ('', q * 2)):
                bad = "the quote %s inside an identifier is neither " \
                    "removed nor doubled" % q
        rep.check(bad is None, 'quote', f.short, bad or '', where=f.where)


class LH(Hooks):

    def __init__(self, cls, mro):
        self.cls = cls
        self.mro = mro

    def inline(self, ev, f, recv, args, kw):
        return f.module.name.endswith(('sqlds', 'mysqldbds'))

    def cond(self, ev, v, fr):
        if isinstance(v, Sym) and v.op in ('value', 'obj'):
            return True
        return None


def literals(repo, rep, mods):
    """String literals in CREATE TABLE double the quotes"""
    cls = repo.cls('odata2.csdl.StringValue')
    others = [repo.cls('odata2.csdl.' + n) for n in ('GuidValue',)]
    for c in family(repo, 'odata2.sqlds.SQLEntityContainer'):
        f = c.methods.get('prepare_sql_literal')
        if not isinstance(f, Func):
            continue
        raw = Sym('raw')
        bad = None
        ev = PEval(repo, LH(cls, repo.mro(cls)))
        n = 0
        for p in ev.run(f, [lambda: None] and (lambda e: [
                Obj(cls, {'value': raw})]), recv=lambda e: Obj(c, {})):
            if p.kind != 'return':
                continue
            v = p.value
            if isinstance(v, str):
                continue
            n += 1
            parts = list(v.parts) if isinstance(v, Str) else [v]
            for i, x in enumerate(parts):
                if isinstance(x, str):
                    continue
                if not (isinstance(x, Sym) and x.op == 'call' and
                        x.args[0] == 'replace' and x.args[1] == raw and
                        tuple(x.args[2]) == ("'", "''") and
                        0 < i < len(parts) - 1 and
                        str(parts[i - 1]).endswith("'") and
                        str(parts[i + 1]).startswith("'")):
                    bad = "a string is put in a CREATE TABLE statement " \
                        "without doubling its quotes"
        rep.check(bad is None and n > 0, 'literal', f.short, bad or
                  "no literal for strings", where=f.where)


def run(repo, rep):
    rep.rule('statement', "every statement passed to the database is made "
             "from constants, quoted names, placeholders and fragments "
             "made in the same way", 12)
    rep.rule('fragment', "so is every fragment returned by the methods "
             "that build SQL", 20)
    rep.rule('placeholder', "a value that is added as a parameter is not "
             "part of the text returned", 3)
    rep.rule('quote', "the quote character cannot end a quoted name", 2)
    rep.rule('literal', "default values in CREATE TABLE have their quotes "
             "doubled", 1)
    mods = sql_modules(repo)
    rep.stats['modules'] = [m.name for m in mods]
    rep.part(statements, repo, rep, mods)
    rep.part(placeholders, repo, rep, mods)
    rep.part(quoting, repo, rep, mods)
    rep.part(literals, repo, rep, mods)
