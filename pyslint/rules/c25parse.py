"""The grouping decisions of the expression parser (part of C25)"""

from .. import guards
from ..interp import NONE, T
from ..repo import AnalysisError, Class, Func

OPS = ('UnaryExpression', 'BinaryExpression')


class Binding(guards.EventCheck):

    """Which operator an operand is added to"""

    keep_inline = ('unicode5.ParserMixin.require_production',
                   'unicode5.ParserMixin.parser_error',
                   'unicode5.ParserMixin.require_production_end')

    def __init__(self, rep):
        guards.EventCheck.__init__(self, rep)
        self.lefts = set()      # variables that hold the left operator
        self.later = []

    def is_op(self, t):
        return t is not None and t.op == 'new' and isinstance(
            t.args[0], Class) and t.args[0].name in OPS

    def relevant(self, t):
        return t.op == 'cmp'

    def after_call(self, it, st, ci, val):
        if self.is_op(val):
            st = self.put(st, ('new', val))
        return st

    def call(self, it, st, ci):
        if ci.name == 'add_operand' and ci.recv is not None and \
                (ci.args or ci.kw):
            self.bind(it, st, ci)
            return [(self.put(st, ('bound', ci.recv)), NONE)]
        return None

    def pending(self, st):
        return [e[1] for e in self.events(st, 'new')]

    def bind(self, it, st, ci):
        x = ci.recv
        a = ci.args[0] if ci.args else list(ci.kw.values())[0]
        line = ci.node.lineno - self.func.node.lineno
        inst = '%s@%s' % (self.func.short,
                          'right' if self.is_op(x) else 'left')
        none = T('cmp', 'is', a, NONE)
        self.note('parse-operand', inst, it.truth(st, none) is False,
                  "an operator is given an operand that may be missing "
                  "(None): an operator that follows another one binds "
                  "nothing", ci.where, st.trace)
        pend = self.pending(st)
        if x in pend:
            # the operator just read takes the operand before it
            ok = False
            for t, p in st.facts.items():
                if t.op == 'cmp' and t.args[0] == '<' and \
                        t.args[2] is x and p:
                    ok = True
                if t.op == 'cmp' and t.args[0] == 'is' and \
                        t.args[2] is NONE and p and \
                        not self.is_op(t.args[1]) and \
                        t.args[1] is not a:
                    ok = True
                if t.op == 'cmp' and t.args[0] == '<' and \
                        t.args[2] is x:
                    self.lefts |= {n for n, v in st.env.items()
                                   if v is t.args[1]}
            if not ok:
                self.later.append((inst, {
                    n for n, v in st.env.items() if v is NONE}, ci.where,
                    st.trace))
                return
            self.note('parse-group', inst, ok,
                      "an operand goes to the operator on its right "
                      "although the one on its left may bind as tightly",
                      ci.where, st.trace)
        elif pend:
            ok = any(t.op == 'cmp' and t.args[0] == '<' and
                     t.args[1] is x and t.args[2] in pend and not p
                     for t, p in st.facts.items())
            self.note('parse-group', inst, ok,
                      "an operand goes to the operator on its left "
                      "although the one on its right may bind more "
                      "tightly", ci.where, st.trace)
        else:
            self.note('parse-group', inst, True)

    def settle(self):
        """No operator had been read before this one"""
        for inst, none, where, trace in self.later:
            self.note('parse-group', inst, bool(none & self.lefts),
                      "an operand goes to the operator on its right "
                      "although the one on its left may bind as tightly",
                      where, trace)

    def loop_back(self, it, st, node, fr):
        # a new token is read: the last operator is no longer pending
        # once it was kept as the left one
        if fr.func is self.func and not fr.loops[:-1]:
            return st.with_auto(frozenset(
                e for e in (st.auto or ()) if e[0] not in ('new',
                                                           'bound')))
        return st


class Passing(guards.EventCheck):

    """Arguments of calls between the functions of the parser"""

    inline_new = False

    def __init__(self, rep, graph, root):
        guards.EventCheck.__init__(self, rep)
        self.graph = graph
        self.sites = []

    def call(self, it, st, ci):
        for f in ci.targets:
            if isinstance(f, Func) and f in self.graph:
                got = {}
                ps = f.params()[1:] if f.bound else f.params()
                for n, p in enumerate(ps):
                    if n < len(ci.args):
                        got[p] = ci.args[n]
                    elif p in ci.kw:
                        got[p] = ci.kw[p]
                self.sites.append((self.func, f, got, ci.where, st.trace))
        return None


def reach(repo, root):
    """Methods of the parser that can call root again (and root)"""
    import ast
    c = root.cls
    calls = {}
    for m in set(c.methods.values()):
        out = set()
        for n in ast.walk(m.node):
            if isinstance(n, ast.Call) and isinstance(n.func,
                                                      ast.Attribute):
                f = repo.find_method(c, n.func.attr)
                if isinstance(f, Func):
                    out.add(f)
        calls[m] = out
    down = set()
    todo = [root]
    while todo:
        f = todo.pop()
        if f in down:
            continue
        down.add(f)
        todo += calls.get(f, ())
    back = {root}
    while True:
        n = {f for f in down if calls.get(f, set()) & back} | back
        if n == back:
            break
        back = n
    return back & down


def check(c25):
    repo, rep = c25.repo, c25.rep
    rep.rule('parse-group', "an operand goes to the operator on its left "
             "unless the one on its right is known to bind more tightly")
    rep.rule('parse-operand', "an operator is only given operands that "
             "are there")
    rep.rule('params', "the parameters of an expression are known in "
             "every part of it", 2)
    root = repo.func('odata2.core.Parser.parse_common_expression')
    from ..rulebase import run_func
    chk = Binding(rep)
    run_func(repo, chk, root)
    chk.settle()
    if not any(r == 'parse-group' for r, i in list(chk.good) +
               list(chk.bad)):
        raise AnalysisError("no operand is bound in the parser")
    chk.flush()
    graph = reach(repo, root)
    ps = root.params()[1:]
    if not ps:
        rep.bad('params', root.short, "the expression parser takes no "
                "parameters", root.where)
        return
    need = {root: ps[0]}
    sites = []
    for f in sorted(graph, key=lambda f: f.qual):
        p = Passing(rep, graph, root)
        run_func(repo, p, f)
        sites += p.sites
    todo = True
    verdict = {}
    while todo:
        todo = False
        for f, g, got, where, trace in sites:
            if g not in need:
                continue
            a = got.get(need[g])
            inst = '%s>%s' % (f.short, g.name)
            ok = False
            if a is not None:
                for q in f.params():
                    if a is T('param', q):
                        if f not in need:
                            need[f] = q
                            todo = True
                        ok = need[f] == q
            if not ok:
                if f not in need:
                    need[f] = None
                verdict[inst] = (where, trace, g)
            else:
                verdict.setdefault(inst, None)
    for inst, v in sorted(verdict.items()):
        rep.check(v is None, 'params', inst,
                  "%s does not pass on the parameters of the expression"
                  % inst.split('>')[0], v[0] if v else '',
                  v[1] if v else ())
