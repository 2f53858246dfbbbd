"""Helpers of the guarded-action rules

A guarded action is a call, store or return that may only be reached on
paths where named facts hold about the values it uses.  Completed calls
that matter are kept as events in the automaton state, comparisons are
the branch facts of the interpreter."""

import ast

from .interp import NONE, T, is_const
from .repo import AnalysisError, Class, Ext, Func, walk_own
from .rulebase import RuleCheck, run_func

CODECS = {'decode', 'encode', 'to_text', 'str', 'force_ascii',
          'force_bytes', 'force_text', 'bytes', 'text', 'ul', 'uempty',
          'upper', 'lower', 'strip', 'URI', 'from_octets', 'urlencode',
          'escape_data', 'unescape_data'}
PLAIN = {'decode', 'encode', 'to_text', 'str', 'force_ascii',
         'force_bytes', 'force_text', 'bytes'}
LOGS = {'debug', 'info', 'warning', 'warn', 'error', 'exception', 'log',
        'critical'}


def strip(t, names=PLAIN):
    """t without character set conversions"""
    while True:
        if t.op == 'call' and t.args[0] in names:
            if t.args[2] is not None and t.args[2].op != 'glob' and \
                    t.args[0] not in ('from_octets', 'from_str'):
                t = t.args[2]
                continue
            if t.args[3]:
                t = t.args[3][0]
                continue
        return t


def unver(t):
    while t.op == 'ver':
        t = t.args[0]
    return t


def parts(t, names=PLAIN):
    """Values that a concatenation or formatted string is made of"""
    out = set()
    todo = [t]
    while todo:
        x = strip(todo.pop(), names)
        out.add(x)
        if x.op == 'bin' and x.args[0] in ('Add', 'Mod'):
            todo += [x.args[1], x.args[2]]
        elif x.op in ('tuple', 'list'):
            todo += list(x.args[0])
        elif x.op == 'fmt':
            for y in x.args:
                if isinstance(y, T):
                    todo.append(y)
                elif isinstance(y, tuple):
                    todo += [z for z in y if isinstance(z, T)]
        elif x.op == 'call' and x.args[0] in ('join', 'join_bytes',
                                              'format'):
            todo += list(x.args[3])
            todo += [v for _, v in x.args[4]]
    return out


def is_call(t, *names):
    return t.op == 'call' and t.args[0] in names


def is_attr(t, *names):
    return t.op == 'attr' and t.args[1] in names


def has(t, pred):
    return any(pred(x) for x in t.subterms())


def flows(t, pred, stop=lambda x: False):
    """A subterm satisfying pred that is not below one satisfying stop"""
    todo = [t]
    seen = set()
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        if pred(x):
            return x
        if stop(x):
            continue
        todo += children(x)
    return None


def children(x):
    out = []
    for a in x.args:
        out += _terms(a)
    return out


def _terms(a):
    if isinstance(a, T):
        return [a]
    if isinstance(a, (tuple, frozenset)):
        r = []
        for b in a:
            r += _terms(b)
        return r
    return []


def facts_eq(st, pol=True):
    """Pairs (a, b) known to be equal (or different)"""
    for t, p in st.facts.items():
        if p is pol and t.op == 'cmp' and t.args[0] in ('==', 'is'):
            yield t.args[1], t.args[2]
        # hmac.compare_digest(a, b)
        if p is pol and t.op == 'call' and t.args[0] == 'compare_digest' \
                and len(t.args[3]) == 2:
            yield t.args[3][0], t.args[3][1]


def knows_eq(st, pa, pb):
    for a, b in facts_eq(st):
        if (pa(a) and pb(b)) or (pa(b) and pb(a)):
            return True
    return False


def knows(st, pred, pol):
    return any(p is pol and pred(t) for t, p in st.facts.items())


class EventCheck(RuleCheck):

    """Keeps completed calls as events"""

    model_only = True   # only exceptions the rule models are raised

    def may_raise(self, it, ci):
        return not self.model_only and RuleCheck.may_raise(self, it, ci)

    def start(self, it, st, func):
        self.func = func
        return st.with_auto(frozenset())

    def put(self, st, ev):
        return st.with_auto((st.auto or frozenset()) | {ev})

    def events(self, st, kind):
        return [e for e in (st.auto or ()) if e[0] == kind]

    def throw(self, it, st, ci, c):
        if isinstance(c, str):
            c = Ext('builtins.' + c)
        it.raise_(st, T('new', c, (), (), id(ci.node), ci.fr.ctx,
                        ci.fr.loops))


class _Exits(RuleCheck):

    def __init__(self, rep):
        RuleCheck.__init__(self, rep)
        self.out = set()

    def func_exit(self, it, st, func, kind, payload, fr):
        if kind == 'raise' and payload is not None:
            c = it.exc_class(payload, fr)
            if payload.op == 'glob' and payload.args[0].kind in (
                    'class', 'ext'):
                c = payload.args[0]
            if c is not None:
                self.out.add(c)


def explicit_raises(repo, rep, f):
    """Exception classes that leave f through a raise statement in it"""
    c = _Exits(rep)
    run_func(repo, c, f)
    return c.out


def exc_of(it, payload, fr):
    """Class of an exception leaving a function, None if not known"""
    if payload is None:
        return None
    if payload.op == 'glob' and payload.args[0].kind in ('class', 'ext'):
        return payload.args[0]
    return it.exc_class(payload, fr)


def one(repo, short, rep=None, rule=None):
    f = repo.func(short)
    if f is None:
        raise AnalysisError("anchor %s has gone" % short)
    return f


def family(repo, base):
    """All classes derived from base (a dotted short name), and itself"""
    c = repo.cls(base)
    if c is None:
        raise AnalysisError("anchor class %s has gone" % base)
    out = [c] + [k for k in repo.classes.values()
                 if k is not c and repo.is_subclass(k, c.qual)]
    return out


class Unknown(Exception):
    pass


def value(t, bind):
    """Python value of the term t when bind(term) supplies the values of
    some terms (NotImplemented for the others)"""
    v = bind(t)
    if v is not NotImplemented:
        return v
    if t.op == 'const':
        return t.args[0]
    if t.op in ('tuple', 'list') and isinstance(t.args[0], tuple):
        return tuple(value(x, bind) for x in t.args[0])
    if t.op == 'cmp':
        o, a, b = t.args[0], value(t.args[1], bind), value(t.args[2], bind)
        try:
            if o == '==':
                return a == b
            if o == 'is':
                return a is b or (a == b and type(a) is type(b))
            if o == '<':
                return a < b
            if o == 'in':
                return a in b
        except TypeError:
            raise Unknown()
    if t.op == 'bin':
        o, a, b = t.args[0], value(t.args[1], bind), value(t.args[2], bind)
        try:
            if o == 'Add':
                return a + b
            if o == 'Sub':
                return a - b
            if o == 'FloorDiv':
                return a // b
            if o == 'Mod':
                return a % b
        except (TypeError, ZeroDivisionError):
            raise Unknown()
    if t.op == 'call' and t.args[0] in ('upper', 'lower', 'strip') and \
            t.args[2] is not None and not t.args[3]:
        v = value(t.args[2], bind)
        if isinstance(v, (str, bytes)):
            return getattr(v, t.args[0])()
    raise Unknown()


def consistent(st, bind):
    """False if a branch fact of the state contradicts the binding"""
    for t, p in st.facts.items():
        try:
            if bool(value(t, bind)) is not p:
                return False
        except Unknown:
            pass
    return True


def heap_of(st, base, attr):
    """Value stored in an attribute on this path, None if not stored"""
    return st.heap.get((base, attr))
