"""Value of a symbolic term under an assignment of some of its parts

The partial evaluator leaves path conditions as terms over unknown
values.  A condition is checked against a finite partition of those
values: satisfiable(facts, bind) is False when a fact of the path
contradicts the assignment."""

from .peval import PDict, PList, Str, Sym


class Unknown(Exception):
    pass


METHODS = ('startswith', 'endswith', 'lower', 'upper', 'strip', 'lstrip',
           'rstrip', 'split', 'rsplit', 'find', 'rfind', 'partition',
           'rpartition', 'join', 'replace', 'index', 'rindex', 'isdigit')


def sval(t, bind):
    v = bind(t)
    if v is not NotImplemented:
        return v
    if t is None or isinstance(t, (bool, int, str, bytes, float)):
        return t
    if isinstance(t, tuple):
        return tuple(sval(x, bind) for x in t)
    if isinstance(t, PList):
        if t.open:
            raise Unknown()
        return [sval(x, bind) for x in t.items]
    if isinstance(t, Str):
        return ''.join(str(sval(x, bind)) for x in t.parts)
    if not isinstance(t, Sym):
        raise Unknown()
    try:
        return _sval(t, bind)
    except (TypeError, ValueError, IndexError, KeyError, AttributeError,
            ZeroDivisionError):
        raise Unknown()


def _sval(t, bind):
    a = t.args
    if t.op == 'not':
        return not sval(a[0], bind)
    if t.op == 'cmp':
        x, y = sval(a[1], bind), sval(a[2], bind)
        if a[0] == '==':
            return x == y
        if a[0] == 'is':
            return x is y or (x == y and type(x) is type(y))
        if a[0] == '<':
            return x < y
        if a[0] == 'in':
            return x in y
    if t.op == 'len':
        return len(sval(a[0], bind))
    if t.op == 'sub':
        return sval(a[0], bind)[sval(a[1], bind)]
    if t.op == 'slice':
        return sval(a[0], bind)[slice(*[sval(x, bind) for x in a[1:]])]
    if t.op == 'bin':
        x, y = sval(a[1], bind), sval(a[2], bind)
        if a[0] == 'Add':
            return x + y
        if a[0] == 'Sub':
            return x - y
        if a[0] == 'Mult':
            return x * y
        if a[0] == 'FloorDiv':
            return x // y
        if a[0] == 'Mod':
            return x % y
        if a[0] == 'BitAnd':
            return x & y
        if a[0] == 'BitOr':
            return x | y
    if t.op == 'call' and a[0] in METHODS and not a[3]:
        r = sval(a[1], bind)
        if isinstance(r, (str, bytes)):
            return getattr(r, a[0])(*[sval(x, bind) for x in a[2]])
    if t.op == 'call' and a[0] in ('max', 'min', 'abs', 'len', 'int',
                                   'bool', 'sum') and not a[3]:
        f = {'max': max, 'min': min, 'abs': abs, 'len': len, 'int': int,
             'bool': bool, 'sum': sum}[a[0]]
        return f(*[sval(x, bind) for x in a[2]])
    raise Unknown()


def satisfiable(facts, bind):
    """False if a fact contradicts the assignment"""
    for k, v in facts:
        if isinstance(k, tuple) and k and k[0] in ('heap', 'id'):
            continue
        try:
            if bool(sval(k, bind)) is not v:
                return False
        except Unknown:
            pass
    return True
