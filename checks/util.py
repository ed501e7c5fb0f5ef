"""Small shared queries over value-flow results."""
from vf import T, Term, INT, subterms, is_all

def lists(t):
    """nested list term -> python nested lists of terms"""
    if t.op == 'list': return [lists(x) for x in t.a]
    if t.op in ('obj',) and ('array' in str(t.a[0]).lower() or 'Array' in str(t.a[0])):
        aa = [x for x in t.a[1:] if isinstance(x, Term)]
        return [lists(x) for x in aa] if len(aa) != 1 else lists(aa[0])
    return t
def flat(x):
    while isinstance(x, list) and len(x) == 1 and isinstance(x[0], list): x = x[0]
    return x

def lidx_range(v, t):
    """(lo, hi, step, loop) for an index term that is exactly a loop's induction variable."""
    if t.op == 'copy': return lidx_range(v, t.a[0])
    if t.op != 'lidx': return None
    L = v.loops.get(t.a[0])
    if L is None: return None
    d = t.a[1] if len(t.a) > 1 else 0
    if L.kind == 'parallel':
        p = L.over
        if p is not None and p.op == 'obj' and 'MDRange' in str(p.a[0]):
            aa = [flat(lists(x)) for x in p.a[1:] if isinstance(x, Term)]
            aa = [x for x in aa if isinstance(x, list)]
            if len(aa) >= 2 and d < len(aa[0]) and d < len(aa[1]): return aa[0][d], aa[1][d], 1, L
            return None
        if d == 0 and L.lo is not None and L.hi is not None: return L.lo, L.hi, 1, L
        return None
    if L.lo is None or L.hi is None: return None
    return L.lo, L.hi, L.step, L

class NoVal(Exception): pass

def ceval(t, env):
    """Value of a term in one concrete case.  env(term) gives the case's value of a leaf term (or None); objects evaluate to themselves."""
    x = env(t)
    if x is not None: return x
    op = t.op
    if op in ('copy', 'cast') and isinstance(t.a[0], Term): return ceval(t.a[0], env)
    if op == 'int': return t.a[0]
    if op == 'bool': return bool(t.a[0])
    if op in ('num', 'flt', 'float'): return float(t.a[0])
    if op in ('enum', 'str', 'null', 'obj', 'param', 'subview', 'list', 'pair'): return t
    if op == 'ite': return ceval(t.a[1] if truthy(ceval(t.a[0], env)) else t.a[2], env)
    if op == '!': return not truthy(ceval(t.a[0], env))
    if op in ('&&', '||'):
        r = op == '&&'
        for y in t.a:
            if truthy(ceval(y, env)) != r: return not r
        return r
    if op in ('==', '!='):
        a, b = ceval(t.a[0], env), ceval(t.a[1], env)
        if isinstance(a, Term) and isinstance(b, Term):
            if a is b: r = True
            elif a.op == 'enum' and b.op == 'enum' or 'null' in (a.op, b.op) and 'obj' in (a.op, b.op): r = False
            else: raise NoVal(str(t)[:80])
        elif isinstance(a, Term) or isinstance(b, Term): raise NoVal(str(t)[:80])
        else: r = a == b
        return r == (op == '==')
    if op in ('<', '<=', '>', '>=', '+', '-', '*', '/', '%', '&', '|', 'max', 'min') and len(t.a) == 2:
        a, b = ceval(t.a[0], env), ceval(t.a[1], env)
        if isinstance(a, Term) or isinstance(b, Term): raise NoVal(str(t)[:80])
        if op in '/%':
            if b == 0: raise NoVal('division by zero')
            if isinstance(a, int) and isinstance(b, int):
                q = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
                return q if op == '/' else a - b * q
        return {'<': lambda: a < b, '<=': lambda: a <= b, '>': lambda: a > b, '>=': lambda: a >= b, '+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b, '/': lambda: a / b,
                '&': lambda: a & b, '|': lambda: a | b, 'max': lambda: max(a, b), 'min': lambda: min(a, b)}[op]()
    if op == 'neg': return -ceval(t.a[0], env)
    raise NoVal(str(t)[:80])

def truthy(x):
    if isinstance(x, Term):
        if x.op == 'null': return False
        if x.op == 'obj': return True
        raise NoVal(str(x)[:80])
    return bool(x)

def live(e, env):
    """whether an event happens in the case"""
    for g, p in e.guards:
        if truthy(ceval(g, env)) != p: return False
    return True
