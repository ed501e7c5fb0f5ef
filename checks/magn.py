"""magnitude domain: intervals over the extended doubles, with a flag for "may be not-a-number"."""
import math
from formal import K, NoAnswer, sh
INF = math.inf
def _m(a, b):
    if a == 0 or b == 0: return 0.0
    return a * b
def _exp(v):
    if v == INF: return INF
    if v < -745.2: return 0.0
    return math.exp(v) if v < 709.78 else INF
def _log(v): return -INF if v <= 0 else INF if v == INF else math.log(v)
class Range:
    """atoms map to (lo, hi); ev(e) = (lo, hi, maynan)"""
    def __init__(s, at): s.at = at; s.memo = {}
    def ev(s, e):
        r = s.memo.get(e.id)
        if r is None: r = s.memo[e.id] = s._ev(e)
        return r
    def _ev(s, e):
        o = e.op
        if o == 'k': v = float(e.a[0]); return v, v, False
        if o == 'pi': return math.pi, math.pi, False
        if o == 'atom':
            if e.a[0] not in s.at: raise NoAnswer('no range for ' + str(e.a[0]))
            return s.at[e.a[0]] + (False,)
        v = [s.ev(x) for x in e.a]; nan = any(x[2] for x in v)
        l, h = v[0][0], v[0][1]
        if o == 'neg': return -h, -l, nan
        if o == 'abs': return (0.0 if l <= 0 <= h else min(abs(l), abs(h))), max(abs(l), abs(h)), nan
        if o == 'exp': return _exp(l), _exp(h), nan
        if o == 'expm1': return _exp(l) - 1, _exp(h) - 1, nan
        if o == 'log': return _log(l), _log(h), nan or l < 0
        if o == 'log1p': return _log(1 + l), _log(1 + h), nan or l < -1
        if o == 'sqrt': return math.sqrt(max(l, 0)), math.sqrt(max(h, 0)), nan or l < 0
        if o == 'tanh': return math.tanh(l), math.tanh(h), nan
        if o == 'sinh' or o == 'cosh' and l >= 0:
            g = lambda t: (_exp(t) + (1 if o == 'cosh' else -1) * _exp(-t)) / 2
            return g(l), g(h), nan
        if o in ('+', '-', '*', '/', 'fmin', 'fmax'):
            L, H = v[1][0], v[1][1]
            if o == '-': L, H = -H, -L
            if o in '+-':
                if INF in (l, h) and -INF in (L, H) or -INF in (l, h) and INF in (L, H): return -INF, INF, True
                return l + L, h + H, nan
            if o == '*':
                if (INF in (l, h) or -INF in (l, h)) and L <= 0 <= H or (INF in (L, H) or -INF in (L, H)) and l <= 0 <= h: nan = True
                c = [_m(a, b) for a in (l, h) for b in (L, H)]; return min(c), max(c), nan
            if o == '/':
                if (INF in (l, h) or -INF in (l, h)) and (INF in (L, H) or -INF in (L, H)): return -INF, INF, True
                if L <= 0 <= H: return -INF, INF, nan or l <= 0 <= h
                c = [a / b for a in (l, h) for b in (L, H)]; return min(c), max(c), nan
            f = min if o == 'fmin' else max
            if nan: raise NoAnswer('fmin/fmax of a value that may be not-a-number')
            return f(l, L), f(h, H), False
        raise NoAnswer('magnitude of ' + o)
    def decide(s, op, x, y):
        a, b = s.ev(x), s.ev(y)
        if a[2] or b[2]: raise NoAnswer('comparison with a value that may be not-a-number')
        if a[0] == a[1] == b[0] == b[1]: return op in ('<=', '>=', '==')
        if a[1] < b[0]: return op in ('<', '<=', '!=')
        if a[0] > b[1]: return op in ('>', '>=', '!=')
        if op in ('<=', '>') and a[1] <= b[0]: return op == '<='
        if op in ('>=', '<') and a[0] >= b[1]: return op == '>='
        raise NoAnswer('comparison %s %s %s is not settled by the range' % (sh(x), op, sh(y)))
