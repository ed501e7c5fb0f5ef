"""Formal expressions: the value domain of the formula analyses.

E is a hash-consed expression over atoms, constants, elementary functions, uninterpreted functions of one variable (with
derivative order) and an uninterpreted linear integral operator.  D differentiates formally.  Two expressions are compared
as formulas: `same` decides identity by evaluating both in several random models of 50-digit arithmetic (polynomial identity
testing; uninterpreted functions are random polynomials, the integral a random linear functional)."""
from decimal import Decimal, getcontext, localcontext
from fractions import Fraction
import random, zlib
getcontext().prec = 60

class E:
    __slots__ = ('op', 'a', 'id', '_d')
    tab = {}; n = 0
    def __new__(cls, op, *a):
        k = (op,) + a
        r = E.tab.get(k)
        if r is None:
            r = object.__new__(cls); r.op = op; r.a = a; E.n += 1; r.id = E.n; r._d = None; E.tab[k] = r
        return r
    def __repr__(s): return sh(s)
    def __hash__(s): return s.id
    def __eq__(s, o): return s is o

def K(x): return E('k', Fraction(x) if not isinstance(x, Fraction) else x)
PI = E('pi'); ZERO = K(0); ONE = K(1)
def A(name): return E('atom', name)
_und = [0]
def undef(what): _und[0] += 1; return E('atom', 'unset:%s#%d' % (what, _und[0]))
def isk(x): return x.op == 'k'
def add(x, y):
    if isk(x) and isk(y): return K(x.a[0] + y.a[0])
    if x is ZERO: return y
    if y is ZERO: return x
    return E('+', x, y)
def neg(x): return K(-x.a[0]) if isk(x) else x.a[0] if x.op == 'neg' else E('neg', x)
def sub(x, y):
    if isk(x) and isk(y): return K(x.a[0] - y.a[0])
    if y is ZERO: return x
    if x is ZERO: return neg(y)
    return E('-', x, y)
def mul(x, y):
    if isk(x) and isk(y): return K(x.a[0] * y.a[0])
    if x is ONE: return y
    if y is ONE: return x
    if (x is ZERO or y is ZERO) and not unset(x) and not unset(y): return ZERO
    return E('*', x, y)
def unset(x): return x.op == 'atom' and str(x.a[0]).startswith('unset:')
def div(x, y):
    if isk(x) and isk(y) and y.a[0] != 0: return K(x.a[0] / y.a[0])
    if y is ONE: return x
    return E('/', x, y)
def f1(n, x):
    if n == 'abs' and isk(x): return K(abs(x.a[0]))
    if n == 'sqrt' and isk(x):
        p, q = x.a[0].numerator, x.a[0].denominator
        if p >= 0:
            import math
            rp, rq = math.isqrt(p), math.isqrt(q)
            if rp * rp == p and rq * rq == q: return K(Fraction(rp, rq))
    if n == 'exp' and x is ZERO: return ONE
    if n == 'log' and x is ONE: return ZERO
    return E(n, x)
def fn(name, order, x): return E('fn', name, order, x)
def power(x, y):
    if isk(y) and y.a[0].denominator == 1:
        n = int(y.a[0])
        if isk(x) and (x.a[0] != 0 or n >= 0): return K(x.a[0] ** n)
        if 0 <= n <= 4:
            r = ONE
            for _ in range(n): r = mul(r, x)
            return r
    return E('pow', x, y)

def sh(x, d=0):
    o = x.op
    if d > 7: return '...'
    if o == 'k': return str(x.a[0]) if x.a[0].denominator < 1000 else '%.6g' % float(x.a[0])
    if o == 'pi': return 'pi'
    if o == 'inf': return 'inf'
    if o == 'atom': return str(x.a[0])
    if o in '+-*/' and len(x.a) == 2: return '(%s%s%s)' % (sh(x.a[0], d + 1), o, sh(x.a[1], d + 1))
    if o == 'neg': return '-' + sh(x.a[0], d + 1)
    if o == 'fn': return '%s%s(%s)' % (x.a[0], "'" * x.a[1], sh(x.a[2], d + 1))
    if o == 'int': return 'Int[%s]' % sh(x.a[0], d + 1)
    return '%s(%s)' % (o, ','.join(sh(y, d + 1) if isinstance(y, E) else str(y) for y in x.a))

def D(e, w):
    """formal derivative of e with respect to atom w"""
    if e._d is None: e._d = {}
    r = e._d.get(w)
    if r is not None: return r
    r = _D(e, w); e._d[w] = r; return r
def _D(e, w):
    o = e.op; a = e.a
    if e is w: return ONE
    if o in ('k', 'pi', 'atom', 'inf'): return ZERO
    if o == '+': return add(D(a[0], w), D(a[1], w))
    if o == '-': return sub(D(a[0], w), D(a[1], w))
    if o == 'neg': return neg(D(a[0], w))
    if o == '*': return add(mul(D(a[0], w), a[1]), mul(a[0], D(a[1], w)))
    if o == '/':
        p, q = D(a[0], w), D(a[1], w)
        if q is ZERO: return div(p, a[1]) if p is not ZERO else ZERO
        return div(sub(mul(p, a[1]), mul(a[0], q)), mul(a[1], a[1]))
    if o == 'fn': return mul(fn(a[0], a[1] + 1, a[2]), D(a[2], w))
    if o == 'int':
        d = D(a[0], w); lo, hi = D(a[2], w), D(a[3], w)
        if lo is not ZERO or hi is not ZERO: raise NoAnswer('derivative of integration bounds')
        return ZERO if d is ZERO else integral(d, a[1], a[2], a[3])
    x = a[0]; dx = D(x, w)
    if o == 'exp': return mul(e, dx)
    if o == 'log': return div(dx, x) if dx is not ZERO else ZERO
    if o == 'sqrt': return div(dx, mul(K(2), e)) if dx is not ZERO else ZERO
    if o == 'tanh': return mul(sub(ONE, mul(e, e)), dx)
    if o == 'sin': return mul(E('cos', x), dx)
    if o == 'cos': return neg(mul(E('sin', x), dx))
    if o == 'abs': return mul(E('sign', x), dx)
    if o == 'fmax': return E('ifge', a[0], a[1], D(a[0], w), D(a[1], w))
    if o == 'fmin': return E('ifge', a[0], a[1], D(a[1], w), D(a[0], w))
    if o == 'ifge': return E('ifge', a[0], a[1], D(a[2], w), D(a[3], w))
    if o == 'pow':
        if D(a[1], w) is ZERO: return mul(mul(a[1], E('pow', a[0], sub(a[1], ONE))), dx) if dx is not ZERO else ZERO
        return mul(e, add(mul(D(a[1], w), f1('log', a[0])), div(mul(a[1], dx), a[0])))
    raise NoAnswer('derivative of ' + o)
def integral(body, tau, lo, hi): return E('int', body, tau, lo, hi)

class NoAnswer(Exception): pass

PI_D = Decimal('3.14159265358979323846264338327950288419716939937510582097494459230781640628620899862803')
def _rnd(*k): return random.Random(zlib.crc32(repr(k).encode()))
class Model:
    """a random interpretation of atoms and uninterpreted functions; ranges: name -> (lo, hi)"""
    def __init__(self, seed, ranges=None):
        self.seed = seed; self.ranges = ranges or {}; self.neg = set(); self.memo = {}; self.at = {}; self.poly = {}; self.ov = {}
    def atom(self, n):
        if n in self.ov: return self.ov[n]
        v = self.at.get(n)
        if v is None:
            r = _rnd(self.seed, n); lo, hi = self.ranges.get(n, (0.5, 1.5))
            v = Decimal(str(lo)) + Decimal(r.randrange(1, 10**18)) / Decimal(10**18) * (Decimal(str(hi)) - Decimal(str(lo))); self.at[n] = v
        return v
    def fnval(self, name, order, x):
        c = self.poly.get(name)
        if c is None:
            r = _rnd(self.seed, 'fn', name); c = [Decimal(r.randrange(10**12, 2 * 10**12)) / Decimal(10**12) for _ in range(7)]; self.poly[name] = c
        s = Decimal(0)
        for k in range(len(c) - 1, order - 1, -1):
            m = 1
            for j in range(order): m *= k - j
            s = s * x + c[k] * m
        return -s if name in self.neg else s
    def ev(self, e):
        m = self.memo
        r = m.get(e)
        if r is not None: return r
        # iterative for deep sums
        st = [e]
        while st:
            x = st[-1]
            if x in m: st.pop(); continue
            if x.op in ('int',):
                m[x] = self._int(x); st.pop(); continue
            if x.op == 'ifge':
                ch = [c for c in x.a[:2] if c not in m]
                if ch: st.extend(ch); continue
                c = x.a[2] if m[x.a[0]] >= m[x.a[1]] else x.a[3]
                if c not in m: st.append(c); continue
                m[x] = m[c]; st.pop(); continue
            ch = [c for c in x.a if isinstance(c, E) and c not in m]
            if ch: st.extend(ch); continue
            m[x] = self._one(x); st.pop()
        return m[e]
    def _int(self, x):
        b, tau, lo, hi = x.a
        l, h = self.ev(lo), self.ev(hi); s = Decimal(0); r = _rnd(self.seed, 'quad')
        sv, self.memo = self.memo, None
        try:
            for k in range(3):
                t = Decimal(r.randrange(1, 10**12)) / Decimal(10**12); w = Decimal(r.randrange(1, 10**12)) / Decimal(10**12)
                self.memo = {}; old = self.ov.get(tau.a[0]); self.ov[tau.a[0]] = l + (h - l) * t
                s += w * (h - l) * self.ev(b)
                if old is None: del self.ov[tau.a[0]]
                else: self.ov[tau.a[0]] = old
        finally: self.memo = sv
        return s
    def _one(self, x):
        o = x.op; m = self.memo; a = x.a
        v = [m[c] if isinstance(c, E) else c for c in a]
        if o == 'k': return Decimal(a[0].numerator) / Decimal(a[0].denominator)
        if o == 'pi': return PI_D
        if o == 'atom': return self.atom(a[0])
        if o == '+': return v[0] + v[1]
        if o == '-': return v[0] - v[1]
        if o == '*': return v[0] * v[1]
        if o == '/':
            if v[1] == 0: raise Undefined('division by zero in %s' % sh(x))
            return v[0] / v[1]
        if o == 'neg': return -v[0]
        if o == 'exp': return v[0].exp()
        if o == 'log':
            if v[0] <= 0: raise Undefined('log of a non-positive value in %s' % sh(x))
            return v[0].ln()
        if o == 'sqrt':
            if v[0] < 0: raise Undefined('sqrt of a negative value in %s' % sh(x))
            return v[0].sqrt()
        if o == 'tanh': p = (2 * v[0]).exp(); return (p - 1) / (p + 1)
        if o == 'abs': return abs(v[0])
        if o == 'sign': return Decimal(1 if v[0] > 0 else -1 if v[0] < 0 else 0)
        if o == 'fmax': return max(v[0], v[1])
        if o == 'fmin': return min(v[0], v[1])
        if o == 'inf': return Decimal(10) ** 30
        if o == 'pow':
            if v[0] <= 0: raise Undefined('power of a non-positive value')
            return (v[0].ln() * v[1]).exp()
        if o == 'cos' or o == 'sin': return _cs(v[0], o)
        if o == 'acos':
            raise NoAnswer('acos')
        if o == 'fn': return self.fnval(a[0], a[1], v[2])
        raise NoAnswer('value of ' + o)
class Undefined(Exception): pass
def _cs(x, o):
    x = x % (2 * PI_D)
    t = Decimal(1) if o == 'cos' else x; s = t; n = 0 if o == 'cos' else 1
    while abs(t) > Decimal(10) ** -62:
        t = -t * x * x / ((n + 1) * (n + 2)); n += 2; s += t
    return s

class Models:
    """the random models of one case"""
    def __init__(self, ranges=None, n=3, seed=11): self.ms = [Model(seed + i, ranges) for i in range(n)]
    def same(self, x, y, tol=Decimal('1e-35')):
        for m in self.ms:
            a, b = m.ev(x), m.ev(y)
            if abs(a - b) > tol * (1 + abs(a) + abs(b)): return False
        return True
    def decide(self, op, x, y):
        r = set()
        for m in self.ms:
            a, b = m.ev(x), m.ev(y)
            d = a - b
            if abs(d) < Decimal('1e-40') * (1 + abs(a)): d = 0
            r.add({'<': d < 0, '<=': d <= 0, '>': d > 0, '>=': d >= 0, '==': d == 0, '!=': d != 0}[op])
        if len(r) != 1: raise NoAnswer('comparison %s %s %s is not settled by the case' % (sh(x), op, sh(y)))
        return r.pop()
