"""Normal forms for composite maps.

Rewrites the value-flow terms of a composite's method into families indexed by
the component number (layer input, sensitivity, prefix sums of sizes, partial
sums …).  Loop-carried values are resolved by guessing a family member and
*verifying* it as an inductive invariant over the loop's recurrence."""
from vf import *
from vf import T, is_all

# ------------------------------------------------------------- polynomials on hashable atoms
class P:
    __slots__ = ('m',)
    def __init__(s, m=None): s.m = {k: v for k, v in (m or {}).items() if v != 0}
    @staticmethod
    def c(v): return P({(): v})
    @staticmethod
    def at(a): return P({(a,): 1})
    def __add__(s, o):
        o = o if isinstance(o, P) else P.c(o); r = dict(s.m)
        for k, v in o.m.items(): r[k] = r.get(k, 0) + v
        return P(r)
    def __neg__(s): return P({k: -v for k, v in s.m.items()})
    def __sub__(s, o): return s + (-(o if isinstance(o, P) else P.c(o)))
    def __mul__(s, o):
        o = o if isinstance(o, P) else P.c(o); r = {}
        for a, x in s.m.items():
            for b, y in o.m.items():
                k = tuple(sorted(a + b, key=repr)); r[k] = r.get(k, 0) + x * y
        return P(r)
    def key(s): return ('P',) + tuple(sorted(s.m.items(), key=repr))
    def __eq__(s, o): return isinstance(o, P) and s.m == o.m
    def __hash__(s): return hash(s.key())
    def const(s):
        if not s.m: return 0
        if list(s.m) == [()]: return s.m[()]
        return None
    def coef(s, a): return s.m.get((a,), 0)
    def __repr__(s):
        if not s.m: return '0'
        return '+'.join(('%s' % v if not k else ('' if v == 1 else '%s*' % v) + '*'.join(shw(x) for x in k)) for k, v in sorted(s.m.items(), key=repr))

def shw(x):
    if isinstance(x, tuple):
        if x and x[0] == 'i': return 'i'
        return '%s(%s)' % (x[0], ','.join(shw(y) for y in x[1:]))
    return str(x)

def fromkey(k): return P(dict(k[1:]))

class Undecided(Exception): pass

def _it(t):
    if t.op in ('op+', 'op-') and len(t.a) == 2 and t.a[0].op == 'it': return T('it', t.a[0].a[0], T(t.op[2], t.a[0].a[1], t.a[1]))
    return t

class NF:
    """container: name of the member holding the components (maps_, comps_)."""
    def __init__(self, v, container, scal=None, cont=None, totals=()):
        self.v = v; self.C = container; self.phi = {}; self.busy = set(); self.assume = [P.at('n') - 1]
        self.scal = scal or (lambda t, nf: None); self.contrule = cont or (lambda x, nf: None)
        self.totals = totals; self.n = P.at('n'); self.unknown = []
        self.recbusy = set(); self.alias = set()

    # --- components
    def isC(self, t):
        while t.op == 'copy': t = t.a[0]
        return t.op == 'fld' and t.a[1] == self.C and t.a[0].op == 'this' or t in self.alias
    def comp(self, t):
        """index polynomial of a component object, or None"""
        if t.op == 'idx' and len(t.a) == 2 and self.isC(t.a[0]): return self.s(t.a[1])
        if t.op == 'deref' and t.a[0].op == 'idx': return self.comp(t.a[0])
        return None
    def PS(self, f, k):
        if k.const() == 0: return P()
        return P.at(('PS', f, k.key()))

    # --- scalars
    def s(self, t):
        op, a = t.op, t.a
        if op == 'int': return P.c(a[0])
        if op == 'bool': return P.c(int(bool(a[0])))
        if op == 'flt' and isinstance(a[0], (int, float)) and float(a[0]).is_integer(): return P.c(int(a[0]))
        if op in ('+', '-'): 
            x, y = self.s(a[0]), self.s(a[1]); return x + y if op == '+' else x - y
        if op == '*': return self.s(a[0]) * self.s(a[1])
        if op == 'neg': return -self.s(a[0])
        if op == 'cast' or op == 'copy': return self.s(a[0])
        if op == 'call' and a[0] == 'size' and self.isC(a[1]): return self.n
        if op == 'fold':
            L = self.v.loops.get(a[0]); b, e, i0 = a[1:4]
            b, e = _it(b), _it(e)
            if L is not None and L.cond is not None and b.op == 'it' and e.op == 'it' and self.isC(b.a[0]) and self.isC(e.a[0]):
                lo, hi = self.s(b.a[1]), self.s(e.a[1])
                el = T('lidx', L.id, 1); acc = T('lidx', L.id)
                d = poly_sub(poly(L.cond)[0], poly(acc)[0])
                if len(d) == 1:
                    (m, co), = d.items()
                    at = poly(L.cond)[1].get(m[0]) if len(m) == 1 else None
                    if co == 1 and at is not None and at.op == 'fld' and at.a[0] is el and at.a[1] in self.totals: return self.s(i0) + self.PS(at.a[1], hi) - self.PS(at.a[1], lo)
                    if co == 1 and lo == P() and hi == self.n and at is not None and at.op == 'fld' and at.a[0] is el: return self.s(i0) + P.at(('sumof', at.a[1]))
        if op == 'lidx': return P.at(('i', a[0]) + tuple(str(x) for x in a[1:]))
        if op == 'fld':
            k = self.comp(a[0])
            if k is not None:
                if a[1] in self.totals: return self.PS(a[1], k + 1) - self.PS(a[1], k)
            elif a[0].op == 'this' and a[1] in self.totals: return self.PS(a[1], self.n)
        r = self.scal(t, self)
        if r is not None: return r
        if op == 'ite':
            b = self.cond(a[0])
            if b is not None: return self.s(a[1] if b else a[2])
            x, y = self.s(a[1]), self.s(a[2])
            if x == y: return x
            z = self.zerocond(a[0])
            if z is not None:
                p, pol = z
                live, dead = (x, y) if pol else (y, x)
                d = live - dead
                # the two agree when p == 0
                for c in (1, -1):
                    if d == p * P.c(c): return live
            cn = self.cnf(a[0])
            if cn is not None: return P.at(('site', cn, x.key(), y.key()))
        if op == 'lphi': return self.phis(a[0], a[1], t)
        if op == 'post' and a[0] in self.v.loops: return self.posts(a[0], a[1], t)
        return P.at(self.opaque(t))
    def opaque(self, t): return ('t', t.uid)

    def zerocond(self, c):
        """(p, pol): the condition is  p != 0  (pol True) or p == 0 (pol False)"""
        if c.op == '!':
            z = self.zerocond(c.a[0]); return (z[0], not z[1]) if z else None
        if c.op in ('!=', '=='):
            d = self.s(c.a[0]) - self.s(c.a[1]); return (d, c.op == '!=')
        if c.op == '<':   # 0 < p for an unsigned count
            x, y = self.s(c.a[0]), self.s(c.a[1])
            if x.const() == 0: return (y, True)
        if c.op == '<=':
            x, y = self.s(c.a[0]), self.s(c.a[1])
            if x.const() == 1: return (y, True)
        return None
    def cond(self, c):
        """decide a comparison under the current assumptions (list of polys >= 0)"""
        if c.op == '!':
            b = self.cond(c.a[0]); return None if b is None else not b
        if c.op in ('<', '<='):
            d = self.s(c.a[1]) - self.s(c.a[0]) - (1 if c.op == '<' else 0)   # d >= 0 <=> true
            for p in self.assume:
                q = (d - p).const()
                if q is not None and q >= 0: return True
                q = (-(d + 1) - p).const()
                if q is not None and q >= 0: return False
            q = d.const()
            if q is not None: return q >= 0
        if c.op in ('!=', '=='):
            d = self.s(c.a[0]) - self.s(c.a[1]); q = d.const()
            if q is not None: return (q != 0) == (c.op == '!=')
            for p in self.assume:
                for dd in (d, -d):
                    q = (dd - p).const()
                    if q is not None and q >= 1: return c.op == '!='
        return None

    def cnf(self, c):
        if c.op == '!':
            q = self.cnf(c.a[0]); return ('not', q) if q else None
        if c.op in ('<', '<=', '==', '!='):
            p = self.s(c.a[1]) - self.s(c.a[0])
            return ('cmp', c.op, p.key())
        if c.op in ('&&', '||'):
            x, y = self.cnf(c.a[0]), self.cnf(c.a[1]); return (c.op, x, y) if x and y else None
        return None

    def subst(self, x, atom, p):
        """replace scalar atom by polynomial p inside a normal form"""
        if isinstance(x, P):
            r = P()
            for mon, co in x.m.items():
                t = P.c(co)
                for a in mon:
                    if a == atom: t = t * p
                    else:
                        a2 = self.subst(a, atom, p) if isinstance(a, tuple) else a
                        if isinstance(a2, tuple) and a2 and a2[0] == 'PS' and fromkey(a2[2]).const() == 0: t = P(); break
                        t = t * P.at(a2)
                r = r + t
            return r
        if isinstance(x, tuple):
            if x and x[0] == 'P':
                return self.subst(fromkey(x), atom, p).key()
            return self.simp(tuple(self.subst(y, atom, p) for y in x))
        return x

    def rng(self, L):
        l = self.v.loops[L]
        if l.lo is None or l.hi is None or l.step not in (1, -1) or not l.exact: return None
        lo, hi = l.lo, l.hi
        if isinstance(lo, int): lo = INT(lo)
        return self.s(lo), self.s(hi), l.step
    def nextassume(self, L):
        r = self.rng(L)
        if r is None: return []
        lo, hi, st = r; i = P.at(('i', L))
        return [hi - i - 2] if st == 1 else [i - hi - 2]

    # --- scalar loop phis
    def phis(self, L, name, t):
        k = ('s', L, name)
        if k in self.phi: return self.phi[k]
        op = P.at(('phi',) + k)
        if k in self.busy: return op
        l = self.v.loops.get(L)
        if l is None or name not in l.carried or self.rng(L) is None: return op
        self.busy.add(k); self.phi[k] = op
        init, end = l.carried[name]
        try:
            lo, hi, st = self.rng(L); i = P.at(('i', L))
            I = self.s(init); sav = self.assume; self.assume = sav + self.nextassume(L); E = self.s(end)
            delta = E - op
            cand = None
            if delta.const() is not None:
                cand = I + (i - lo) * (delta.const() * st)
            else:
                F = P(); rest = dict(delta.m); ok = True
                while rest:
                    # pick a PS atom with the largest k
                    m, c = next(iter(rest.items()))
                    if len(m) != 1 or not (isinstance(m[0], tuple) and m[0][0] == 'PS'): ok = False; break
                    f = m[0][1]; kp = fromkey(m[0][2])
                    if abs(kp.coef(('i', L))) != 1: ok = False; break
                    up = (('PS', f, (kp + 1).key()),); dn = (('PS', f, (kp - 1).key()),)
                    if up in rest and rest[up] == -c: klo, ch = kp, rest[up]
                    elif dn in rest and rest[dn] == -c: klo, ch = kp - 1, c
                    elif (kp - 1).const() == 0: klo, ch = kp - 1, c
                    else: ok = False; break
                    hi_ = (('PS', f, (klo + 1).key()),); lo_ = (('PS', f, klo.key()),)
                    rest.pop(hi_, None); rest.pop(lo_, None)
                    sg = klo.coef(('i', L)) * st
                    F = F + (self.PS(f, klo) * ch if sg == 1 else self.PS(f, klo + 1) * (-ch))
                if ok:
                    cand = I - self.subst(F, ('i', L), lo) + F
            self.assume = sav
            if cand is not None:
                self.phi[k] = cand
                sav = self.assume; self.assume = sav + self.nextassume(L)
                E = self.s(end); self.assume = sav
                if E == self.subst(cand, ('i', L), i + st) and self.subst(cand, ('i', L), lo) == I: return cand
            self.phi[k] = op
            return op
        finally: self.busy.discard(k)
    def posts(self, L, name, t):
        p = self.phis(L, name, t)
        r = self.rng(L)
        if r is None or any(isinstance(a, tuple) and a[0] == 'phi' for m in p.m for a in m): 
            l = self.v.loops[L]
            if l.var == name and r is not None: return r[1]
            return P.at(self.opaque(t))
        return self.subst(p, ('i', L), r[1])

    # --- contents
    def c(self, t):
        op, a = t.op, t.a
        r = None
        if op == 'app':
            k = self.comp(a[1]) if isinstance(a[1], Term) else None
            ob = k.key() if k is not None else ('obj', self.objname(a[1]))
            r = self.simp(('app', a[0], ob, a[2].a[0]) + tuple(self.cval(x) for x in a[3:]))
        elif op == 'slice':
            base = self.c(a[0]); r = self.simp(('slice', base) + tuple(self.range(x) for x in a[1:]))
        elif op == 'upd':
            r = self.simp(('upd', self.c(a[0]), self.c(a[1])) + tuple(self.range(x) for x in a[2:]))
        elif op in ('+', '-'):
            r = self.simp((op, self.c(a[0]), self.c(a[1])))
        elif op == 'cphi': return self.phic(a[0], a[1], t)
        elif op == 'cpost': return self.postc(a[0], a[1], t)
        elif op == 'ite':
            b = self.cond(a[0])
            if b is not None: return self.c(a[1] if b else a[2])
            x, y = self.c(a[1]), self.c(a[2])
            if x == y: return x
            z = self.zerocond(a[0])
            if z is not None:
                live, dead = (x, y) if z[1] else (y, x)
                if live[0] == 'upd' and live[1] == dead and any(isinstance(q, tuple) and q[0] == 'rng' and fromkey(q[2]) - fromkey(q[1]) in (z[0], -z[0]) for q in live[3:]): return live
                # live may already have been folded into the next family member
                if live[0] in ('U', 'UD') and dead[0] == live[0] and (fromkey(live[1]) - fromkey(dead[1])).const() in (1, -1):
                    kk = fromkey(dead[1]) if live[0] == 'U' else fromkey(live[1])
                    sz = self.PS('numCoeffs', kk + 1) - self.PS('numCoeffs', kk)
                    if sz in (z[0], -z[0]): return live
            return ('ite', self.cnf(a[0]) or ('opaque', a[0].uid), x, y)
        elif op == 'content':
            o = a[0]
            if o.op == 'call' and o.a[0].endswith('GetLayerInput'): r = self.simp(('GLI', self.s(o.a[2]).key()))
            elif o.op == 'obj' and o.a[0] == 'Kokkos::View' and any(isinstance(x, Term) and x.op == 'str' for x in o.a[1:2]): r = ('zero',)
            elif o.op == 'obj' and o.a[0] == 'Kokkos::View' and len(o.a) > 2 and 'alloc' not in show(o.a[1]): r = ('zero',)
            elif o.op == 'param': r = self.simp(('in', o.a[0]))
            elif o.op == 'call' and o.a[0].split('::')[-1] == 'Evaluate' and isinstance(o.a[1], Term) and len(o.a) == 3:
                k = self.comp(o.a[1]); r = self.simp(('app', 'Evaluate', k.key() if k is not None else ('obj', self.objname(o.a[1])), 1, self.c(self.v.cont(o.a[2]))))
            elif o.op == 'fld' or o.op == 'obj': r = ('buf', show(o))
            elif o.op == 'lphi' and o.a[0] in self.v.loops: r = ('phi', o.a[0], str(o.a[1]))
            else: r = ('content', o.uid)
        elif op == 'fill':
            p = self.s(a[0]); r = ('zero',) if p.const() == 0 else ('fill', p.key())
        elif op in ('int', 'flt', 'bool'):
            p = self.s(t); r = ('zero',) if p.const() == 0 else ('fill', p.key())
        if r is None: r = ('opaque', t.uid)
        return r
    def objname(self, t): return show(t) if isinstance(t, Term) else str(t)
    def cval(self, x):
        if x.op in ('content', 'app', 'slice', 'upd', 'cphi', 'cpost', 'fill') or x.op == 'ite' : return self.c(x)
        if x.op in ('+',) : return self.c(x)
        return self.s(x).key()
    def range(self, x):
        if x.op == 'ALL' or is_all(x): return 'ALL'
        if x.op == 'pair': return ('rng', self.s(x.a[0]).key(), self.s(x.a[1]).key())
        if x.op == 'obj' and str(x.a[0]).startswith('std::pair'):
            aa = [y for y in x.a[1:] if isinstance(y, Term)]
            if len(aa) == 2: return ('rng', self.s(aa[0]).key(), self.s(aa[1]).key())
        return ('at', self.s(x).key())

    def simp(self, x):
        """generic simplification, then the composite-specific rule"""
        h = x[0] if x else None
        if h == 'upd' and isinstance(x[1], tuple) and x[1][0] == 'upd' and x[1][3:] == x[3:]: x = ('upd', x[1][1]) + x[2:]
        if h == '+':
            if x[1] == ('zero',): return x[2]
            if x[2] == ('zero',): return x[1]
        if h == 'slice' and isinstance(x[1], tuple):
            if all(q == 'ALL' for q in x[2:]): return x[1]
            if x[1][0] == 'upd' and x[1][3:] == x[2:]: return x[1][2]
            if x[1] == ('zero',): return x[1]
        r = self.contrule(x, self)
        return r if r is not None else x

    def indexed(self, x):
        """(family, index) of a family member"""
        if isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], str) and isinstance(x[1], tuple) and x[1] and x[1][0] == 'P': return x[0], fromkey(x[1])
        return None
    def candidates(self, init):
        z = self.indexed(init)
        out = []
        if z: out.append(init)
        if init == ('zero',): out += [(f, P().key()) for f in self.zero0] + [(f, self.n.key()) for f in self.zeron]
        for f, w in self.starts.get(init, []): out.append((f, w))
        return out
    zero0 = (); zeron = (); starts = {}

    def phic(self, L, name, t):
        k = ('c', L, name)
        if k in self.phi: return self.phi[k]
        op = ('phi', L, name)
        if k in self.busy: return op
        l = self.v.loops.get(L)
        if l is None or name not in l.ccar: return op
        init, end, ph = l.ccar[name]
        if self.rng(L) is None: return op
        self.busy.add(k); self.phi[k] = op
        try:
            lo, hi, st = self.rng(L); i = P.at(('i', L))
            I = self.c(init)
            for cand0 in self.candidates(I):
                f, c0 = self.indexed(cand0)
                for sg in (1, -1):
                    cand = self.simp((f, (c0 + (i - lo) * (sg * st) * st).key())) if False else (f, (c0 + (i - lo) * sg).key())
                    self.phi[k] = cand
                    sav = self.assume; self.assume = sav + self.nextassume(L)
                    E = self.c(end); self.assume = sav
                    if E == self.subst(cand, ('i', L), i + st): return cand
            self.phi[k] = op
            return op
        finally: self.busy.discard(k)
    def postc(self, L, name, t):
        l = self.v.loops.get(L)
        if l is None or name not in l.ccar: return ('opaque', t.uid)
        init, end, ph = l.ccar[name]
        p = self.phic(L, name, t)
        r = self.rng(L)
        if p[0] != 'phi' and r is not None: return self.simp(self.subst(p, ('i', L), r[1]))
        if r is None and l.kind != 'parallel': return ('opaque', t.uid)
        # element-wise map loop: every iteration touches other elements with the same function
        self.phi[('c', L, name)] = self.c(init)
        try:
            e = self.c(end)
            if not self.mentions(e, ('i', L)): return e
        finally: self.phi[('c', L, name)] = p
        return ('phi', L, name)
    def mentions(self, x, atom):
        if isinstance(x, P): return any(self.mentions(a, atom) for m in x.m for a in m)
        if x == atom: return True
        if isinstance(x, tuple): return any(self.mentions(y, atom) for y in x)
        return False
    def recognised(self, x):
        """the normal form is built only from operations the theory knows"""
        if isinstance(x, P): return all(self.recognised(a) for m in x.m for a in m)
        if isinstance(x, tuple):
            if x and x[0] in ('opaque', 't', 'content'): return False
            if x and x[0] == 'phi': return self.recphi(x)
            if x and x[0] == 'app' and not (x[1].endswith('Impl') or x[1] in ('Evaluate', 'Gradient', 'CoeffGrad', 'LogDeterminant', 'Inverse')): return False
            return all(self.recognised(y) for y in x)
        return True

    def recphi(self, x):
        """an unresolved loop value counts as recognised when its whole recurrence is"""
        if x in self.recbusy: return True
        self.recbusy.add(x)
        try:
            kind = 'c' if len(x) == 3 else x[1]
            L, name = (x[1], x[2]) if len(x) == 3 else (x[2], x[3])
            l = self.v.loops.get(L)
            if l is None or self.rng(L) is None and l.kind != 'parallel': return False
            if kind == 'c':
                if name not in l.ccar: return False
                init, end, ph = l.ccar[name]; return self.recognised(self.c(init)) and self.recognised(self.c(end))
            if name not in l.carried: return False
            init, end = l.carried[name]; return self.recognised(self.s(init)) and self.recognised(self.s(end))
        finally: self.recbusy.discard(x)
