"""C13: what multi-indices, limiters, neighbourhoods, factories and fixed sets are.  The classes are interpreted on multi-indices
partitioned by support and order type and compared with the vector of orders they stand for."""
import os, itertools
from fractions import Fraction
from harness import Check
from db import DB, REPO, CheckError
import formal as F
from formal import Models, NoAnswer, K
from absint import Interp, Obj, Vec, LV, View, Buf, Fn, Throw, Violation, Opaque
from p_C12 import TUS, MS, MI, Lim, Set, Bad, eq, sameset, fwd, bwd, mkey, interp, mi, tup
RULE = 'multi-indices and the sets made of them are the vectors of orders they stand for'
FS = 'mpart::FixedMultiIndexSet'

def vec(t): return Vec(list(t), 'std::vector<unsigned int>')
def val(I, r):
    r = I.val(r) if isinstance(r, LV) else r
    if isinstance(r, Vec): return tuple(val(I, x) for x in r.v)
    if isinstance(r, View): return tuple(int(I.get(LV(r.buf, o))) for o in I.offsets(r))
    if isinstance(r, bool): return r
    if isinstance(r, int): return int(r)
    if isinstance(r, F.E) and F.isk(r): return int(r.a[0])
    raise NoAnswer('result %r' % (r,))

def check():
    c = Check('C13', RULE); d = DB(TUS); thorough = os.environ.get('VERIF_TIER') == 'thorough'
    I = Interp(d, Models(n=1), budget=2000000); I.at_throws = True
    def meth(cls, name, frag=None, np=None):
        fs = [g for g in d.methods(cls, name) if g.body is not None and not g.dep and (frag is None or any(frag in p['t'] for p in g.ps)) and (np is None or len(g.ps) == np)]
        if not fs: raise CheckError('%s::%s not found' % (cls, name))
        at[0] = fs[0]; return fs[0]
    at = [None]
    def loc_(key): return '%s:%d (%s)' % (at[0].file, at[0].line, at[0].cq) if at[0] is not None else key
    def call(o, name, *a, **k):
        I.steps = 0; I.own.clear(); return I.call_func(meth(o.cls, name, np=len(a), **k), o, list(a))
    def make(cls, sel, args, ty=None):
        fs = [g for g in d.methods(cls) if g.d.get('isctor') and g.body is not None and not g.dep and sel([p['t'] for p in g.ps])]
        if not fs: raise CheckError('constructor of %s not found' % cls)
        at[0] = fs[0]; I.steps = 0; I.own.clear(); o = Obj(cls); o.ty = ty or fs[0].d['clst']; I.run_ctor(fs[0], o, args, o.ty); return o
    n = {}
    def run(rule, key, label, f):
        try: f(); n[rule] = n.get(rule, 0) + 1; c.count('cases compared'); return True
        except (Bad, Violation) as x: c.bad(rule, loc_(key), '%s, %s: %s' % (key, label, x), key)
        except Throw as x: c.bad(rule, loc_(key), '%s, %s: throws (%s)' % (key, label, x), key)
        except (NoAnswer, F.Undefined) as x: c.skip(rule, loc_(key), '%s, %s: %s' % (key, label, x))
        bad.setdefault((rule, key), 0); bad[(rule, key)] += 1
        return False
    bad = {}
    def go(rule, key, cases):
        """cases: (label, f); stops at the first failure of a key"""
        k = 0
        for label, f in cases:
            if not run(rule, key, label, f): return
            k += 1
        if k: c.ok(rule, loc_(key), '%s: %d cases' % (key, k))
    fromvec = lambda t: make(MI, lambda ps: len(ps) == 1 and 'std::vector' in ps[0], [vec(t)])
    # -- the multi-index
    T = [(0,), (3,), (0, 0), (1, 0), (0, 2), (2, 2), (1, 3), (0, 0, 0), (0, 1, 0), (2, 0, 1), (1, 2, 3), (3, 1, 1), (0, 5, 5, 0), (4, 0, 0, 1)]
    r = 'multi-index is its vector of orders'
    def whole(o, t):
        eq('Vector()', val(I, call(o, 'Vector')), t); eq('Length()', val(I, call(o, 'Length')), len(t)); eq('NumNz()', val(I, call(o, 'NumNz')), sum(1 for x in t if x))
        eq('Sum()', val(I, call(o, 'Sum')), sum(t)); eq('Max()', val(I, call(o, 'Max')), max(t))
        for i, x in enumerate(t): eq('Get(%d)' % i, val(I, call(o, 'Get', i)), x)
    go(r, 'MultiIndex from a vector', [(str(t), lambda t=t: whole(fromvec(t), t)) for t in T])
    go(r, 'MultiIndex from a list', [(str(t), lambda t=t: whole(make(MI, lambda ps: len(ps) == 1 and 'initializer_list' in ps[0], [vec(t)]), t)) for t in T])
    def ptr(t):
        b = Buf(len(t), 'orders'); b.d = dict(enumerate(t))
        from absint import Ptr
        return make(MI, lambda ps: len(ps) == 2 and '*' in ps[0], [Ptr(b), len(t)])
    go(r, 'MultiIndex from a pointer', [(str(t), lambda t=t: whole(ptr(t), t)) for t in T])
    go(r, 'MultiIndex of constant value', [('length %d, value %d' % (l, v), lambda l=l, v=v: whole(make(MI, lambda ps: len(ps) == 2 and '*' not in ps[0], [l, v]), (v,) * l)) for l in (1, 2, 4) for v in (0, 1, 3)])
    def oob(name, *a):
        def f():
            for k in (0, 1, 5):
                o = fromvec((1, 0, 2))
                try: call(o, name, 3 + k, *a)
                except Throw: continue
                except Violation as x: raise Bad('%s(%d) of a multi-index of length 3: %s' % (name, 3 + k, x))
                raise Bad('%s(%d) of a multi-index of length 3 does not throw' % (name, 3 + k))
        return f
    go(r, 'Get past the end', [('', oob('Get'))]); go(r, 'Set past the end', [('', oob('Set', 1))])
    def setf(t, i, v):
        def f():
            o = fromvec(t); x = val(I, call(o, 'Set', i, v)); whole(o, t[:i] + (v,) + t[i + 1:]); eq('the result of Set(%d, %d)' % (i, v), bool(x), t[i] != 0)
        return f
    go(r, 'Set', [('Set(%d, %d) of %s' % (i, v, t), setf(t, i, v)) for t in T for i in range(len(t)) for v in (0, 1, 4)])
    # -- order
    r = 'multi-indices are ordered by length, sum, maximum and entries'
    P = list(itertools.product(range(4), repeat=2)) + list(itertools.product(range(3), repeat=3)) + [(0,), (2,), (5,)]
    if thorough: P += list(itertools.product(range(3), repeat=4)) + list(itertools.product(range(3, 5), repeat=3))
    O = {t: fromvec(t) for t in P}
    import operator as op
    ops = {'operator==': op.eq, 'operator!=': op.ne, 'operator<': op.lt, 'operator>': op.gt, 'operator<=': op.le, 'operator>=': op.ge}
    pairs = [(x, y) for x in P for y in P if len(x) == len(y) or sum(x) + sum(y) < 4]
    for name, f in ops.items():
        go(r, name, [('%s against %s' % (x, y), lambda x=x, y=y, f=f, name=name: eq(name, bool(val(I, call(O[x], name, O[y]))), f(mkey(x), mkey(y)))) for x, y in pairs])
    r = 'bounds and neighbours'
    go(r, 'AnyBounded', [('%s against %s' % (x, y), lambda x=x, y=y: eq('AnyBounded', bool(val(I, call(O[x], 'AnyBounded', O[y]))), any(a >= b for a, b in zip(x, y)))) for x, y in pairs if len(x) == len(y)])
    NB = 'mpart::DefaultNeighborhood'; nb = Obj(NB)
    def nbs(name, ref):
        def one(t):
            q = call(nb, name, O[t]); sameset('%s of %s' % (name, t), [val(I, call(x, 'Vector')) for x in q.v], ref(t))
        return one
    for name, ref in (('ForwardNeighbors', fwd), ('BackwardNeighbors', bwd)): go(r, name, [(str(t), lambda t=t, g=nbs(name, ref): g(t)) for t in P])
    go(r, 'IsForward', [('%s to %s' % (x, y), lambda x=x, y=y: eq('IsForward', bool(val(I, call(nb, 'IsForward', O[x], O[y]))), y in fwd(x))) for x, y in pairs if len(x) == len(y)])
    go(r, 'IsBackward', [('%s to %s' % (x, y), lambda x=x, y=y: eq('IsBackward', bool(val(I, call(nb, 'IsBackward', O[x], O[y]))), y in bwd(x))) for x, y in pairs if len(x) == len(y)])
    # -- limiters
    r = 'limiters accept what they say'
    LN = 'mpart::MultiIndexLimiter::'
    def lim(name, sel, args, ref, label, ts=P):
        def mk():
            if name not in lims: lims[name] = {}
            return make(LN + name, sel, args)
        st = {}
        def one(t):
            if 'o' not in st: st['o'] = mk()
            x = call(st['o'], 'operator()', O[t]); eq('%s accepts %s' % (label, t), bool(x if isinstance(x, (int, bool)) else I.truth(x)), ref(t))
        go(r, name, [(str(t), lambda t=t: one(t)) for t in ts])
    lims = {}
    anyp = lambda ps: True
    for p in (0, 2, 3): lim('TotalOrder', lambda ps: len(ps) == 1 and 'int' in ps[0], [p], lambda t: sum(t) <= p, 'total order %d' % p)
    for lo, l in ((0, 1), (1, 1), (1, 2), (0, 3)): lim('Dimension', lambda ps: len(ps) == 2, [lo, l], lambda t: all(x == 0 or lo <= i < lo + l for i, x in enumerate(t)), 'dimensions [%d,%d)' % (lo, lo + l), [t for t in P if len(t) >= lo])
    for m in ((2, 1), (0, 3), (1, 0, 2)): lim('MaxDegree', lambda ps: len(ps) == 1 and 'vector' in ps[0], [vec(m)], lambda t: len(t) == len(m) and all(x <= y for x, y in zip(t, m)), 'degrees %s' % (m,))
    lim('MaxDegree', lambda ps: len(ps) == 2, [2, 3], lambda t: len(t) == 3 and all(x <= 2 for x in t), 'degree 2 in 3 inputs')
    if [g for g in d.methods(LN + 'None', 'operator()')]:
        o = Obj(LN + 'None'); go(r, 'None', [(str(t), lambda t=t: eq('accepts %s' % (t,), bool(call(o, 'operator()', O[t])), True)) for t in P[:20]])
    for w, e in (((0.5, 0.25), 0.1), ((1.0, 0.5), 0.3), ((0.9, 0.3, 0.6), 0.2), ((0.5, 0.25), 0.25), ((0.0, 0.5), 0.5)):
        def ref(t, w=w, e=e):
            if len(t) != len(w): return False
            p = Fraction(1)
            for x, y in zip(w, t): p *= Fraction(str(x)) ** y
            return p >= Fraction(str(e))
        lim('Anisotropic', lambda ps: len(ps) == 2, [Vec([K(str(x)) for x in w], 'std::vector<double>'), K(str(e))], ref, 'weights %s, threshold %s' % (w, e))
    for x in ((1.5,), (-0.1,)):
        def f(x=x):
            try: make(LN + 'Anisotropic', lambda ps: len(ps) == 2, [Vec([K(str(y)) for y in x], 'std::vector<double>'), K('0.5')])
            except Throw: return
            raise Bad('weight %s is accepted' % x[0])
        go(r, 'Anisotropic weights', [(str(x), f)])
    for x in ('0', '1', '1.5', '-1'):
        def f(x=x):
            try: make(LN + 'Anisotropic', lambda ps: len(ps) == 2, [Vec([K('0.5')], 'std::vector<double>'), K(x)])
            except Throw: return
            raise Bad('threshold %s is accepted' % x)
        go(r, 'Anisotropic threshold', [(x, f)])
    for name, ref in (('And', lambda a, b: a and b), ('Or', lambda a, b: a or b), ('Xor', lambda a, b: a != b)):
        cases = []
        for a in (False, True):
            for b in (False, True):
                def f(a=a, b=b, name=name, ref=ref):
                    o = make(LN + name, lambda ps: len(ps) == 2, [Fn(lambda I, v: a), Fn(lambda I, v: b)])
                    eq('%s of %s and %s' % (name, a, b), bool(val(I, call(o, 'operator()', O[(1, 0)]))), ref(a, b))
                cases.append(('%s, %s' % (a, b), f))
        go(r, name, cases)
    # -- factories
    r = 'factories hold exactly the terms asked for'
    J = interp(d, 2000000)
    def hole(t): return t != (1,) + (0,) * (len(t) - 1)
    ls = [Lim('everything', lambda t: True), Lim('not the first unit index', hole), Lim('last order at most 1', lambda t: t[-1] <= 1)]
    def fact(name, ln, p, l, ref):
        def f():
            g = meth(MS, name, np=3); J.steps = 0; J.own.clear()
            def added(I, e, ob, a):
                t = tup(I, I.ex(a[0])) if a else None
                if t is not None and l.p(t) and not ref(t): raise Bad('the term %s is added' % (t,))
                return NotImplemented
            J.hooks['mpart::MultiIndexSet::AddActive'] = added
            try: S = Set(J, J.call_func(g, None, [ln, p, l.fn]))
            finally: J.hooks.pop('mpart::MultiIndexSet::AddActive', None)
            n = S('Size'); eq('Length', S('Length'), ln)
            sameset('the terms', [S('IndexToMulti', i) for i in range(n)], [t for t in itertools.product(range(p + 1), repeat=ln) if ref(t) and l.p(t)])
            eq('the limiter', all(bool(J.val(J.call_func(g2, S.o, [])).f(J, [mi(t)])) == l.p(t) for g2 in [meth(MS, 'GetLimiter')] for t in itertools.product(range(3), repeat=ln)), True)
        return f
    for name, ref in (('CreateTotalOrder', lambda p: lambda t: sum(t) <= p), ('CreateTensorProduct', lambda p: lambda t: True)):
        go(r, name, [('length %d, order %d, %s' % (ln, p, l.name), fact(name, ln, p, l, ref(p))) for ln, p in ((1, 0), (1, 2), (2, 0), (2, 2), (3, 1), (3, 2)) for l in ls])
    def eig(rows):
        def h(I, short, ob, a, e):
            if short == 'rows': return len(rows)
            if short == 'cols': return len(rows[0])
            if short == 'row': o = Opaque('row'); o.row = rows[I.ex(a[0])]; return o
            raise NoAnswer('matrix ' + short)
        J.opaque['Mat'] = h; o = Obj(MS); o.ty = MS
        g = [g for g in d.methods(MS) if g.d.get('isctor') and len(g.ps) == 1 and 'Eigen' in g.ps[0]['t']]
        if not g: raise NoAnswer('constructor from a matrix not found')
        J.steps = 0; J.own.clear(); J.run_ctor(g[0], o, [Obj('Mat')], MS); S = Set(J, o)
        eq('the terms', [S('IndexToMulti', i) for i in range(S('Size'))], rows); eq('Length', S('Length'), len(rows[0]))
        eq('MaxOrders', tuple(S('MaxOrders')), tuple(max(t[k] for t in rows) for k in range(len(rows[0]))))
    go(r, 'from a matrix', [('%d by %d' % (len(m), len(m[0])), lambda m=m: eig(m)) for m in ([(0, 0), (2, 0), (1, 1), (0, 3)], [(0, 1, 2)], [(0, 0, 0, 1), (1, 0, 2, 0)])])
    # -- fixed sets
    r = 'fixed sets hold exactly the terms they are made from'
    J.opaque = {k: v for k, v in J.opaque.items()}
    def here(g): at[0] = g; return g
    def fixed(JJ, o, terms, ln, ordered=True):
        def cf(name, *a):
            JJ.steps = 0; JJ.own.clear(); g = [g for g in d.methods(FS, name) if g.body is not None and not g.dep and len(g.ps) == len(a)]
            if not g: raise CheckError('FixedMultiIndexSet::%s not found' % name)
            return val(JJ, JJ.call_func(here(JJ.pick(g, o)[0]), o, list(a)))
        eq('Size', cf('Size'), len(terms)); eq('Length', cf('Length'), ln)
        got = [cf('IndexToMulti', i) for i in range(len(terms))]
        if ordered: eq('the terms', got, terms)
        else: sameset('the terms', got, terms)
        for i, t in enumerate(got): eq('MultiToIndex(%s)' % (t,), cf('MultiToIndex', vec(t)), i)
        for t in itertools.product(range(4), repeat=ln):
            if t not in terms: eq('MultiToIndex(%s)' % (t,), cf('MultiToIndex', vec(t)), -1)
        eq('MaxDegrees', cf('MaxDegrees'), tuple(max([t[k] for t in terms], default=0) for k in range(ln)))
    sets = [[(0, 0)], [(0, 0), (2, 0), (1, 1), (0, 3)], [(1, 2), (0, 0)], [(3,), (0,), (1,)], [(0, 0, 1), (2, 0, 1), (0, 0, 0), (1, 1, 1)], [(0, 2, 0)]]
    def fix(ts, comp):
        def f():
            o = Obj(MS); o.ty = MS; J.steps = 0; J.own.clear()
            g = [g for g in d.methods(MS) if g.d.get('isctor') and len(g.ps) == 3]
            J.run_ctor(g[0], o, [len(ts[0]), Fn(lambda I, v: True), Obj('mpart::DefaultNeighborhood')], MS); S = Set(J, o)
            for t in ts: S('AddActive', t)
            fixed(J, J.call_func(S.find('Fix', ['int']), o, [comp]), ts, len(ts[0]))
        return f
    for comp in (True, False): go(r, 'Fix, %s' % ('compressed' if comp else 'dense'), [(str(ts), fix(ts, comp)) for ts in sets])
    def uview(xs):
        b = Buf(len(xs), 'orders'); b.d = dict(enumerate(xs)); return View(b, 0, (len(xs),), (1,))
    def dense(ts): return lambda: fixed(I, make(FS, lambda ps: len(ps) == 2 and 'View' in ps[1], [len(ts[0]), uview([x for t in ts for x in t])]), ts, len(ts[0]))
    go(r, 'dense orders', [(str(ts), dense(ts)) for ts in sets])
    def comp(ts):
        st = [0]; dm = []; od = []
        for t in ts:
            for i, x in enumerate(t):
                if x: dm.append(i); od.append(x)
            st.append(len(dm))
        return lambda: fixed(I, make(FS, lambda ps: len(ps) == 4 and 'View' in ps[1], [len(ts[0]), uview(st), uview(dm), uview(od)]), ts, len(ts[0]))
    go(r, 'compressed orders', [(str(ts), comp(ts)) for ts in sets])
    go(r, 'total order', [('length %d, order %d' % (ln, p), lambda ln=ln, p=p: fixed(I, make(FS, lambda ps: len(ps) == 2 and 'View' not in ps[1], [ln, p]), [t for t in itertools.product(range(p + 1), repeat=ln) if sum(t) <= p], ln, False)) for ln in (1, 2, 3, 4) for p in (0, 1, 2, 3)])
    c.selftest('the reference order is total', len({mkey(t) for t in P}) == len(set(P)))
    c.assume('multi-indices of the enumerated supports and order types stand for all; rounding in Anisotropic is not considered')
    return c
