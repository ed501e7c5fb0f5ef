"""C18: construction and coefficient setters.  Every constructor of a composite map, affine map, density, sampler or distribution and
every coefficient setter is interpreted on all small combinations of dimensions of its parts: it must refuse (throw) exactly when the
parts do not fit, and the object built must report the dimensions and number of coefficients of the function it stands for."""
import os, itertools
from harness import Check
from db import DB, REPO, VERIF, CheckError
import formal as F
from formal import Models, NoAnswer
from absint import Interp, Obj, SObj, Vec, LV, View, Buf, Throw, Violation, Opaque, Fn, Assoc, Str
RULE = 'construction and coefficient setters refuse exactly what does not fit, and objects report their dimensions'
HS = 'Kokkos::HostSpace'
N = 'mpart::'
TUS = [os.path.join(REPO, 'src', f) for f in ('TriangularMap.cpp', 'ComposedMap.cpp', 'SummarizedMap.cpp', 'AffineMap.cpp', 'AffineFunction.cpp', 'IdentityMap.cpp', 'MapFactory.cpp',
       'ParameterizedFunctionBase.cpp', 'ConditionalMapBase.cpp', 'Distributions/GaussianSamplerDensity.cpp', 'Distributions/PullbackDensity.cpp', 'MapFactoryImpl1.cpp')] + [os.path.join(VERIF, 'tool', 'inst.cpp')]
class Bad(Exception): pass

def view(name, *ext, left=False):
    n = 1
    for x in ext: n *= x
    b = Buf(n, name); b.d = {i: F.A('%s%d' % (name, i)) for i in range(n)}
    st = []; s = 1
    for x in (ext if left else ext[::-1]): st.append(s); s *= x
    return View(b, 0, ext, st if left else st[::-1])

def check():
    c = Check('C18', RULE); d = DB(TUS); thorough = os.environ.get('VERIF_TIER') == 'thorough'
    I = Interp(d, Models(n=1), budget=400000); I.at_throws = True; I.sobj = True
    class Solver:
        def ctor(s, I, o): pass
        def __call__(s, I, short, ob, a, e):
            for x in a: I.ex(x)
            if short == 'determinant': return F.A('det')
            return None
    for k in ('Cholesky', 'PartialPivLU'): I.opaque[k] = I.opaque[N + k] = Solver()
    I.opaque['Kokkos::Random_XorShift64_Pool'] = I.opaque['Random_XorShift64_Pool'] = Solver()
    for k in ('time', 'clock'): I.hooks[k] = lambda I, e, ob, a: 1
    at = [None]
    def loc_(key): return '%s:%d (%s)' % (at[0].file, at[0].line, at[0].cq) if at[0] is not None else key
    def comp(cls, i, o, n, stored=None):
        """a part whose own operations are not looked at: dimensions and stored coefficients"""
        x = SObj(N + cls); x.ty = '%s%s<%s>' % (N, cls, HS); x.f.update(inputDim=i, outputDim=o, numCoeffs=n)
        x.f['savedCoeffs'] = View(None, 0, (0,), (0,)) if stored is None else view('w', stored)
        return x
    def dimd(cls, n):
        x = SObj(N + cls); x.ty = '%s%s<%s>' % (N, cls, HS); x.f['dim_'] = n; return x
    def ctors(cls, sel):
        fs = [g for g in d.methods(N + cls) if g.d.get('isctor') and g.body is not None and not g.dep and HS in g.d['clst'] and sel([p['t'] for p in g.ps])]
        if not fs: raise CheckError('constructor of %s not found' % cls)
        return fs[0]
    def build(cls, sel, args):
        fn = ctors(cls, sel); at[0] = fn; I.steps = 0; I.own.clear()
        o = SObj(N + cls); o.ty = fn.d['clst']; I.run_ctor(fn, o, args, o.ty); return o
    def meth(o, name, sel=None):
        for cl in [o.cls] + d.all_bases(o.cls):
            fs = [g for g in d.methods(cl, name) if g.body is not None and not g.dep and (sel is None or sel([p['t'] for p in g.ps]))]
            h = [g for g in fs if HS in g.d.get('clst', '')]
            if h or fs: return (h or fs)[0]
        raise CheckError('%s::%s not found' % (o.cls, name))
    def call(o, name, args, sel=None):
        g = meth(o, name, sel); at[0] = g; I.steps = 0; I.own.clear(); return I.call_func(g, o, args)
    def field(o, f):
        v = o.f.get(f); v = I.val(v) if isinstance(v, LV) else v
        if not isinstance(v, int): raise NoAnswer('%s is not settled: %r' % (f, v))
        return v
    def dims(o, i, u, n):
        for f, w in (('inputDim', i), ('outputDim', u), ('numCoeffs', n)):
            if field(o, f) != w: raise Bad('the object built reports %s = %d, its parts amount to %d' % (f, field(o, f), w))
    def same(v, w, what):
        """the view holds the given values"""
        if not isinstance(v, View): raise NoAnswer('%s is %r' % (what, v))
        if tuple(v.ext) != tuple(w.ext): raise Bad('%s has shape %s, expected %s' % (what, v.ext, w.ext))
        for o1, o2 in zip(I.offsets(v), I.offsets(w)):
            x, y = I.get(LV(v.buf, o1)), I.get(LV(w.buf, o2))
            if not (x is y or isinstance(x, F.E) and isinstance(y, F.E) and I.M.same(x, y)): raise Bad('%s holds other values than those given' % what)
    def own(v, w, what):
        same(v, w, what)
        if v.buf is w.buf: raise Bad('%s is the caller\'s own array, not a copy' % what)
    cnt = {}
    def go(rule, key, cases):
        """cases: (label, fits, f): f() builds and returns a follow-up check; refused iff not fits"""
        k = 0; at[0] = None
        for label, fits, f in cases:
            try:
                try: r = f()
                except Throw as x:
                    if fits: raise Bad('refused (%s) although the parts fit' % x)
                    k += 1; c.count('refusals'); continue
                if not fits: raise Bad('accepted although the parts do not fit')
                if r is not None:
                    try: r()
                    except Throw as x: raise Bad('fails afterwards: %s' % x)
                k += 1; c.count('objects built')
            except (Bad, Violation) as x: c.bad(rule, loc_(key), '%s, %s: %s' % (key, label, x), key); return
            except (NoAnswer, F.Undefined) as x: c.skip(rule, loc_(key), '%s, %s: %s' % (key, label, x)); return
        if k: c.ok(rule, loc_(key), '%s: %d combinations' % (key, k))
        cnt[rule] = cnt.get(rule, 0) + k
    has = lambda *fr: (lambda ps: all(any(x in p for p in ps) for x in fr))
    D = range(1, 4); top = 5 if thorough else 4
    # -- stacked maps
    r = 'stacked and composed maps are built exactly from parts that fit'
    CV = 'std::vector<std::shared_ptr<mpart::ConditionalMapBase<%s>>>' % HS
    def tri(ps, move, st):
        cs = [comp('ConditionalMapBase', i, o, n, (n if st[k] == 'set' else n + 1 if st[k] == 'long' and n else None)) for k, (i, o, n) in enumerate(ps)]
        o = build('TriangularMap', lambda q: 'vector' in q[0], [Vec(cs, CV), move])
        def after(): dims(o, ps[-1][0], sum(x[1] for x in ps), sum(x[2] for x in ps))
        return after
    def trifits(ps): return all(o <= i for i, o, n in ps) and all(ps[k][0] == ps[k - 1][0] + ps[k][1] for k in range(1, len(ps)))
    nc = lambda k: (2, 3, 1, 4)[k % 4]
    pairs = [(i, o) for i in range(1, top) for o in range(0, top)]
    C1 = [((i, o, 2),) for i, o in pairs]
    C2 = [((i, o, 2), (j, p, 3)) for i, o in pairs for j, p in pairs]
    ok3 = [((i, o, 2), (j, p, 3), (k, q, 1)) for i, o in pairs for j, p in pairs for k in range(1, 8) for q in range(0, 3)]
    C3 = [x for x in ok3 if trifits(x)] + [x for x in ok3 if trifits(x[:2]) and not trifits(x)] + [x for x in ok3 if trifits(x[1:]) and not trifits(x)]
    if not thorough: C3 = C3[::5] + [x for x in C3 if trifits(x)][::3]
    for key, cs in (('TriangularMap of one block', C1), ('TriangularMap of two blocks', C2), ('TriangularMap of three blocks', C3)):
        go(r, key, [(str(ps), trifits(ps), lambda ps=ps: tri(ps, False, [None] * len(ps))) for ps in cs])
    def moved(b, ps, st): return all(n == 0 or s == 'set' for (i, o, n), s in zip(ps, st))
    T3 = ((1, 1, 2), (2, 1, 0), (4, 2, 3)); S3 = ((2, 2, 2), (2, 2, 0), (2, 2, 3))
    sts = list(itertools.product(('set', None, 'long'), repeat=3))
    go(r, 'TriangularMap adopting coefficients', [('blocks with coefficients %s' % (st,), moved(1, T3, st), lambda st=st: tri(T3, True, st)) for st in sts])
    # -- composed maps
    def composed(ps, move, st, chk=-1):
        cs = [comp('ConditionalMapBase', i, o, n, (n if st[k] == 'set' else n + 1 if st[k] == 'long' and n else None)) for k, (i, o, n) in enumerate(ps)]
        o = build('ComposedMap', lambda q: 'vector' in q[0], [Vec(cs, CV), move, chk])
        def after(): dims(o, ps[0][0], ps[0][0], sum(x[2] for x in ps))
        return after
    def cfits(ps): return all(i == ps[0][0] and o == ps[0][0] for i, o, n in ps)
    for L in (1, 2, 3):
        cs = [tuple((i, o, nc(k)) for k, (i, o) in enumerate(q)) for q in itertools.product([(i, o) for i in D for o in D], repeat=L)]
        if L == 3: cs = [x for x in cs if sum(1 for i, o, n in x if (i, o) != (x[0][0], x[0][0])) <= (3 if thorough else 1) or sum(1 for i, o, n in x if (i, o) != (x[1][0], x[1][0])) <= 1]
        go(r, 'ComposedMap of %d layers' % L, [(str(x), cfits(x), lambda x=x: composed(x, False, [None] * len(x))) for x in cs])
    go(r, 'ComposedMap adopting coefficients', [('layers with coefficients %s' % (st,), moved(1, S3, st), lambda st=st: composed(S3, True, st)) for st in sts])
    # -- summarised maps
    def summ(s, m):
        o = build('SummarizedMap', lambda q: len(q) == 2, [comp('ParameterizedFunctionBase', *s), comp('ConditionalMapBase', *m)])
        return lambda: dims(o, s[0] + 1, 1, m[2])
    go(r, 'SummarizedMap', [('summary %s, component %s' % (s, m), m[1] == 1 and m[0] == s[1] + 1, lambda s=s, m=m: summ(s, m))
       for s in [(i, o, n) for i in D for o in D for n in (0, 2)] for m in [(i, o, 3) for i in range(1, 5) for o in (1, 2)]])
    # -- identity
    go(r, 'IdentityMap', [('%d to %d' % (i, o), True, lambda i=i, o=o: (lambda x: lambda: dims(x, i, o, 0))(build('IdentityMap', lambda q: len(q) == 2, [i, o]))) for i in D for o in range(0, i + 1)])
    # -- single-entry maps
    def single(dim, act, m):
        fs = [g for g in d.find(N + 'MapFactory::CreateSingleEntryMap') if g.body is not None and not g.dep and HS in g.d.get('ret', HS)]
        if not fs: raise CheckError('CreateSingleEntryMap not found')
        at[0] = fs[0]; I.steps = 0; I.own.clear()
        x = I.call_func(fs[0], None, [dim, act, comp('ConditionalMapBase', *m)]); x = I.val(x) if isinstance(x, LV) else x
        if not isinstance(x, Obj): raise NoAnswer('result %r' % (x,))
        return lambda: dims(x, dim, dim, m[2])
    go(r, 'CreateSingleEntryMap', [('dimension %d, active %d, component %s' % (n, a, m), a <= n and m[0] == a and m[1] == 1, lambda n=n, a=a, m=m: single(n, a, m))
       for n in range(1, 5) for a in range(1, 6) for m in [(i, o, k) for i in range(1, 6) for o in (1, 2) for k in (0, 3) if o <= i and abs(i - a) <= 2]])
    # -- affine maps and functions: refused by exception or by assertion
    r = 'affine maps, densities and samplers are built exactly from parts that fit'
    for cls, mat in (('AffineMap', True), ('AffineFunction', True)):
        mx = lambda ps: 'double **' in ps[0].replace('*const', '*')
        isM = lambda p: '**' in p
        def aff(cls, A, b):
            va = view('a', *A) if A else None; vb = view('b', b) if b is not None else None
            args = [x for x in (va, vb) if x is not None]
            o = build(cls, lambda q: len(q) == len(args) and all(isM(t) == (len(x.ext) == 2) for t, x in zip(q, args)), args)
            def after():
                dims(o, A[1] if A else b, A[0] if A else b, 0)
                if va is not None: own(o.f.get('A_'), va, 'the stored matrix')
                if vb is not None: own(o.f.get('b_'), vb, 'the stored offset')
            return after
        S = [(i, j) for i in D for j in D]
        go(r, cls + ' from an offset', [('length %d' % b, True, lambda b=b, cls=cls: aff(cls, None, b)) for b in D])
        go(r, cls + ' from a matrix', [('%s' % (A,), A[0] <= A[1], lambda A=A, cls=cls: aff(cls, A, None)) for A in S])
        go(r, cls + ' from a matrix and an offset', [('%s, length %d' % (A, b), A[0] <= A[1] and b == A[0], lambda A=A, b=b, cls=cls: aff(cls, A, b)) for A in S for b in D])
    # -- densities
    def dim(o, n):
        x = call(o, 'Dim', [])
        if not isinstance(x, int): raise NoAnswer('Dim() is %r' % (x,))
        if x != n: raise Bad('Dim() is %d, expected %d' % (x, n))
    def gauss(kinds, args, n, mean):
        def sel(q):
            return len(q) == len(kinds) and all((k == 'M') == ('**' in t) and (k == 'I') == ('View' not in t) for k, t in zip(kinds, q))
        o = build('GaussianSamplerDensity', sel, args)
        def after():
            for b in ('DensityBase', 'SampleGenerator'):
                g = [m for m in d.methods(N + b, 'Dim') if m.body is not None and not m.dep]
                if g and I.val(I.call_func(g[0], o, [])) != n: raise Bad('%s::Dim() of the object is not %d' % (b, n))
            if mean is not None: own(o.f.get('mean_'), mean, 'the stored mean')
        return after
    def G(kinds, *s):
        args = [view('g%d' % k, *x) if isinstance(x, tuple) else x for k, x in enumerate(s)]
        n = s[0][0] if isinstance(s[0], tuple) else s[0]
        return gauss(kinds, args, n, args[0] if kinds[0] == 'V' else None)
    go(r, 'GaussianSamplerDensity of a dimension', [(str(n), True, lambda n=n: G('I', n)) for n in D])
    go(r, 'GaussianSamplerDensity from a mean', [(str(n), True, lambda n=n: G('V', (n,))) for n in D])
    go(r, 'GaussianSamplerDensity from a covariance', [(str((n, m)), n == m, lambda n=n, m=m: G('M', (n, m))) for n in D for m in D])
    go(r, 'GaussianSamplerDensity from mean and covariance', [('mean %d, covariance %s' % (k, (n, m)), n == m == k, lambda n=n, m=m, k=k: G('VM', (k,), (n, m))) for k in D for n in D for m in D])
    for cls, base, sq in (('PullbackDensity', 'DensityBase', False), ('PushforwardDensity', 'DensityBase', True), ('PullbackSampler', 'SampleGenerator', True), ('PushforwardSampler', 'SampleGenerator', True)):
        def tr(cls, base, i, o, n):
            x = build(cls, lambda q: len(q) == 2, [comp('ConditionalMapBase', i, o, 2, 2), dimd(base, n)])
            return (lambda: dim(x, n)) if i == o else None
        go(r, cls, [('map %d to %d, dimension %d' % (i, o, n), n == (o if 'Pull' in cls else i) and (i == o or not sq), lambda i=i, o=o, n=n, cls=cls, base=base: tr(cls, base, i, o, n)) for i in D for o in D for n in D])
    def dist(a, b):
        x = build('Distribution', lambda q: len(q) == 2, [dimd('SampleGenerator', a), dimd('DensityBase', b)])
        return lambda: dim(x, a)
    go(r, 'Distribution', [('sampler %d, density %d' % (a, b), a == b, lambda a=a, b=b: dist(a, b)) for a in D for b in D])
    # -- coefficients
    r = 'coefficient setters accept exactly the right length'
    for n in (0, 1, 2, 3):
        for name in ('SetCoeffs', 'WrapCoeffs'):
            sel = lambda q: len(q) == 1 and 'View' in q[0]
            def st(name, n, m, before):
                o = comp('ConditionalMapBase', 2, 1, n, before); w = view('c', m); old = o.f['savedCoeffs']
                try: call(o, name, [w], sel)
                except Throw:
                    v = o.f['savedCoeffs']
                    if old.buf is not None and v.buf is not old.buf or tuple(v.ext) != tuple(old.ext): raise Bad('a refused vector changes the stored coefficients')
                    raise
                def after():
                    v = o.f['savedCoeffs']; same(v, w, 'the stored vector')
                    if name == 'SetCoeffs' and n and v.buf is w.buf: raise Bad('the stored vector is the caller\'s own array, not a copy')
                    if name == 'WrapCoeffs' and n and v.buf is not w.buf: raise Bad('the stored vector is not the caller\'s array')
                    if not I.truth(call(o, 'CheckCoefficients', [], lambda q: not q)): raise Bad('CheckCoefficients() is false afterwards')
                return after
            go(r, '%s of a function with %d coefficients' % (name, n), [('vector of %d, %s' % (m, 'nothing stored' if b is None else '%d stored' % b), m == n, lambda m=m, n=n, b=b, name=name: st(name, n, m, b)) for m in range(0, 5) for b in (None, n)])
    def chk(n, b):
        o = comp('ConditionalMapBase', 2, 1, n, b); x = I.truth(call(o, 'CheckCoefficients', [], lambda q: not q))
        if bool(x) != (n == 0 or b == n): raise Bad('CheckCoefficients() is %s' % x)
        g = [m for m in d.methods(N + 'ParameterizedFunctionBase', 'CheckCoefficients') if len(m.ps) == 1 and m.body is not None and not m.dep]
        if g:
            t = False
            try: I.call_func(g[0], o, [''])
            except Throw: t = True
            if t == bool(x): raise Bad('CheckCoefficients(name) %s' % ('throws' if t else 'does not throw'))
    go(r, 'CheckCoefficients', [('%d coefficients, %s stored' % (n, b), True, lambda n=n, b=b: chk(n, b)) for n in range(0, 4) for b in (None, 0, 1, 2, 3, 4)])
    # -- the routines of a monotone component: refused before any kernel is launched
    r = 'routines of a monotone component refuse arrays that do not fit'
    MC = N + 'MonotoneComponent'
    class Part:
        def ctor(s, I, o): pass
        def __call__(s, I, short, ob, a, e):
            for x in a: I.ex(x)
            return 3 if short.endswith('Size') else None
    part = Part(); 
    for k in ('MultivariateExpansionWorker', 'AdaptiveSimpson', 'AdaptiveClenshawCurtis', 'ClenshawCurtisQuadrature'): I.opaque[k] = I.opaque[N + k] = part
    mcs = [g for g in d.methods(MC) if g.body is not None and not g.dep and HS in g.d.get('clst', '')]
    I.opaque['#part'] = part
    def mono(n, nc, cont):
        x = SObj(MC); x.ty = mcs[0].d['clst']
        x.f.update(inputDim=n, outputDim=1, numCoeffs=nc, dim_=n, useContDeriv_=cont, savedCoeffs=view('w', nc), expansion_=Obj('#part'), quad_=Obj('#part'), nugget_=F.K(0)); return x
    class Reached(Exception): pass
    def reach(I, e, ob, a): raise Reached()
    def entry(name, sh):
        """the routine whose view parameters have the given ranks"""
        def rk(t): return 2 if '**' in t else 1 if '*' in t else 0
        fs = [g for g in mcs if g.name == name and [rk(p['t']) for p in g.ps[:len(sh)]] == [len(x) for x in sh]]
        return fs[0] if fs else None
    def stod(I, e, ob, a):
        v = I.ex(a[0]); v = I.val(v) if isinstance(v, LV) else v
        try: return F.K(__import__('fractions').Fraction(str(v)))
        except (ValueError, TypeError): raise NoAnswer('stod(%r)' % (v,))
    def routine(name, n, nc, cont, sh, extra=()):
        fn = entry(name, sh)
        o = mono(n, nc, cont); at[0] = fn; I.steps = 0; I.own.clear(); sv = dict(I.hooks)
        for k in ('parallel_for', 'parallel_reduce', 'parallel_scan'): I.hooks[k] = reach
        I.hooks['stod'] = stod
        try: I.call_func(fn, o, [view('x%d' % k, *s) for k, s in enumerate(sh)] + list(extra))
        except Reached: pass
        finally: I.hooks.clear(); I.hooks.update(sv)
    q = (1, 2, 3)
    def vary(good):
        """the fitting shapes and every change of one or two extents"""
        flat = [x for s in good for x in s]; out = [flat]
        for i in range(len(flat)):
            for dx in (-1, 1, 2): out.append(flat[:i] + [flat[i] + dx] + flat[i + 1:])
        for i, j in itertools.combinations(range(len(flat)), 2):
            for dx, dy in ((1, 1), (1, -1), (-1, 1)): f = list(flat); f[i] += dx; f[j] += dy; out.append(f)
        res = []
        for f in out:
            it = iter(f); res.append(tuple(tuple(next(it) for _ in s) for s in good))
        return [x for x in res if all(v >= 0 for s in x for v in s)]
    sizes = [(2, 3, 4), (3, 2, 1), (1, 4, 3)]
    specs = [('GradientImpl', True, lambda n, c, p: ((n, p), (1, p), (n, p)), lambda s, n, c: s[0][0] == n and s[1] == (1, s[0][1]) and s[2] == (n, s[0][1])),
             ('CoeffGradImpl', True, lambda n, c, p: ((n, p), (1, p), (c, p)), lambda s, n, c: s[0][0] == n and s[1] == (1, s[0][1]) and s[2] == (c, s[0][1])),
             ('LogDeterminantCoeffGradImpl', True, lambda n, c, p: ((n, p), (c, p)), lambda s, n, c: s[1] == (c, s[0][1])),
             ('LogDeterminantCoeffGradImpl', False, lambda n, c, p: ((n, p), (c, p)), lambda s, n, c: s[1] == (c, s[0][1])),
             ('LogDeterminantInputGradImpl', True, lambda n, c, p: ((n, p), (n, p)), lambda s, n, c: s[1] == s[0]),
             ('EvaluateImpl', True, lambda n, c, p: ((n, p), (c,), (p,)), lambda s, n, c: s[2] == (s[0][1],)),
             ('CoeffJacobian', True, lambda n, c, p: ((n, p), (c,), (p,), (c, p)), lambda s, n, c: s[2] == (s[0][1],) and s[3] == (s[1][0], s[0][1])),
             ('InputJacobian', True, lambda n, c, p: ((n, p), (c,), (p,), (n, p)), lambda s, n, c: s[2] == (s[0][1],) and s[3] == (n, s[0][1])),
             ('ContinuousMixedJacobian', True, lambda n, c, p: ((n, p), (c,), (c, p)), lambda s, n, c: s[2] == (s[1][0], s[0][1])),
             ('DiscreteMixedJacobian', True, lambda n, c, p: ((n, p), (c,), (c, p)), lambda s, n, c: s[2] == (s[1][0], s[0][1])),
             ('ContinuousMixedInputJacobian', True, lambda n, c, p: ((n, p), (c,), (n, p)), lambda s, n, c: s[2] == s[0]),
             ('InverseImpl', True, lambda n, c, p: ((n - 1, p), (p,), (c,), (p,)), lambda s, n, c: s[0][1] in (1, s[1][0]) and s[3] == s[1])]
    for name, cont, good, fits in specs:
        g0 = good(2, 3, 4)
        if entry(name, g0) is None: c.count('routines not found'); continue
        ex = (Assoc(True, 'std::map<std::string, std::string>'),) if name == 'InverseImpl' else ()
        cs = [(n, nc, s) for n, nc, p in sizes for s in vary(good(n, nc, p)) if name.endswith('GradImpl') is False or s[0][0] == n or name in ('GradientImpl', 'CoeffGradImpl')]
        if name == 'LogDeterminantInputGradImpl': cs = [x for x in cs if x[2][0][0] == x[0]]
        go(r, name + ('' if cont else ' (discrete derivative)'), [('inputDim %d, %d coefficients, arrays %s' % (n, nc, ' '.join(map(str, s))), fits(s, n, nc), lambda n=n, nc=nc, s=s: routine(name, n, nc, cont, s, ex)) for n, nc, s in cs])
    if entry('InverseImpl', ((1, 2), (2,), (3,), (2,))) is not None:
        def opts(m):
            a = Assoc(True, 'std::map<std::string, std::string>')
            for k, v in m.items(): a.d[Str(k)] = Str(v); a.keys[Str(k)] = Str(k)
            return a
        TOL = [None, '1e-3', '0', '-1', '1e-20', '-1e-9']
        cs = [({}, True)] + [({'Method': m}, m == 'Bracket') for m in ('Bracket', 'Bisect', 'Newton', '')]
        for x in TOL:
            for y in TOL:
                m = {k: v for k, v in (('xtol', x), ('ytol', y)) if v is not None}
                fx, fy = float(x or 1e-6), float(y or 1e-6)
                cs.append((m, fx >= 0 and fy >= 0 and (fx > 2.3e-16 or fy > 2.3e-16)))
        go(r, 'InverseImpl options', [(str(m), ok, lambda m=m: routine('InverseImpl', 2, 3, True, ((1, 2), (2,), (3,), (2,)), (opts(m),))) for m, ok in cs])
    for k, v in sorted(cnt.items()): c.count('combinations: ' + k, v)
    c.need('stacked and composed maps are built exactly from parts that fit', 5)
    c.need('affine maps, densities and samplers are built exactly from parts that fit', 8)
    c.need('coefficient setters accept exactly the right length', 4)
    c.selftest('a fitting stack is recognised', trifits(((1, 1, 2), (2, 1, 3))) and not trifits(((1, 1, 2), (3, 1, 3))))
    c.assume('sizes up to the ones enumerated stand for larger ones: the constructors use dimensions only in sums and comparisons')
    return c
