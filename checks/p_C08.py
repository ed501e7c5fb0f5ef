"""C08: quadrature rules integrate with the nodes and weights they stand for and subdivide by the stated rule."""
import os, math
from fractions import Fraction
from decimal import Decimal
from harness import Check
from db import DB, REPO, VERIF, CheckError
from formal import A, K, E, ONE, ZERO, PI, Models, NoAnswer, Undefined, add, sub, mul, div, neg, f1, fn, sh, undef
from absint import Interp, Obj, Buf, Ptr, View, Violation, Throw, LV, staleview, elem, deref
RULE = ("Abstract interpretation of every quadrature class in the domain of formal expressions over an uninterpreted vector-valued integrand and symbolic end points: for each enumerated configuration and each pattern of converged and unconverged segments "
        "the returned integral must be, as a formula, the sum over the accepted segments of the class's rule, the accept decision must compare the required error estimate with the required tolerance, and workspace accesses stay within the requested size and read only what was stored.")
TUS = [VERIF + '/tool/quad.cpp']
N = 'mpart::'
TOL = Decimal('1e-13')
H = K(Fraction(1, 2))

def F_(k, t): return fn('f%d' % k, 0, t)
def simpson(k, a, b):
    m = mul(H, add(a, b))
    return mul(div(sub(b, a), K(6)), add(add(F_(k, a), mul(K(4), F_(k, m))), F_(k, b)))
_cc = {}
def ccrule(n):
    """nodes and weights of the n-point Clenshaw-Curtis rule on [-1,1]: Chebyshev extreme points, weights exact for degree n-1"""
    if n in _cc: return _cc[n]
    if n == 1: r = [(ZERO, K(2))]
    else:
        N_ = n - 1; r = []
        for i in range(n):
            x = f1('cos', mul(PI, K(Fraction(N_ - i, N_)))); s = ZERO
            for j in range(0, N_ + 1):     # integral of the interpolant: sum over even Chebyshev terms
                if j % 2: continue
                c = Fraction(2, N_) * (Fraction(1, 2) if j in (0, N_) else 1) * (Fraction(1, 2) if i in (0, N_) else 1) * Fraction(2, 1 - j * j)
                s = add(s, mul(K(c), f1('cos', mul(PI, K(Fraction(j * (N_ - i), N_))))))
            r.append((x, s))
    # as high-precision constants
    from formal import Model
    m = Model(0); r = [(K(Fraction(m.ev(x))), K(Fraction(m.ev(w)))) for x, w in r]
    _cc[n] = r; return r
def cc(n, k, a, b):
    s = ZERO; h = mul(H, sub(b, a)); m = mul(H, add(a, b))
    for x, w in ccrule(n): s = add(s, mul(mul(h, w), F_(k, add(m, mul(h, x)))))
    return s
METRIC = ('First', 'NormInf', 'Norm2', 'Norm1')
def norm(metric, v):
    if metric == 'First': return f1('abs', v[0])
    s = ZERO
    for x in v: s = E('fmax', s, f1('abs', x)) if metric == 'NormInf' else add(s, mul(x, x) if metric == 'Norm2' else f1('abs', x))
    return f1('sqrt', s) if metric == 'Norm2' else s

class Script(Models):
    """data-dependent decisions are taken from the pattern of converged segments"""
    def __init__(s, segs, accept, **kw):
        Models.__init__(s, n=1, **kw); s.segs = segs; s.accept = accept; s.n = 0; s.other = 0
    def data(s, e, memo={}):
        st = [e]; seen = set()
        while st:
            x = st.pop()
            if x.id in seen: continue
            seen.add(x.id)
            if x.op == 'fn': return True
            st.extend(y for y in x.a if isinstance(y, E))
        return False
    def same(s, x, y, tol=TOL): return Models.same(s, x, y, tol)
    def decide(s, op, x, y):
        if not (s.data(x) or s.data(y)): return Models.decide(s, op, x, y)
        s.n += 1
        for g in s.segs:
            err, tol = s.segs[g]
            if s.same(x, err) and s.same(y, tol): return s.accept[g] if op in ('<', '<=') else not s.accept[g]
            if s.same(y, err) and s.same(x, tol): return s.accept[g] if op in ('>', '>=') else not s.accept[g]
        s.other += 1
        return Models.decide(s, op, x, y)

def patterns(depth):
    """all patterns of converged segments as the set of split segments (level, position); splits below an unsplit segment do not occur"""
    def rec(l, p):
        if l >= depth: return [frozenset()]
        sub_ = rec(l + 1, 2 * p); sup = rec(l + 1, 2 * p + 1)
        return [frozenset()] + [frozenset([(l, p)]) | a | b for a in sub_ for b in sup]
    return rec(0, 0)
def seg(l, p, a, b):
    """end points of the segment at position p of level l"""
    w = sub(b, a)
    return add(a, mul(w, K(Fraction(p, 2 ** l)))), add(a, mul(w, K(Fraction(p + 1, 2 ** l))))

def opaque(fdim):
    def h(I, short, ob, a, e):
        if e.get('opr') != '()' and short != 'operator()': raise NoAnswer('integrand method ' + short)
        t, o = [I.ex(x) for x in a]
        I.evals = getattr(I, 'evals', 0) + 1
        if I.evals > 700: raise Violation('termination', 'more than 700 evaluations of the integrand', I.where_)
        for k in range(fdim): I.set(deref(o, k, I), F_(k, I.real(t)))
        return None
    return h

def check():
    c = Check('C08', RULE)
    d = DB(TUS, max_inst=9, keep_variants=9)
    thorough = os.environ.get('VERIF_TIER') == 'thorough'
    a, b = A('lb'), A('ub'); rng = {'lb': (-1.5, 0.25), 'ub': (1, 1.75), 'atol': (0.001, 0.01), 'rtol': (0.001, 0.01)}
    rc, rs, ra, rd = 'Clenshaw-Curtis rule', 'adaptive Simpson rule', 'adaptive Clenshaw-Curtis rule', 'degenerate interval'
    def ctor(cls, np, internal):
        fs = [g for g in d.methods(N + cls) if g.d.get('isctor') and len(g.ps) == np and not g.dep and not any('View' in p['t'] for p in g.ps) and any('*' in p['t'] for p in g.ps) == (not internal)]
        fs = [g for g in fs if not any('&' in p['t'] for p in g.ps)]
        if not fs: raise CheckError('constructor of %s with %d parameters not found' % (cls, np))
        return fs[0]
    def inst(cls, np): return [g for g in d.methods(N + cls, 'Integrate') if len(g.ps) == np and not g.dep and g.body is not None]
    def run(rule, cls, label, key, nargs, args, M, want, fdim, dim, internal, lo=a, hi=b, setdim=False):
        """args(ws) constructor arguments; want(k) required result"""
        I = Interp(d, M, opaque={'OpaqueFun': opaque(dim)})
        fs = inst(cls, 4 if internal else 5)
        if not fs: c.skip(rule, cls, 'Integrate not instantiated'); return
        g = fs[0]; w = '%s:%d (%s)' % (g.file, g.line, g.cq); bad = None
        try:
            q = Obj(N + cls); f = ctor(cls, nargs, internal); q.ty = f.d['clst']
            I.run_ctor(f, q, args(None if internal else Ptr(I.newbuf(0, 'workspace'))), q.ty)
            if dim != fdim or setdim:
                s = next((m for m in d.methods(N + cls, 'SetDim') if not m.dep), None)
                if s is None: raise NoAnswer('SetDim not found')
                I.call_func(s, q, [dim])
            s = next(m for m in d.methods(N + 'QuadratureBase', 'WorkspaceSize') if not m.dep)
            n = I.call_func(s, q, [])
            r = I.newbuf(dim, 'result')
            for k in range(dim): r.d[k] = undef('result')
            av = [Obj('OpaqueFun'), lo, hi, Ptr(r)]
            if not internal: av = [Ptr(I.newbuf(n, 'workspace of the requested size'))] + av
            I.call_func(g, q, av)
            for k in range(dim):
                if not M.same(I.real(r.d[k]), want(k)): bad = bad or 'entry %d of the result is %s, required %s' % (k, sh(r.d[k])[:160], sh(want(k))[:160])
            c.count('workspace and array accesses checked', I.nbounds)
            c.ob(not bad, rule, w, '%s: %s' % (label, bad or '%d entries as required' % dim), key)
        except Violation as x: c.bad(rule, w, '%s: %s' % (label, x), key)
        except Throw as x: c.bad(rule, w, '%s: throws (%s)' % (label, x), key)
        except (NoAnswer, Undefined) as x: c.skip(rule, w, '%s: %s' % (label, x))

    for n in range(1, 18 if thorough else 10):
        for fdim, dim, internal in ((1, 1, True), (3, 2, False), (3, 3, False), (3, 2, True)):
            run(rc, 'ClenshawCurtisQuadrature', '%d points, %d of %d functions, %s workspace' % (n, dim, fdim, 'own' if internal else 'given'), 'CC', 2 if internal else 3,
                lambda w: [n, fdim] + ([w] if w else []), Script({}, {}, ranges=rng), lambda k: cc(n, k, a, b), fdim, dim, internal)
    def zero(k): return ZERO
    for n in (2, 5): run(rd, 'ClenshawCurtisQuadrature', '%d points on an empty interval' % n, 'CC', 3, lambda w: [n, 1, w], Script({}, {}, ranges=rng), zero, 1, 1, False, a, a)
    depth = 3
    def adaptive(rule, cls, head, fine, coarse, nargs):
        cfg = []
        for maxsub in (1, 2, 3) + ((4,) if thorough else ()):
            for minsub in range(0, maxsub + 2):
                for metric in METRIC:
                    if metric not in ('First', 'Norm1') and (minsub or maxsub < 2) and not thorough: continue
                    for fdim, dim in {'First': [(2, 2)], 'NormInf': [(2, 2), (3, 3)], 'Norm2': [(3, 2), (3, 3), (1, 1)], 'Norm1': [(2, 2)] + ([(3, 3), (5, 4)] if maxsub == 2 and not minsub else [])}[metric]:
                        cfg.append((maxsub, minsub, metric, fdim, dim))
        for maxsub, minsub, metric, fdim, dim in cfg:
            pats = patterns(min(maxsub, depth)) if maxsub > 1 else [frozenset(), frozenset([(0, 0)])]
            if metric != 'Norm1' and len(pats) > 5: pats = pats[::5] + [pats[-1]]
            segs = {}
            for l in range(maxsub + 1):
                for p in range(2 ** l):
                    x, y = seg(l, p, a, b)
                    err = norm(metric, [sub(fine(k, x, y), coarse(k, x, y)) for k in range(dim)]); ref = norm(metric, [coarse(k, x, y) for k in range(dim)])
                    segs[(l, p)] = (err, E('fmax', mul(A('rtol'), ref), A('atol')))
            for internal in (False, True):
                for split in pats:
                    if internal and split not in (pats[0], pats[-1]): continue
                    acc = {g: g not in split for g in segs}
                    def leaves(l, p):
                        if l >= maxsub - 1 or (acc[(l, p)] and l >= minsub): return [(l, p)]
                        return leaves(l + 1, 2 * p) + leaves(l + 1, 2 * p + 1)
                    L = leaves(0, 0)
                    def want(k):
                        s = ZERO
                        for l, p in L: s = add(s, fine(k, *seg(l, p, a, b)))
                        return s
                    args = lambda w: head + [maxsub, fdim] + ([w] if w else []) + [A('atol'), A('rtol'), METRIC.index(metric), minsub]
                    run(rule, cls, 'at most %d levels, at least %d, %s error, %d of %d functions, %d accepted segments, %s workspace' % (maxsub, minsub, metric, dim, fdim, len(L), 'own' if internal else 'given'), cls + ('/min>=max' if minsub >= maxsub else ''),
                        nargs + (0 if internal else 1), args, Script(segs, acc, ranges=rng), want, fdim, dim, internal, setdim=metric != 'First')
    fs = lambda k, x, y: add(simpson(k, x, mul(H, add(x, y))), simpson(k, mul(H, add(x, y)), y))
    adaptive(rs, 'AdaptiveSimpson', [], fs, simpson, 6)
    for lev in (1, 2) + ((3,) if thorough else ()):
        adaptive(ra, 'AdaptiveClenshawCurtis', [lev], lambda k, x, y: cc(2 ** (lev + 1) + 1, k, x, y), lambda k, x, y: cc(2 ** lev + 1, k, x, y), 7)
    for r, n in ((rc, 15), (rs, 30), (ra, 30)): c.need(r, n)
    M = Models()
    m2 = lambda n, k: sum((Fraction(w.a[0]) * Fraction(x.a[0]) ** k for x, w in ccrule(n)), Fraction(0))
    c.selftest('the reference rule integrates monomials exactly', all(abs(m2(n, k) - (Fraction(2, k + 1) if k % 2 == 0 else 0)) < Fraction(1, 10 ** 30) for n in (2, 3, 5, 8) for k in range(n)))
    c.selftest('the reference rule is not Gauss', abs(m2(3, 4) - Fraction(2, 5)) > Fraction(1, 100))
    c.assume('rounding is not considered; the configurations enumerated (rules of up to 9 points, up to 3 levels, up to 3 functions; 17 points, 4 levels thorough) stand for all')
    return c
