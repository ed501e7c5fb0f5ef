"""C20: every accessor of a basis, bijector or sigmoid describes the same function."""
import os, math
from fractions import Fraction
from harness import Check
from db import DB, REPO, VERIF, CheckError
import formal as F
from formal import A, K, D, ONE, ZERO, PI, Models, NoAnswer, Undefined, add, sub, mul, div, neg, f1, fn, sh
from magn import Range
from absint import Interp, Obj, Buf, Ptr, View, Violation, Throw, LV, symview, staleview, elem

RULE = ("Abstract interpretation in the domain of formal expressions: for every order up to the bound each accessor of each basis family is interpreted with the point symbolic; every entry it returns must be identical, "
        "as a formula in the point, to the family's function of that order or its formal first or second derivative (with the same normalisation), nothing else may be written, and no entry left unset. The linearised basis is "
        "interpreted over an uninterpreted inner basis in the three regions; bijectors and sigmoids against their formulas, formal derivatives and inverses; the sigmoid function over uninterpreted sigmoids, coefficients, centers and widths.")

def hermite(kind, k, x):
    y = x if kind == 'He' else mul(K(2), x)
    p0, p1 = ONE, y
    if k == 0: return p0
    for n in range(1, k): p0, p1 = p1, sub(mul(y, p1), mul(K(n if kind == 'He' else 2 * n), p0))
    return p1
def spec(kind, norm, k, x, m=0):
    if kind == 'psi':
        if k == 0: e = ONE
        elif k == 1: e = x
        else:
            n = k - 2
            e = div(mul(f1('exp', mul(K(Fraction(-1, 2)), mul(x, x))), hermite('H', n, x)), f1('sqrt', mul(mul(f1('sqrt', PI), K(2 ** n)), K(math.factorial(n)))))
    else:
        e = hermite(kind, k, x)
        if norm:
            s = f1('sqrt', mul(K(2), PI)) if kind == 'He' else mul(f1('sqrt', PI), K(2 ** k))
            e = div(e, f1('sqrt', mul(s, K(math.factorial(k)))))
    for _ in range(m): e = D(e, x)
    return e

ARRAYS = {('EvaluateAll', 1): (0,), ('EvaluateDerivatives', 1): (1,), ('EvaluateDerivatives', 2): (0, 1), ('EvaluateSecondDerivatives', 3): (0, 1, 2)}
ONE_ = {'Evaluate': 0, 'Derivative': 1, 'SecondDerivative': 2}
NM = ('value', 'derivative', 'second derivative')

def inner(I, short, ob, a, e):
    """uninterpreted inner basis phi_k"""
    v = [I.ex(x) for x in a]
    if short in ONE_: return fn('phi%d' % v[0], ONE_[short], I.real(v[1]))
    n = len(v) - 2; ms = ARRAYS.get((short, n))
    if ms is None: raise NoAnswer('inner basis method ' + short)
    for p, m in zip(v, ms):
        for k in range(v[n] + 1): I.set(LV(p.b, p.o + k), fn('phi%d' % k, m, I.real(v[n + 1])))
def osig(I, short, ob, a, e):
    x = I.real(I.ex(a[0]))
    if short in ('Evaluate', 'Derivative'): return fn('s', 0 if short == 'Evaluate' else 1, x)
    raise NoAnswer(short)
OPQ = {'OpaqueBasis': inner, 'OpaqueSigmoid': osig}

def accessors(c, d, rule, cls, sel, mk, want, M, N, label, opt=()):
    n = 0
    for (name, na), ms in list(ARRAYS.items()) + [((k, 0), (m,)) for k, m in ONE_.items()]:
        fs = [f for f in d.methods(cls, name) if sel(f) and not f.dep and f.body is not None and len(f.ps) == (na + 2 if na else 2)]
        if not fs:
            if (name, na) not in opt: c.skip(rule, cls, '%s with %d arrays not found' % (name, na))
            continue
        f = fs[0]; w = '%s:%d (%s)' % (f.file, f.line, f.cq); n += 1
        bad = {}; err = None; done = 0
        for order in range(N + 1):
            I = Interp(d, M, opaque=OPQ); o = mk(I, f)
            try:
                if na:
                    bs = [Buf(order + 1, 'argument %d' % (i + 1)) for i in range(na)]
                    I.call_func(f, o, [Ptr(b) for b in bs] + [order, A('x')])
                    for i, m in enumerate(ms):
                        for k in range(order + 1):
                            g = bs[i].d.get(k); done += 1
                            if g is None: bad.setdefault(i, 'entry %d of %s is not set (maximum order %d)' % (k, NM[m], order))
                            elif not M.same(I.real(g), want(k, m)): bad.setdefault(i, '%s of order %d (maximum order %d) is %s' % (NM[m], k, order, sh(I.real(g))[:160]))
                else:
                    g = I.real(I.call_func(f, o, [order, A('x')])); done += 1
                    if not M.same(g, want(order, ms[0])): bad.setdefault(0, '%s of order %d is %s' % (NM[ms[0]], order, sh(g)[:160]))
            except Violation as x: bad.setdefault(0, 'maximum order %d: %s' % (order, x))
            except Throw as x: bad.setdefault(0, 'order %d: throws (%s)' % (order, x))
            except (NoAnswer, Undefined) as x: err = err or 'order %d: %s' % (order, x)
        c.count('accessor orders compared', done)
        for i, m in enumerate(ms):
            key = '%s/%s/%d/%s' % (label, name, na, NM[m])
            if i in bad: c.bad(rule, w, '%s %s: %s' % (label, name, bad[i]), key)
            elif err: c.skip(rule, w, err)
            else: c.ok(rule, w, '%s %s: %s of orders 0..%d' % (label, name, NM[m], N))
    return n

def check():
    c = Check('C20', RULE)
    N = 16 if os.environ.get('VERIF_TIER') != 'thorough' else 30
    d = DB([VERIF + '/tool/basis.cpp', REPO + '/src/ParameterizedFunctionBase.cpp'], max_inst=9, keep_variants=9)
    x = A('x'); M = Models({'x': (-1.7, 2.1)}); Mn = Models({'x': (-2.9, -0.3)})
    # plain bases
    r = 'basis accessors give the family\'s functions and their derivatives'
    for cls, mix, kind in (('mpart::OrthogonalPolynomial', 'ProbabilistHermiteMixer', 'He'), ('mpart::OrthogonalPolynomial', 'PhysicistHermiteMixer', 'H'), ('mpart::HermiteFunction', None, 'psi')):
        for norm in ((False, True) if mix else (False,)):
            def mk(I, f):
                if not mix: return I.construct(f.d['clst'], None, [], None)
                k = [g for g in d.methods(cls) if g.d.get('isctor') and len(g.ps) == 1 and mix in (g.d.get('clst') or '') and not g.dep and not g.d.get('cp') and not g.d.get('mv')]
                o = Obj(cls); o.ty = f.d['clst']
                if k: I.run_ctor(k[0], o, [norm], f.d['clst'])
                else: raise CheckError('constructor of %s not found' % cls)
                return o
            label = {'He': 'ProbabilistHermite', 'H': 'PhysicistHermite', 'psi': 'HermiteFunction'}[kind] + (' normalised' if norm else '')
            accessors(c, d, r, cls, lambda f: not mix or mix in (f.d.get('clst') or ''), mk, lambda k, m: spec(kind, norm, k, x, m), M, N, label, opt=[('EvaluateDerivatives', 1)])
    c.need(r, 30)
    # linearised basis
    r = 'linearised basis is the inner basis between the bounds and its tangent outside'
    cls = 'mpart::LinearizedBasis'
    for reg, rng in (('below', {'x': (-5, -3.1), 'lb': (-3, -2), 'ub': (1, 2)}), ('inside', {'x': (-1.9, 0.9), 'lb': (-3, -2), 'ub': (1, 2)}), ('above', {'x': (2.1, 5), 'lb': (-3, -2), 'ub': (1, 2)})):
        Mr = Models(rng); lb, ub = A('lb'), A('ub')
        p = {'below': lb, 'inside': x, 'above': ub}[reg]
        def want(k, m, reg=reg, p=p):
            ph = lambda j: fn('phi%d' % k, j, p)
            if reg == 'inside': return ph(m)
            return add(ph(0), mul(ph(1), sub(x, p))) if m == 0 else ph(1) if m == 1 else ZERO
        def mk(I, f):
            o = Obj(cls); o.ty = f.d['clst']
            k = [g for g in d.methods(cls) if g.d.get('isctor') and len(g.ps) == 3 and 'OpaqueBasis' in (g.d.get('clst') or '') and not g.dep]
            if not k: raise CheckError('LinearizedBasis(basis, lb, ub) not found')
            ib = Obj('OpaqueBasis'); I.run_ctor(k[0], o, [ib, lb, ub], f.d['clst']); return o
        accessors(c, d, r, cls, lambda f: 'OpaqueBasis' in (f.d.get('clst') or ''), mk, want, Mr, 5, 'LinearizedBasis ' + reg, opt=[('EvaluateDerivatives', 1)])
    c.need(r, 20)
    # bijectors and sigmoids
    r = 'bijectors and sigmoids have their formula, its derivatives and its inverse'
    def sp(z): return f1('log', add(ONE, f1('exp', z)))
    def lg(z): return div(ONE, add(ONE, f1('exp', neg(z))))
    for cls, g, rng in (('mpart::SoftPlus', sp, None), ('mpart::Exp', lambda z: f1('exp', z), None), ('mpart::Logistic', lg, None)):
        y = A('y')
        for name, want in (('Evaluate', g(x)), ('Derivative', D(g(x), x)), ('SecondDerivative', D(D(g(x), x), x)), ('Inverse', x)):
            fs = [f for f in d.methods(cls, name) if f.body is not None]
            if not fs:
                if not (cls == 'mpart::Logistic' and name == 'SecondDerivative'): c.skip(r, cls, name + ' not found')
                continue
            f = fs[0]; w = '%s:%d (%s)' % (f.file, f.line, f.cq); bad = None; err = None
            for Mx in (Models({'x': (0.2, 2.1)}), Mn, Models({'x': (3, 9)})):
                try:
                    I = Interp(d, Mx, opaque=OPQ)
                    v = I.real(I.call_func(f, None, [g(x) if name == 'Inverse' else x]))
                    if not Mx.same(v, want): bad = bad or sh(v)
                except (Violation, Throw) as e: bad = bad or str(e)
                except (NoAnswer, Undefined) as e: err = str(e)
            if bad: c.bad(r, w, '%s::%s%s is %s' % (cls, name, ' of Evaluate' if name == 'Inverse' else '', bad[:160]), cls + '/' + name)
            elif err: c.skip(r, w, err)
            else: c.ok(r, w, '%s::%s' % (cls, name))
    c.need(r, 8)
    # magnitudes: no intermediate overflow
    r = 'bijectors and sigmoids stay finite for large arguments'
    BIG, MID, NB, NM_ = (720.0, 1e300), (40.0, 690.0), (-1e300, -720.0), (-690.0, -40.0)
    for cls, name, regs in (('mpart::SoftPlus', 'Evaluate', (BIG, MID, NB, NM_)), ('mpart::SoftPlus', 'Derivative', (BIG, MID, NB, NM_)), ('mpart::SoftPlus', 'SecondDerivative', (BIG, MID, NB, NM_)), ('mpart::SoftPlus', 'Inverse', (BIG, MID)),
                            ('mpart::Exp', 'Evaluate', (NB, NM_)), ('mpart::Exp', 'Derivative', (NB, NM_)), ('mpart::Exp', 'SecondDerivative', (NB, NM_)), ('mpart::Exp', 'Inverse', (BIG, MID)),
                            ('mpart::Logistic', 'Evaluate', (BIG, MID, NB, NM_)), ('mpart::Logistic', 'Derivative', (BIG, MID, NB, NM_))):
        fs = [f for f in d.methods(cls, name) if f.body is not None]
        if not fs: continue
        f = fs[0]; w = '%s:%d (%s)' % (f.file, f.line, f.cq)
        for rg in regs:
            R = Range({'x': rg})
            try:
                lo, hi, nan = R.ev(Interp(d, R, opaque=OPQ).real(Interp(d, R, opaque=OPQ).call_func(f, None, [x])))
            except (NoAnswer, Undefined, Violation, Throw) as e: c.count('ranges not settled', 1); continue
            c.ob(not nan and abs(lo) <= 1.7e308 and abs(hi) <= 1.7e308, r, w, '%s::%s for arguments in [%g, %g] lies in [%g, %g]%s' % (cls, name, rg[0], rg[1], lo, hi, ' or is not a number' if nan else ''), '%s/%s/%g' % (cls, name, rg[0]))
    # sigmoid function
    r = 'Sigmoid1d sums its weighted sigmoids and differentiates the sum'
    cls = 'mpart::Sigmoid1d'
    for nm in ('EvaluateImpl', 'GradientImpl', 'CoeffGradImpl'):
        fs = [f for f in d.methods(cls, nm) if 'OpaqueSigmoid' in (f.d.get('clst') or '') and not f.dep]
        if not fs: c.skip(r, cls, nm + ' not found'); continue
        f = fs[0]; w = '%s:%d (%s)' % (f.file, f.line, f.cq)
        try:
            I = Interp(d, M, opaque=OPQ); o = Obj(cls); o.ty = f.d['clst']
            nc, npt = 3, 2
            k = [g for g in d.methods(cls) if g.d.get('isctor') and len(g.ps) == 2 and 'OpaqueSigmoid' in (g.d.get('clst') or '') and not g.dep]
            I.run_ctor(k[0], o, [symview('m', nc), symview('wd', nc)], f.d['clst'])
            o.f['savedCoeffs'] = symview('c', nc); pts = symview('x', 1, npt); sens = symview('s', 1, npt)
            out = staleview('out', 1 if nm != 'CoeffGradImpl' else nc, npt)
            I.call_func(f, o, ([pts] if nm == 'EvaluateImpl' else [pts, sens]) + [out])
            bad = None; swapped = nm != 'EvaluateImpl'
            for j in range(npt):
                xj = A('x[0,%d]' % j)
                val = ZERO
                for q in range(nc): val = add(val, mul(A('c[%d]' % q), fn('s', 0, mul(A('wd[%d]' % q), sub(xj, A('m[%d]' % q))))))
                for i in range(out.ext[0]):
                    want = val if nm == 'EvaluateImpl' else mul(A('s[0,%d]' % j), D(val, xj if nm == 'GradientImpl' else A('c[%d]' % i)))
                    g = elem(out, i, j)
                    if swapped:     # the formula with the two arguments exchanged
                        xs = A('s[0,%d]' % j); sw = ZERO
                        for q in range(nc): sw = add(sw, mul(A('c[%d]' % q), fn('s', 0, mul(A('wd[%d]' % q), sub(xs, A('m[%d]' % q))))))
                        swapped = g is not None and M.same(g, mul(xj, D(sw, xs if nm == 'GradientImpl' else A('c[%d]' % i))))
                    if g is None or not M.same(g, want): bad = bad or 'out(%d,%d) = %s, required %s' % (i, j, 'unset' if g is None else sh(g)[:90], sh(want)[:90])
            c.ob(not bad, r, w, '%s: %s' % (nm, bad or 'as required'), nm + (' with points and sensitivities exchanged' if bad and swapped else ''))
        except (Violation, Throw) as e: c.bad(r, w, '%s: %s' % (nm, e), nm)
        except (NoAnswer, Undefined) as e: c.skip(r, w, str(e))
    # self-tests: the domain refutes a wrong formula and accepts a rearranged one
    c.selftest('identity of rearranged formulas', M.same(mul(x, add(x, ONE)), add(mul(x, x), x)) and M.same(sp(x), add(x, f1('log', add(ONE, f1('exp', neg(x)))))))
    c.selftest('difference of formulas', not M.same(spec('He', True, 13, x), mul(spec('He', True, 13, x), K('1.0000000001'))) and not M.same(spec('psi', False, 4, x, 2), spec('psi', False, 4, x, 1)))
    c.assume('orders above %d repeat the same loops' % N); c.assume('rounding is not considered; exp, log, sqrt, pow and tanh are the exact functions')
    return c
