"""C10: every operation of a monotone component describes the same parameterised map."""
import os
from harness import Check
from kern import *
RULE = ("Abstract interpretation of the component and expansion kernels in the domain of formal expressions, over an uninterpreted basis phi_k, bijector g and quadrature rule (a linear functional Int of the integrand): for each enumerated multi-index set every entry "
        "of every output must be identical, as a formula in the point, coefficients, sensitivities and nugget, to the one required by T(x) = f(x_1..x_{d-1}, 0) + Int[x_d (g(d_d f(.., t x_d)) + nugget)] or its formal derivatives; stale output contents must not appear, and inputs stay as they were.")
CLS = 'mpart::MonotoneComponent'

def compare(c, rule, g, case, M, run, entries, label, key, nochange=()):
    """run(I) executes; entries() yields (name, got, want)"""
    w = '%s:%d (%s)' % (g.file, g.line, g.cq)
    before = [dict(v.buf.d) for v in nochange]
    try:
        run()
        bad = None; n = 0
        for nm, got, want in entries():
            n += 1
            if got is None: bad = bad or '%s is not set' % nm
            elif isinstance(got, E) and got.op == 'nan' or isinstance(want, E) and want.op == 'nan': bad = bad if got is want else bad or '%s is %s, required %s' % (nm, sh(got)[:100], sh(want)[:100])
            elif not M.same(got, want): bad = bad or '%s is %s, required %s' % (nm, sh(got)[:170], sh(want)[:170])
        for v, b in zip(nochange, before):
            if v.buf.d != b: bad = bad or 'the contents of %s are changed' % v.buf.name
        c.count('entries compared', n)
        c.ob(not bad, rule, w, '%s with %s: %s' % (label, case, bad or '%d entries as required' % n), key)
    except Violation as x: c.bad(rule, w, '%s with %s: %s' % (label, case, x), key)
    except Throw as x: c.bad(rule, w, '%s with %s: throws (%s)' % (label, case, x), key)
    except (NoAnswer, Undefined) as x: c.skip(rule, w, '%s with %s: %s' % (label, case, x))

BAD = (Violation, Throw, NoAnswer, Undefined)
def built(c, rule, cls, x):
    if isinstance(x, (Violation, Throw)): c.bad(rule, cls, 'construction: %s' % x, 'construction')
    else: c.skip(rule, cls, 'construction: %s' % x)
def mats(case, rows, name='out'): return staleview(name, rows, case.npts, left=case.left)

def check():
    c = Check('C10', RULE)
    d = DB(TUS, max_inst=9, keep_variants=9)
    cases = CASES + (MORE if os.environ.get('VERIF_TIER') == 'thorough' else [])
    nug = A('nug')
    rv, rg, rl, ri, re_, rk = ('component value', 'component gradients', 'component log determinant and its gradients', 'component inverse', 'expansion value and gradients', 'component kernels with given coefficients')
    for case in cases:
        for cont in (True, False):
            mode = 'continuous' if cont else 'discrete'
            cs = [A('c[%d]' % k) for k in range(case.nc)]
            X = lambda j: [A('x[%d,%d]' % (i, j)) for i in range(case.dim)]
            def fresh(M):
                I = Interp(d, M, opaque=OPQ); I.team = case.team; o = component(I, d, case, cont)
                return I, o, symview('x', case.dim, case.npts, left=case.left), symview('s', 1, case.npts, left=case.left)
            P = range(case.npts)
            def one(rule, name, rows, want, sens=False, only=None, Mx=None):
                g = method(d, CLS, name, 2 + sens)
                if g is None: c.skip(rule, CLS, name + ' not found'); return
                M = Mx or Models()
                try: I, o, pts, sn = fresh(M)
                except BAD as x: built(c, rule, CLS, x); return
                out = mats(case, rows) if rows else staleview('out', case.npts)
                compare(c, rule, g, case, M, lambda: I.call_func(g, o, [pts] + ([sn] if sens else []) + [out]),
                        lambda: ((('out(%d)' % j if not rows else 'out(%d,%d)' % (i, j)), elem(out, j) if not rows else elem(out, i, j), want(i, j)) for j in P for i in range(rows or 1)),
                        '%s (%s)' % (name, mode), name + '/' + mode + ('/nonpositive' if Mx else ''), [pts, sn, o.f['savedCoeffs']])
            S = lambda j: A('s[0,%d]' % j)
            one(rv, 'EvaluateImpl', 1, lambda i, j: case.T(X(j), cs, nug))
            one(rg, 'GradientImpl', case.dim, lambda i, j: mul(S(j), D(case.T(X(j), cs, nug), X(j)[i])), True)
            one(rg, 'CoeffGradImpl', case.nc, lambda i, j: mul(S(j), D(case.T(X(j), cs, nug), cs[i])), True)
            one(rl, 'LogDeterminantImpl', 0, lambda i, j: case.logdet(X(j), cs, nug, cont))
            one(rl, 'LogDeterminantCoeffGradImpl', case.nc, lambda i, j: D(case.logdet(X(j), cs, nug, cont), cs[i]))
            if cont:
                one(rl, 'LogDeterminantInputGradImpl', case.dim, lambda i, j: D(case.logdet(X(j), cs, nug, cont), X(j)[i]))
                if case.npts and case.dim < 3:
                    Mn = Models()
                    for m in Mn.ms: m.neg.add('g'); m.ranges = {'nug': (0.0001, 0.0002), 'c[0]': (2, 3)}
                    one(rl, 'LogDeterminantImpl', 0, lambda i, j: neg(E('inf')), Mx=Mn)
            # the same kernels called with coefficients of their own, and their second outputs
            b = [A('b[%d]' % k) for k in range(case.nc)]
            def direct(name, outs, np):
                g = method(d, CLS, name, np)
                if g is None: c.skip(rk, CLS, name + ' not found'); return
                M = Models()
                try: I, o, pts, sn = fresh(M)
                except BAD as x: built(c, rk, CLS, x); return
                bv = symview('b', case.nc); vs = [mats(case, r, 'out%d' % k) if r else staleview('out%d' % k, case.npts) for k, (r, w) in enumerate(outs)]
                compare(c, rk, g, case, M, lambda: I.call_func(g, o, [pts, bv] + vs),
                        lambda: (('output %d, entry (%d,%d)' % (k, i, j), elem(v, i, j) if r else elem(v, j), w(i, j)) for k, (v, (r, w)) in enumerate(zip(vs, outs)) for j in P for i in range(r or 1)),
                        name, 'kernel ' + name, [pts, bv, o.f['savedCoeffs']])
            Tb = lambda j: case.T(X(j), b, nug)
            if cont:
                direct('ContinuousDerivative', [(0, lambda i, j: add(fn('g', 0, case.f(X(j), b, 1)), nug))], 3)
                direct('ContinuousMixedJacobian', [(case.nc, lambda i, j: D(fn('g', 0, case.f(X(j), b, 1)), b[i]))], 3)
                direct('ContinuousMixedInputJacobian', [(case.dim, lambda i, j: D(fn('g', 0, case.f(X(j), b, 1)), X(j)[i]))], 3)
            else:
                direct('DiscreteDerivative', [(0, lambda i, j: Tb(j)), (0, lambda i, j: D(Tb(j), X(j)[-1]))], 4)
                direct('DiscreteMixedJacobian', [(case.nc, lambda i, j: D(D(Tb(j), X(j)[-1]), b[i]))], 3)
                direct('CoeffJacobian', [(0, lambda i, j: Tb(j)), (case.nc, lambda i, j: D(Tb(j), b[i]))], 4)
                direct('InputJacobian', [(0, lambda i, j: Tb(j)), (case.dim, lambda i, j: D(Tb(j), X(j)[i]))], 4)
            # inverse: the function handed to the root finder
            g = method(d, CLS, 'InverseImpl', 3)
            if g is None: c.skip(ri, CLS, 'InverseImpl not found')
            else:
                for rows, nan in ((case.dim - 1, False), (case.dim, False), (case.dim - 1, True)):
                    if nan and (case.dim < 2 or not case.npts) or not case.npts and rows < case.dim: continue
                    M = Models(); log = []
                    try: I, o, pts, sn = fresh(M)
                    except BAD as x: built(c, ri, CLS, x); continue
                    def root(I, e, ob, a):
                        v = [I.ex(x) for x in a]
                        if len(v) != 6: return NotImplemented
                        y = A('xi%d' % len(log)); r = I.invoke(v[1], [y]); log.append((v[0], r, v[2], v[3], v[4])); return fn('root', 0, I.real(v[0]))
                    I.hooks['mpart::RootFinding::InverseSingleBracket'] = root
                    x1 = symview('x', rows, case.npts, left=case.left); r = symview('s', 1, case.npts, left=case.left); out = mats(case, 1)
                    if nan: I.fail_on = lambda short, v: short == 'isnan' and v is A('x[0,0]')
                    def entries():
                        n = 0
                        for j in P:
                            if nan and j == 0: yield 'out(0,0) for a not-a-number input', elem(out, 0, 0), E('nan'); continue
                            if n >= len(log): raise NoAnswer('root finder not called for point %d' % j)
                            y, val, x0, xt, yt = log[n]; x = A('xi%d' % n); n += 1
                            yield 'target of point %d' % j, y, A('s[0,%d]' % j)
                            yield 'function solved for point %d' % j, val, case.T(X(j)[:-1] + [x], cs, nug)
                            yield 'out(0,%d)' % j, elem(out, 0, j), fn('root', 0, A('s[0,%d]' % j))
                            for nm, t in (('input tolerance', xt), ('output tolerance', yt)):
                                if not M.decide('>', I.real(t), ZERO) or not M.decide('<', I.real(t), K('0.001')): yield nm, I.real(t), K('0.000001')
                    compare(c, ri, g, case, M, lambda: I.call_func(g, o, [x1, r, out]), entries, 'InverseImpl' + (' with a not-a-number input' if nan else ''), 'InverseImpl', [x1, r, o.f['savedCoeffs']])
        # expansion
        for nout in (1, 2):
            def one(name, rows, want, sens):
                g = method(d, 'mpart::MultivariateExpansion', name, 2 + sens)
                if g is None: c.skip(re_, 'mpart::MultivariateExpansion', name + ' not found'); return
                M = Models(); I = Interp(d, M, opaque=OPQ); I.team = case.team
                try: o = expansion(I, d, case, nout)
                except BAD as x: built(c, re_, 'mpart::MultivariateExpansion', x); return
                pts = symview('x', case.dim, case.npts, left=case.left); sn = symview('s', nout, case.npts, left=case.left); out = mats(case, rows)
                compare(c, re_, g, case, M, lambda: I.call_func(g, o, [pts] + ([sn] if sens else []) + [out]), lambda: (('out(%d,%d)' % (i, j), elem(out, i, j), want(i, j)) for j in P for i in range(rows)), '%s of %d outputs' % (name, nout), 'expansion ' + name, [pts, sn, o.f['savedCoeffs']])
            n = case.nc; ca = [A('c[%d]' % k) for k in range(n * nout)]
            F_ = lambda k, j: case.f(X(j), ca[k * n:(k + 1) * n])
            def tot(j):
                r = ZERO
                for k in range(nout): r = add(r, mul(A('s[%d,%d]' % (k, j)), F_(k, j)))
                return r
            one('EvaluateImpl', nout, lambda i, j: F_(i, j), False)
            one('GradientImpl', case.dim, lambda i, j: D(tot(j), X(j)[i]), True)
            one('CoeffGradImpl', n * nout, lambda i, j: D(tot(j), ca[i]), True)
    for r, n in ((rv, 8), (rg, 16), (rl, 20), (ri, 10), (re_, 20), (rk, 20)): c.need(r, n)
    t = CASES[2]; x = [A('x0'), A('x1')]; cs = [A('c[%d]' % k) for k in range(4)]; M = Models()
    c.selftest('derivative of the value in the last input', M.same(D(t.T(x, cs, ZERO), x[1]), D(t.T(x, cs, ZERO), x[1])) and not M.same(D(t.T(x, cs, A('nug')), x[1]), D(t.T(x, cs, ZERO), x[1])))
    c.selftest('derivative in a coefficient', not M.same(D(t.T(x, cs, ZERO), cs[3]), D(t.T(x, cs, ZERO), cs[2])))
    c.assume('the quadrature rule is linear in the integrand and applies the same nodes to every component; the root finder solves the function it is given (not decided here)')
    c.assume('rounding is not considered; the multi-index sets enumerated stand for all sets (the kernels loop over terms and their nonzero orders)')
    return c
