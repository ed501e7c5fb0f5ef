"""Interpretation of the monotone-component kernels over an uninterpreted basis phi_k, bijector g and quadrature rule."""
from db import DB, REPO, VERIF, CheckError
from formal import A, K, D, E, ONE, ZERO, Models, NoAnswer, Undefined, add, sub, mul, div, neg, f1, fn, sh, integral, undef
from absint import Interp, Obj, Buf, Ptr, View, Violation, Throw, LV, symview, staleview, elem, deref

TUS = [VERIF + '/tool/kern.cpp', REPO + '/src/MultiIndices/FixedMultiIndexSet.cpp', REPO + '/src/ParameterizedFunctionBase.cpp', REPO + '/src/ConditionalMapBase.cpp']
TAU = A('tau')
BASIS_ARR = {('EvaluateAll', 1): (0,), ('EvaluateDerivatives', 1): (1,), ('EvaluateDerivatives', 2): (0, 1), ('EvaluateSecondDerivatives', 3): (0, 1, 2)}
ONE_ = {'Evaluate': 0, 'Derivative': 1, 'SecondDerivative': 2}

def basis(I, short, ob, a, e):
    v = [I.ex(x) for x in a]
    if short in ONE_ and len(v) == 2: return fn('phi%d' % v[0], ONE_[short], I.real(v[1]))
    n = len(v) - 2; ms = BASIS_ARR.get((short, n))
    if ms is None: raise NoAnswer('basis method ' + short)
    for p, m in zip(v, ms):
        for k in range(v[n] + 1): I.set(deref(p, k, I), fn('phi%d' % k, m, I.real(v[n + 1])))
def pos(I, short, ob, a, e):
    if short in ONE_: return fn('g', ONE_[short], I.real(I.ex(a[0])))
    raise NoAnswer('bijector method ' + short)
def quad(I, short, ob, a, e):
    if short == 'SetDim': I.set(LV(ob.f, 'dim'), I.ex(a[0])); return None
    if short == 'WorkspaceSize': return 3 * ob.f['dim'] + 2
    if short == 'Integrate':
        v = [I.ex(x) for x in a]; n = ob.f['dim']
        if len(v) == 5:
            for k in range(3 * n + 2): I.set(deref(v[0], k, I), undef('quadrature workspace'))
            v = v[1:]
        else:    # the quadrature's own workspace, shared by every copy of the rule
            ws = ob.f.setdefault('ws', Buf(3 * n + 2, 'workspace of the quadrature object'))
            for k in range(3 * n + 2): I.set(deref(Ptr(ws), k, I), undef('quadrature workspace'))
        f, lo, hi, res = v
        out = I.newbuf(n, 'integrand output')
        I.invoke(f, [TAU, Ptr(out)])
        for k in range(n):
            b = out.d.get(k)
            I.set(deref(res, k, I), integral(I.real(b), TAU, I.real(lo), I.real(hi)) if b is not None else undef('integral of entry %d' % k))
        return None
    raise NoAnswer('quadrature method ' + short)
OPQ = {'OpaqueBasis': basis, 'OpaquePos': pos, 'OpaqueQuad': quad}

def ints(xs, n):
    b = Buf(len(xs), n); b.d = dict(enumerate(xs)); return View(b, 0, (len(xs),), (1,))
class Case:
    """one multi-index set; dense keeps the zero orders"""
    def __init__(s, dim, ms, dense=False, npts=3, left=True, team=1): s.team = team; s.dim = dim; s.ms = ms; s.dense = dense; s.npts = npts; s.left = left; s.nc = len(ms)
    def __str__(s): return '%d inputs, %s%s, %d points, %s arrays' % (s.dim, 'uncompressed ' if s.dense else '', ' '.join(''.join(map(str, m)) for m in s.ms), s.npts, 'column-major' if s.left else 'row-major') + (', teams of %d' % s.team if s.team > 1 else '')
    def f(s, x, c, last=0):
        """value of the expansion, or its derivative in the last input"""
        r = ZERO
        for k, m in enumerate(s.ms):
            p = c[k]
            if last and not (m[-1] or s.dense): continue
            for j, o in enumerate(m):
                if o or s.dense: p = mul(p, fn('phi%d' % o, last if j == s.dim - 1 else 0, x[j]))
            r = add(r, p)
        return r
    def T(s, x, c, nug):
        """value of the component"""
        xd = x[-1]
        return add(s.f(x[:-1] + [ZERO], c), integral(mul(xd, add(fn('g', 0, s.f(x[:-1] + [mul(TAU, xd)], c, 1)), nug)), TAU, ZERO, ONE))
    def logdet(s, x, c, nug, cont):
        return f1('log', add(fn('g', 0, s.f(x, c, 1)), nug) if cont else D(s.T(x, c, nug), x[-1]))

def ctors(d, cls, n, sub=None, p0=None):
    r = [g for g in d.methods(cls) if g.d.get('isctor') and len(g.ps) == n and not g.dep and (sub is None or sub in str(g.d.get('clst'))) and (p0 is None or p0 in g.ps[0]['t'])]
    if not r: raise CheckError('constructor of %s with %d arguments not found' % (cls, n))
    return r[0]
def mset(I, d, case):
    cls = 'mpart::FixedMultiIndexSet'
    if case.dense:
        g = ctors(d, cls, 2, None, 'int'); g = next((x for x in d.methods(cls) if x.d.get('isctor') and len(x.ps) == 2 and 'View' in x.ps[1]['t'] and not x.dep), None)
        if g is None: raise CheckError('uncompressed constructor of FixedMultiIndexSet not found')
        args = [case.dim, ints([o for m in case.ms for o in m], 'orders')]
    else:
        st, ds, os = [0], [], []
        for m in case.ms:
            for j, o in enumerate(m):
                if o: ds.append(j); os.append(o)
            st.append(len(ds))
        g = ctors(d, cls, 4); args = [case.dim, ints(st, 'nzStarts'), ints(ds, 'nzDims'), ints(os, 'nzOrders')]
    o = Obj(cls); o.ty = g.d['clst']; I.run_ctor(g, o, args, o.ty); return o
def worker(I, d, case):
    g = next((x for x in d.methods('mpart::MultivariateExpansionWorker') if x.d.get('isctor') and len(x.ps) == 2 and 'FixedMultiIndexSet' in x.ps[0]['t'] and 'Opaque' in str(x.d.get('clst')) and not x.dep), None)
    if g is None: raise CheckError('MultivariateExpansionWorker(FixedMultiIndexSet, basis) not found')
    w = Obj('mpart::MultivariateExpansionWorker'); w.ty = g.d['clst']; I.run_ctor(g, w, [mset(I, d, case), Obj('OpaqueBasis')], w.ty); return w
def component(I, d, case, cont):
    g = ctors(d, 'mpart::MonotoneComponent', 4, 'Opaque')
    q = Obj('OpaqueQuad'); q.f['dim'] = 1
    o = Obj('mpart::MonotoneComponent'); o.ty = g.d['clst']
    I.run_ctor(g, o, [worker(I, d, case), q, cont, A('nug')], o.ty)
    o.f['savedCoeffs'] = symview('c', case.nc); return o
def expansion(I, d, case, nout):
    g = next((x for x in d.methods('mpart::MultivariateExpansion') if x.d.get('isctor') and len(x.ps) == 3 and 'Opaque' in str(x.d.get('clst')) and 'FixedMultiIndexSet' in x.ps[1]['t'] and not x.dep), None)
    if g is None: raise CheckError('MultivariateExpansion(outDim, set, basis) not found')
    o = Obj('mpart::MultivariateExpansion'); o.ty = g.d['clst']; I.run_ctor(g, o, [nout, mset(I, d, case), Obj('OpaqueBasis')], o.ty)
    o.f['savedCoeffs'] = symview('c', case.nc * nout); return o
def method(d, cls, name, np):
    fs = [g for g in d.methods(cls, name) if 'Opaque' in str(g.d.get('clst')) and len(g.ps) == np and not g.dep and g.body is not None]
    return fs[0] if fs else None
CASES = [Case(1, [(0,), (1,), (2,)]), Case(1, [(3,), (1,)], npts=1), Case(2, [(0, 0), (1, 0), (0, 1), (1, 2)]), Case(2, [(1, 0), (2, 0)], npts=2),
         Case(3, [(0, 0, 0), (1, 0, 0), (0, 2, 1), (1, 1, 1), (2, 0, 0)], npts=5, left=False, team=2), Case(2, [(0, 0), (1, 2), (0, 1)], dense=True, npts=2), Case(2, [(0, 0), (1, 1)], npts=0)]
MORE = [Case(3, [(1, 0, 2), (0, 3, 0), (2, 1, 1), (0, 0, 3), (0, 0, 0), (1, 1, 0)], npts=5, team=3), Case(4, [(0, 0, 0, 0), (1, 0, 2, 1), (0, 0, 0, 2), (0, 1, 0, 3), (2, 0, 1, 0)], npts=3),
        Case(3, [(0, 0, 0), (0, 2, 1), (1, 0, 1)], dense=True, npts=3, left=False), Case(1, [(0,)], npts=4), Case(2, [(0, 1), (0, 2), (0, 3), (4, 4)], npts=7, left=False)]
