"""C14: array helpers of LinearAlgebra.h.  Every instantiation of the sum, in-place sum, product, transpose and reduction helpers is
interpreted on arrays of symbolic entries in several layouts and small shapes; the result must be the formal sum, product or reduction."""
import os, itertools
from harness import Check
from db import DB, REPO, VERIF, CheckError
import formal as F
from formal import Models, NoAnswer
from absint import Interp, Obj, LV, View, Buf, Ptr, Throw, Violation, ct
RULE = 'array helpers compute the sum, product, transpose or reduction they stand for'
N = 'mpart::'
class Bad(Exception): pass
def view(name, ext, lay):
    """a view of symbolic entries; strided: rows and columns apart by gaps"""
    st = []; s = 1
    if lay == 'L':
        for x in ext: st.append(s); s *= max(x, 1)
    elif lay == 'R':
        for x in ext[::-1]: st.append(s); s *= max(x, 1)
        st.reverse()
    else:
        for x in ext[::-1]: st.append(2 * s); s = 2 * s * max(x, 1) + 1
        st.reverse()
    b = Buf(s * 2 + 2, name); b.d = {}
    v = View(b, 0, ext, st)
    for ix in itertools.product(*[range(x) for x in ext]): b.d[sum(i * t for i, t in zip(ix, st))] = F.A('%s%s' % (name, '_'.join(map(str, ix))))
    return v
def lays(t):
    t = ct(t)
    return 'S' if 'LayoutStride' in t else 'L' if 'LayoutLeft' in t else 'R'
def rank(t): return 2 if '**' in t else 1 if '*' in t else 0
def check():
    c = Check('C14', RULE); d = DB([os.path.join(VERIF, 'tool', 'linalg.cpp')], max_inst=60, keep_variants=60); thorough = os.environ.get('VERIF_TIER') == 'thorough'
    I = Interp(d, Models(n=2), budget=400000); I.at_throws = True
    at = [None]
    def read(v, *ix): return I.get(LV(v.buf, v.off + sum(i * t for i, t in zip(ix, v.st))))
    def table(v): return {ix: read(v, *ix) for ix in itertools.product(*[range(x) for x in v.ext])}
    def same(got, want, what):
        if tuple(got.ext) != tuple(want['ext']): raise Bad('%s has shape %s, expected %s' % (what, tuple(got.ext), want['ext']))
        for ix in itertools.product(*[range(x) for x in got.ext]):
            x = read(got, *ix); w = want[ix]
            if not isinstance(x, F.E): x = F.K(x)
            if F.unset(x) or not I.M.same(x, w): raise Bad('entry %s of %s is %s, expected %s' % (ix, what, F.sh(x)[:80], F.sh(w)[:80]))
    def val(r):
        r = I.val(r) if isinstance(r, LV) else r
        if not isinstance(r, View): raise NoAnswer('result %r' % (r,))
        return r
    def gemm(I, e, ob, a):
        """the overload on transposable operands, at its word (decided by C02)"""
        if 'TransposeObject' not in (a[1].get('t') or '') and 'TransposeObject' not in str(a[1].get('cls') or ''): return NotImplemented
        al, A, B, be, C = [I.ex(x) for x in a]
        if not (isinstance(A, Obj) and isinstance(B, Obj)): return NotImplemented
        def el(T):
            v = T.f['view']; v = I.val(v) if isinstance(v, LV) else v; tr = bool(T.f['isTransposed'])
            return (v.ext[::-1] if tr else v.ext), (lambda i, j: read(v, j, i) if tr else read(v, i, j))
        (m, k), ea = el(A); (k2, n), eb = el(B)
        if k != k2 or tuple(C.ext) != (m, n): raise Violation('bounds', 'product of %dx%d and %dx%d into %s' % (m, k, k2, n, tuple(C.ext)), I.where_)
        for i in range(m):
            for j in range(n):
                s = F.K(0)
                for l in range(k): s = F.add(s, F.mul(ea(i, l), eb(l, j)))
                o = C.off + i * C.st[0] + j * C.st[1]; old = I.get(LV(C.buf, o))
                be_, al_ = I.real(be), I.real(al)
                I.set(LV(C.buf, o), F.add(F.mul(al_, s), F.K(0) if F.isk(be_) and be_.a[0] == 0 else F.mul(be_, old)))
        return None
    I.hooks['dgemm'] = gemm
    n = {}
    def go(rule, fn, key, cases):
        at[0] = fn; k = 0; loc = '%s:%d (%s)' % (fn.file, fn.line, fn.cq)
        for label, f in cases:
            I.steps = 0; I.own.clear()
            try: f(); k += 1; c.count('cases compared')
            except (Bad, Violation) as x: c.bad(rule, loc, '%s, %s: %s' % (key, label, x), key); return
            except Throw as x: c.bad(rule, loc, '%s, %s: throws (%s)' % (key, label, x), key); return
            except (NoAnswer, F.Undefined) as x: c.skip(rule, loc, '%s, %s: %s' % (key, label, x)); return
        if k: c.ok(rule, loc, '%s: %d cases' % (key, k)); n[rule] = n.get(rule, 0) + 1
    S1 = [(1,), (3,), (4,)] + ([(0,), (7,)] if thorough else [])
    S2 = [(1, 1), (2, 3), (3, 2), (1, 4), (4, 1), (3, 3)] + ([(0, 2), (5, 4)] if thorough else [])
    short = lambda t: ct(t).replace('Kokkos::', '').replace(', HostSpace', '').replace('mpart::', '')
    # -- sums
    r = 'sums add entry by entry'
    def summed(fn, inpl):
        t1, t2 = fn.ps[0]['t'], fn.ps[1]['t']; rk = rank(t1)
        if rk == 0 or rank(t2) != rk: return
        def one(ext):
            x, y = view('x', ext, lays(t1)), view('y', ext, lays(t2)); wx, wy = table(x), table(y)
            want = {ix: F.add(wx[ix], wy[ix]) for ix in wx}; want['ext'] = tuple(ext)
            res = I.call_func(fn, None, [LV([x], 0), LV([y], 0)])
            if fn.name != 'AddInPlace':
                v = val(res); same(v, want, 'the result')
                if inpl and v.buf is not x.buf: raise Bad('the result is not the left operand')
                if not inpl and v.buf in (x.buf, y.buf): raise Bad('the result shares memory with an operand')
            if inpl: same(x, want, 'the left operand')
            for nm, v, w in ((('right operand', y, wy),) if inpl else (('left operand', x, wx), ('right operand', y, wy))):
                w = dict(w); w['ext'] = tuple(ext); same(v, w, 'the ' + nm)
        go(r, fn, '%s(%s, %s)' % (fn.name, short(t1), short(t2)), [(str(e), lambda e=e: one(e)) for e in (S1 if rk == 1 else S2)])
        def mism():
            k = 0
            for e1, e2 in (((2,), (3,)), ((3,), (2,))) if rk == 1 else (((2, 3), (3, 3)), ((2, 3), (2, 2)), ((3, 2), (2, 2))):
                try: I.call_func(fn, None, [LV([view('x', e1, lays(t1))], 0), LV([view('y', e2, lays(t2))], 0)])
                except Throw: continue
                except Violation as x:
                    if 'deep_copy' in str(x): continue
                    raise Bad('%s and %s: %s' % (e1, e2, x))
                raise Bad('%s and %s are added' % (e1, e2))
        go('sums of different shapes are refused', fn, '%s(%s, %s)' % (fn.name, short(t1), short(t2)), [('shapes', mism)])
    for nm, inpl in (('operator+', False), ('operator+=', True), ('AddInPlace', True)):
        for fn in d.find(N + nm):
            if fn.body is not None and not fn.dep and len(fn.ps) == 2: summed(fn, inpl)
    # -- products
    r = 'products multiply the matrices, transposed where asked'
    TO = N + 'TransposeObject'
    def tobj(v, tr):
        o = Obj(TO); o.ty = TO + '<Kokkos::HostSpace>'; o.f.update(isTransposed=tr, view=v); return o
    M3 = [(1, 1, 1), (2, 3, 2), (3, 1, 2), (1, 4, 3), (2, 2, 2)]
    def prod(fn):
        t1, t2 = fn.ps[0]['t'], fn.ps[1]['t']
        q1, q2 = 'TransposeObject' in t1, 'TransposeObject' in t2
        def one(m, k, nn, a, b):
            x = view('x', (k, m) if a else (m, k), 'S' if q1 else lays(t1)); y = view('y', (nn, k) if b else (k, nn), 'S' if q2 else lays(t2))
            wx, wy = table(x), table(y)
            ea = lambda i, j: wx[(j, i)] if a else wx[(i, j)]; eb = lambda i, j: wy[(j, i)] if b else wy[(i, j)]
            want = {'ext': (m, nn)}
            for i in range(m):
                for j in range(nn):
                    s = F.K(0)
                    for l in range(k): s = F.add(s, F.mul(ea(i, l), eb(l, j)))
                    want[(i, j)] = s
            same(val(I.call_func(fn, None, [tobj(x, a) if q1 else x, tobj(y, b) if q2 else y])), want, 'the product')
            for v, w in ((x, wx), (y, wy)): w = dict(w); w['ext'] = tuple(v.ext); same(v, w, 'an operand')
        go(r, fn, 'operator*(%s, %s)' % (short(t1), short(t2)), [('%dx%d times %dx%d%s%s' % (m, k, k, nn, ', left transposed' if a else '', ', right transposed' if b else ''), lambda m=m, k=k, nn=nn, a=a, b=b: one(m, k, nn, a, b))
           for m, k, nn in M3 for a in ((False, True) if q1 else (False,)) for b in ((False, True) if q2 else (False,))])
    for fn in d.find(N + 'operator*'):
        if fn.body is not None and not fn.dep and len(fn.ps) == 2 and all('TransposeObject' in p['t'] or rank(p['t']) == 2 for p in fn.ps): prod(fn)
    for fn in d.find(N + 'dgemm'):
        if fn.body is None or fn.dep or len(fn.ps) != 5 or 'TransposeObject' in fn.ps[1]['t']: continue
        def one(fn, m, k, nn):
            x, y, z = view('x', (m, k), lays(fn.ps[1]['t'])), view('y', (k, nn), lays(fn.ps[2]['t'])), view('z', (m, nn), lays(fn.ps[4]['t']))
            wx, wy, wz = table(x), table(y), table(z); al, be = F.A('alpha'), F.A('beta'); want = {'ext': (m, nn)}
            for i in range(m):
                for j in range(nn):
                    s = F.K(0)
                    for l in range(k): s = F.add(s, F.mul(wx[(i, l)], wy[(l, j)]))
                    want[(i, j)] = F.add(F.mul(al, s), F.mul(be, wz[(i, j)]))
            I.call_func(fn, None, [al, x, y, be, z]); same(z, want, 'the output')
        go(r, fn, 'dgemm(%s, %s)' % (short(fn.ps[1]['t']), short(fn.ps[2]['t'])), [('%dx%d times %dx%d' % (m, k, k, nn), lambda m=m, k=k, nn=nn: one(fn, m, k, nn)) for m, k, nn in M3])
    # -- transpose
    r = 'transposing twice is the identity'
    for fn in d.find(N + 'transpose'):
        if fn.body is None or fn.dep or len(fn.ps) != 1: continue
        q = 'TransposeObject' in fn.ps[0]['t']
        def one(fn, tr):
            v = view('x', (2, 3), 'S' if q else lays(fn.ps[0]['t']))
            o = I.call_func(fn, None, [tobj(v, tr) if q else v]); o = I.val(o) if isinstance(o, LV) else o
            if not isinstance(o, Obj): raise NoAnswer('result %r' % (o,))
            w = o.f['view']; w = I.val(w) if isinstance(w, LV) else w
            if bool(o.f['isTransposed']) == tr: raise Bad('transpose of a%s object is%s transposed' % ((' transposed', '') if tr else ('n untransposed', ' not')))
            if w.buf is not v.buf or tuple(w.ext) != tuple(v.ext) or tuple(w.st) != tuple(v.st): raise Bad('the object refers to another array')
            for nm, k in (('rows', 1), ('cols', 0)):
                g = [m for m in d.methods(TO, nm) if m.body is not None and not m.dep]
                if g:
                    x = I.call_func(g[0], o, [])
                    if x != v.ext[k if not tr else 1 - k]: raise Bad('%s() is %s' % (nm, x))
        go(r, fn, 'transpose(%s)' % short(fn.ps[0]['t']), [('transposed' if tr else 'plain', lambda tr=tr: one(fn, tr)) for tr in ((False, True) if q else (False,))])
    # -- reductions
    r = 'reductions sum the entries or squares along their dimension'
    RD = N + 'ReduceDim'
    import re
    seen = set()
    for fn in d.methods(RD, 'operator()'):
        if fn.body is None or fn.dep: continue
        m = re.search(r'ReduceDim<\(?(?:mpart::ReduceDimMap\)?)?(?:::)?(\w+)[^,]*,[^,]*, *(\d)', fn.d.get('clst', ''))
        if not m: c.count('reducer types not recognised'); continue
        kind, dim = m.group(1), int(m.group(2)); norm = kind in ('norm', '1')
        if (norm, dim) in seen: continue
        seen.add((norm, dim))
        ctor = [g for g in d.methods(RD) if g.d.get('isctor') and g.body is not None and not g.dep and len(g.ps) == 2 and g.d.get('clst') == fn.d.get('clst')]
        mth = lambda nm: [g for g in d.methods(RD, nm) if g.body is not None and not g.dep and g.d.get('clst') == fn.d.get('clst')]
        if not ctor: continue
        def one(ext):
            A = view('a', ext, 'S'); al = F.A('alpha'); o = Obj(RD); o.ty = fn.d['clst']; I.run_ctor(ctor[0], o, [A, al], o.ty)
            keep = ext[1 - dim]
            if I.val(o.f['value_count']) != keep: raise Bad('value_count is %s for %s' % (o.f['value_count'], ext))
            def buf(nm, known):
                b = Buf(keep, nm); b.d = {i: F.A('%s%d' % (nm, i)) for i in range(keep)} if known else {}
                return Ptr(b, 0)
            p, q = buf('p', True), buf('q', True)
            for g in mth('init'): I.call_func(g, o, [p])
            half = ext[dim] // 2
            for g in mth('init'): I.call_func(g, o, [q])
            for k in range(ext[dim]): I.call_func(fn, o, [k, q if k < half else p])
            for g in mth('join'): I.call_func(g, o, [p, q])
            w = table(A)
            for i in range(keep):
                s = F.K(0)
                for k in range(ext[dim]):
                    x = w[(i, k)] if dim == 1 else w[(k, i)]
                    s = F.add(s, F.mul(x, x) if norm else x)
                got = I.get(LV(p.b, i))
                if not I.M.same(got, F.mul(al, s)): raise Bad('entry %d is %s, expected %s' % (i, F.sh(got)[:80], F.sh(F.mul(al, s))[:80]))
        go(r, fn, 'ReduceDim<%s, %d>' % ('norm' if norm else 'sum', dim), [(str(e), lambda e=e: one(e)) for e in S2])
    import vf, p_C02
    vf.reset(); p_C02.dgemm_core(c, DB([REPO + '/src/Utilities/LinearAlgebra.cpp']), 'dgemm on transposable operands computes alpha A B + beta C')
    for k, v in sorted(n.items()): c.count('helpers: ' + k, v)
    c.need('sums add entry by entry', 4); c.need('products multiply the matrices, transposed where asked', 3)
    M = Models(n=2); c.selftest('a sum and a difference are told apart', not M.same(F.add(F.A('x'), F.A('y')), F.sub(F.A('x'), F.A('y'))))
    c.assume('the leaf product on transposable operands is decided on its own (matrix normal form) and taken at its word in its callers; rounding is not considered')
    return c
