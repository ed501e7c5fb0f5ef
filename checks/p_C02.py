"""C02: affine and identity maps compute the operations of x -> A x + b."""
import os
from harness import Check
from db import DB, REPO, VERIF, CheckError
from vf import VF, T, Term, INT, show, subterms
from matnf import Mat, L, lin, lshow, lmul, ladd, lmap, tr, Unknown

RULE = ("Matrix-level abstract interpretation of every operation of AffineMap, AffineFunction and IdentityMap and of the linear algebra wrappers, for every case of {A square / wide / absent} x "
        "{b present / absent} x {layout of the output}: the content of the output must equal the required matrix expression on every element, whatever it held before; the constructors must copy A and b, "
        "factorise the trailing square block and store log|det| of it.")

def sy(n): return L({n: 1})
M, K, P = sy('m'), sy('k'), sy('p')
ZERO = L()

def stridefact(one):
    def f(mat, t):
        if t.op in ('==', '!=') and len(t.a) == 2:
            for x, y in ((t.a[0], t.a[1]), (t.a[1], t.a[0])):
                if x is INT(1) and y.op == 'call' and y.a[0].split('::')[-1] in ('stride_0', 'stride', 'stride_1'):
                    q = y.a[0].split('::')[-1]; k = [z.a[0] for z in y.a[2:] if isinstance(z, Term) and z.op == 'int']
                    first = q == 'stride_0' or q == 'stride' and k == [0]
                    r = one if first else not one
                    return r if t.op == '==' else not r
        return None
    return f

def to(mat, t):
    """matrix content of a TransposeObject or view argument"""
    if t.op == 'copy': return to(mat, t.a[0])
    if t.op == 'obj' and t.a[0].endswith('TransposeObject'):
        xs = [x for x in t.a[1:] if isinstance(x, Term)]
        c = mat.content(xs[0]); f = mat.truth(xs[1]) if len(xs) > 1 else False
        if f is None: raise Unknown('transpose flag')
        return lmap(c, tr) if f else c
    if t.op == 'ite':
        c = mat.truth(t.a[0])
        if c is None: raise Unknown('condition')
        return to(mat, t.a[1] if c else t.a[2])
    return mat.content(t)

def h_dgemm(mat, e):
    a = e.args
    if len(a) != 5: raise Unknown('dgemm arguments')
    al, be = mat.ex(a[0]), mat.ex(a[3])
    x = lmul(al, lmul(to(mat, a[1]), to(mat, a[2])))
    if be: x = ladd(x, lmul(be, mat.content(a[4])))
    mat.put(a[4], x)
def h_solve(mat, e):
    ob = mat.resolve(e.obj); n = mat.name(ob) or show(ob)[:30]
    x = mat.content(e.args[0])
    mat.put(e.args[0], lin((1, ('solve', n, frozenset(x.items())))))

def solved(lu, x): return lin((1, ('solve', lu, frozenset(x.items()))))

def content_ob(c, v, f, mat, out, want, rule, case, key, again=None):
    """want: list of (ranges, combination)"""
    w = f.loc()
    try:
        mat.run(v.events)
        got = []
        good = True
        for rs, x in want:
            b, full = mat.locate(out)
            g = mat.block(b, rs if rs is not None else full)
            got.append(lshow(g)); good = good and g == x
        c.ob(good, rule, w, '%s [%s]: output = %s, required %s' % (f.cq, case, '; '.join(got), '; '.join(lshow(x) for _, x in want)), key)
    except Unknown as ex:
        if again is not None:
            bad = again()
            if bad: c.bad(rule, w, '%s [%s, %s]' % (f.cq, case, bad), key); return
        c.skip(rule, w, '%s [%s]: %s' % (f.cq, case, ex))

def param(v, f, i):
    return T('param', f.ps[i]['n'])

def pterm(v, f, i):
    nm = f.ps[i]['n']
    for e in v.events:
        for x in subterms_of(e):
            if x.op == 'param' and nm in x.a: return x
    return None
def subterms_of(e):
    for k, x in e.d.items():
        if isinstance(x, Term): yield from subterms(x)
        elif isinstance(x, list):
            for y in x:
                if isinstance(y, Term): yield from subterms(y)

CASES = []
for A in ('square', 'wide', 'none'):
    for b in (True, False):
        if A == 'none' and not b: continue
        CASES.append((A, b))

def run_op(c, d, cls, op, outix, spec, tu, rule='operation matches A x + b'):
    fs = d.find('mpart::%s::%s' % (cls, op))
    if not fs: return
    f = fs[0]
    v = VF(d, noinline=lambda g: g.name in ('solveInPlace', 'solve', 'compute', 'determinant') or g.name == 'dgemm' and len(g.ps) == 5 and 'TransposeObject' in g.ps[1]['t'])
    v.run(f); c.count('operations')
    names = [p['n'] for p in f.ps]
    for A, b in (CASES if cls.startswith('Affine') else [('square', False), ('wide', False)]):
        n = M + K if A == 'wide' else M
        for one in (True, False):
            sh = {'A_': (M, n) if A != 'none' else (ZERO, ZERO), 'b_': (M,) if b else (ZERO,)}
            want, shapes = spec(A, b, n, names)
            sh.update(shapes)
            mat = Mat(v, sh, {'inputDim': n, 'outputDim': M}, stridefact(one), outs=(names[outix],))
            mat.hooks = {'!dgemm': h_dgemm, '!solveInPlace': h_solve}
            out = T('param', names[outix])
            out = next((x for e in v.events for x in subterms_of(e) if x.op == 'param' and names[outix] in x.a), out)
            case = 'A %s, b %s, %s output' % (A, 'set' if b else 'absent', 'column-major' if one else 'other')
            def again():
                """the same case at concrete extents, where every partial write can be split"""
                for m, k, p in ((2, 5, 3), (5, 2, 3), (3, 3, 4)):
                    sub = lambda x: L({'': x.c.get('', 0) + x.c.get('m', 0) * m + x.c.get('k', 0) * k + x.c.get('p', 0) * p})
                    subs = lambda at: tuple(subs(y) for y in at) if isinstance(at, tuple) else frozenset((subs(z), q) for z, q in at) if isinstance(at, frozenset) else sub(at) if isinstance(at, L) else at
                    mt = Mat(v, {q: tuple(sub(y) for y in z) for q, z in sh.items()}, {'inputDim': sub(n), 'outputDim': sub(M)}, stridefact(one), outs=(names[outix],))
                    mt.hooks = mat.hooks
                    try:
                        mt.run(v.events)
                        for rs, x in want:
                            x = {(s_, subs(at)): q for (s_, at), q in x.items()}
                            b_, full = mt.locate(out); rs = [(sub(lo), sub(hi)) for lo, hi in rs] if rs is not None else full
                            for q, g in mt.pieces(b_, rs):
                                w = mt.restrict(x, q, rs)
                                if g != w: return '%d rows, %d leading inputs, %d points: rows %s..%s = %s, required %s' % (m, k, p, q[0][0], q[0][1], lshow(g), lshow(w))
                    except Unknown: pass
                return None
            content_ob(c, v, f, mat, out, want, rule, case, '%s::%s/%s/%s/%s' % (cls, op, A, b, one), again)
            if A == 'none' or cls == 'IdentityMap': break

IN = lambda n: lin((1, ('in', n)))
FA = lin((1, ('fld', 'A_')))
BB = lin((1, ('bc', ('fld', 'b_'))))

def affine(c, d, cls):
    def ev(A, b, n, nm):
        x = IN(nm[0]) if A == 'none' else lmul(FA, IN(nm[0]))
        return [(None, ladd(x, BB) if b else x)], {nm[0]: (n, P), nm[1]: (M, P)}
    run_op(c, d, cls, 'EvaluateImpl', 1, ev, None)
    def gr(A, b, n, nm):
        x = IN(nm[1]) if A == 'none' else lmul(lmap(FA, tr), IN(nm[1]))
        return [(None, x)], {nm[0]: (n, P), nm[1]: (M, P), nm[2]: (n, P)}
    run_op(c, d, cls, 'GradientImpl', 2, gr, None)
    if cls == 'AffineFunction': return
    def ld(A, b, n, nm):
        return [(None, lin((('logDet_',), 'one')))], {nm[0]: (n, P), nm[1]: (P,)}
    run_op(c, d, cls, 'LogDeterminantImpl', 1, ld, None)
    def lig(A, b, n, nm): return [(None, {})], {nm[0]: (n, P), nm[1]: (n, P)}
    run_op(c, d, cls, 'LogDeterminantInputGradImpl', 1, lig, None)
    def inv(A, b, n, nm):
        x = IN(nm[1])
        if b: x = ladd(x, BB, -1)
        if A == 'wide':
            sl = lambda at, q: lin((1, ('slice', at, q)))
            x = ladd(x, lmul(sl(('fld', 'A_'), (None, (ZERO, K))), IN(nm[0])), -1)
        if A != 'none': x = solved('luSolver_', x)
        return [(None, x)], {nm[0]: (K if A == 'wide' else ZERO, P), nm[1]: (M, P), nm[2]: (M, P)}
    run_op(c, d, cls, 'InverseImpl', 2, inv, None)

def identity(c, d):
    cls = 'IdentityMap'
    def tail(nm, A, n): return IN(nm) if A == 'square' else lin((1, ('slice', ('in', nm), ((K, M + K), None))))
    def ev(A, b, n, nm):
        x = IN(nm[0]) if A == 'square' else lin((1, ('slice', ('in', nm[0]), ((K, M + K), None))))
        return [(None, x)], {nm[0]: (n, P), nm[1]: (M, P)}
    run_op(c, d, cls, 'EvaluateImpl', 1, ev, None)
    def inv(A, b, n, nm): return [(None, IN(nm[1]))], {nm[0]: (n, P), nm[1]: (M, P), nm[2]: (M, P)}
    run_op(c, d, cls, 'InverseImpl', 2, inv, None)
    def ld(A, b, n, nm): return [(None, {})], {nm[0]: (n, P), nm[1]: (P,)}
    run_op(c, d, cls, 'LogDeterminantImpl', 1, ld, None)
    def gr(A, b, n, nm):
        z = n - M
        want = [([(z, n), (ZERO, P)], IN(nm[1]))]
        if A == 'wide': want.insert(0, ([(ZERO, z), (ZERO, P)], {}))
        return want, {nm[0]: (n, P), nm[1]: (M, P), nm[2]: (n, P)}
    run_op(c, d, cls, 'GradientImpl', 2, gr, None)
    def lig(A, b, n, nm): return [(None, {})], {nm[0]: (n, P), nm[1]: (n, P)}
    run_op(c, d, cls, 'LogDeterminantInputGradImpl', 1, lig, None)

def ctors(c, d, cls):
    rule = 'construction copies A and b and factorises the trailing block'
    for f in d.find('mpart::%s::%s' % (cls, cls)):
        names = [p['n'] for p in f.ps]; tys = [p['t'] for p in f.ps]
        Ap = next((n for n, t in zip(names, tys) if '**' in t), None); bp = next((n for n, t in zip(names, tys) if '**' not in t and '*' in t), None)
        if not (Ap or bp): continue
        v = VF(d, noinline=lambda g: g.name in ('compute', 'determinant')); v.run(f); c.count('constructors')
        for A in (('square', 'wide') if Ap else ('none',)):
            n = M + K if A == 'wide' else M
            sh = {}
            if Ap: sh[Ap] = (M, n)
            if bp: sh[bp] = (M,)
            case = 'A %s, b %s' % (A, 'set' if bp else 'absent'); key = '%s/%s' % (cls, case)
            mat = Mat(v, sh, {'inputDim': n, 'outputDim': M})
            comp = []
            mat.hooks = {'!compute': lambda m, e: comp.append((m.content(e.args[0]), e.obj))}
            try:
                mat.run(v.events)
                fl = {}
                for e in v.events:
                    if e.k in ('init', 'write') and e.loc.op == 'fld' and mat.live(e): fl[str(e.loc.a[1])] = e.val
                probs = []
                for dn, want in (('inputDim', n), ('outputDim', M)):
                    if mat.size(fl[dn]) != want: probs.append('%s = %s' % (dn, mat.size(fl[dn])))
                for fld, src in (('A_', Ap), ('b_', bp)):
                    x = fl.get(fld)
                    if x is None: probs.append(fld + ' not initialised'); continue
                    if src:
                        if mat.content(x) != IN(src): probs.append('%s holds %s' % (fld, lshow(mat.content(x))))
                        if mat.resolve(x).op != 'obj': probs.append(fld + " shares the caller's memory")
                    elif any(s.sign() != 0 for s in mat.shape(x)): probs.append(fld + ' not empty')
                if cls == 'AffineMap':
                    if Ap:
                        q = IN(Ap) if A == 'square' else lin((1, ('slice', ('in', Ap), (None, (K, M + K)))))
                        if not comp or comp[-1][0] != q: probs.append('factorised matrix is %s' % (lshow(comp[-1][0]) if comp else 'missing'))
                        ldt = fl.get('logDet_')
                        okl = ldt is not None and ldt.op == 'call' and ldt.a[0].split('::')[-1] == 'log'
                        if okl:
                            x = [y for y in ldt.a[1:] if isinstance(y, Term)][0]
                            okl = x.op == 'call' and x.a[0].split('::')[-1] in ('abs', 'fabs')
                            x = [y for y in x.a[1:] if isinstance(y, Term)][0] if okl else x
                            okl = okl and x.op == 'call' and x.a[0].split('::')[-1] == 'determinant' and comp and x.a[1] is comp[-1][1]
                        if not okl: probs.append('log determinant is %s' % (show(ldt) if ldt is not None else 'never set'))
                    else:
                        ldt = fl.get('logDet_')
                        if ldt is None or mat.ex(ldt) != {}: probs.append('log determinant is not zero')
                c.ob(not probs, rule, f.loc(), '%s [%s]: %s' % (f.cq, case, '; '.join(probs) or 'ok'), key)
            except (Unknown, KeyError) as ex: c.skip(rule, f.loc(), '%s [%s]: %s' % (f.cq, case, ex))

def dgemm_core(c, d, rule):
    for f in d.find('mpart::dgemm'):
        if len(f.ps) != 5 or 'TransposeObject' not in f.ps[1]['t'] or f.body is None: continue
        nm = [p['n'] for p in f.ps]
        v = VF(d); v.run(f); c.count('linear algebra functions')
        for ta in (False, True):
            for tb in (False, True):
                def facts(mat, t):
                    if t.op == 'fld' and t.a[1] == 'isTransposed' and isinstance(t.a[0], Term):
                        return ta if nm[1] in t.a[0].a else tb if nm[2] in t.a[0].a else None
                    return None
                X, Y, Z = sy('x'), sy('y'), sy('z')
                mat = Mat(v, {nm[4]: (X, Y)}, {}, facts)
                def name(t, old=mat.name):
                    if t.op == 'fld' and t.a[1] == 'view' and isinstance(t.a[0], Term): return 'view:' + str([z for z in t.a[0].a if z in nm][0])
                    return old(t)
                mat.name = name
                mat.shapes['view:' + nm[1]] = (Z, X) if ta else (X, Z); mat.shapes['view:' + nm[2]] = (Y, Z) if tb else (Z, Y)
                a, b = lin((1, ('fld', 'view:' + nm[1]))), lin((1, ('fld', 'view:' + nm[2])))
                want = ladd(lmul(lin(((nm[3],), 'one')), IN(nm[4])), lmul(lin(((nm[0],), 'one')), lmul(lmap(a, tr) if ta else a, lmap(b, tr) if tb else b)))
                out = next((x for e in v.events for x in subterms_of(e) if x.op == 'param' and nm[4] in x.a), None)
                # alpha/beta may be compared with constants: both outcomes are covered by separate cases only when the code asks
                content_ob(c, v, f, mat, out, [(None, want)], rule, 'A%s B%s' % ("'" if ta else '', "'" if tb else ''), 'dgemm/%s/%s' % (ta, tb))
def linalg(c, d):
    rule = 'linear algebra wrapper computes its documented result'
    dgemm_core(c, d, rule)
    def eig(fn, want, ishape):
        fs = [f for f in d.find(fn) if f.body is not None]
        for f in fs:
            nm = [p['n'] for p in f.ps]
            v = VF(d, noinline=lambda g: g.name == 'solveInPlace'); v.run(f); c.count('linear algebra functions')
            mat = Mat(v, {nm[0]: (M, P)} if nm else {}, {})
            def tv(m, e):
                o = m.resolve(e.obj); inner = e.d['node'].get('obj') or {}
                x = m.content(e.args[0])
                if o.op == 'call':
                    q = o.a[0].split('::')[-1]
                    if q == 'triangularView':
                        src = o.a[1]; mode = (inner.get('ta') or ['?'])[0]
                        base = src.a[0].split('::')[-1] + ':' + (m.name(m.resolve(src.a[1])) or '?') if src.op == 'call' else show(src)
                        key = ('tri', base, str(mode))
                    else: key = ('fac', q, m.name(m.resolve(o.a[1])) or '?')
                else: key = ('fac', m.name(o) or show(o)[:30])
                m.put(e.args[0], lin((1, ('solve', key, frozenset(x.items())))))
            mat.hooks['!solveInPlace'] = tv
            for q in ('permutationP', 'matrixL', 'matrixU', 'matrixLU'): mat.hooks[q] = lambda m, t: lin((1, (t.a[0].split('::')[-1], m.name(m.resolve(t.a[1])) or '?')))
            try:
                mat.run(v.events)
                res = None
                if v.ret is not None and v.ret.op == 'obj' and 'View' in v.ret.a[0]: res = mat.content(v.ret)
                elif nm: res = mat.content(next((x for e in v.events for x in subterms_of(e) if x.op == 'param' and nm[0] in x.a), None))
                w = want(nm)
                c.ob(res in w, rule, f.loc(), '%s: %s, required %s' % (f.cq, lshow(res), ' or '.join(lshow(x) for x in w)), fn)
            except Unknown as ex: c.skip(rule, f.loc(), '%s: %s' % (f.cq, ex))
    S = lambda key, x: lin((1, ('solve', key, frozenset(x.items()))))
    def mode(fn, name):
        return name
    modes = {}
    for f in d.find('mpart::PartialPivLU::solveInPlace'):
        pass
    UL, U = 'Eigen::UnitLower', 'Eigen::Upper'
    def luw(nm):
        px = lmul(lin((1, ('permutationP', 'luSolver_'))), IN(nm[0]))
        return [S(('tri', 'matrixLU:luSolver_', u), S(('tri', 'matrixLU:luSolver_', l), px)) for l in ('5U', '5', 'Eigen::UnitLower', '5u') for u in ('2U', '2', 'Eigen::Upper', '2u')] + [lin((1, ('solved', 'luSolver_')))]
    eig('mpart::PartialPivLU::solveInPlace', luw, None)
    eig('mpart::Cholesky::solveInPlace', lambda nm: [S(('fac', 'matrixU', 'cholSolver_'), S(('fac', 'matrixL', 'cholSolver_'), IN(nm[0])))], None)
    eig('mpart::Cholesky::solveInPlaceL', lambda nm: [S(('fac', 'matrixL', 'cholSolver_'), IN(nm[0]))], None)
    eig('mpart::Cholesky::multiplyL', lambda nm: [lmul(lin((1, ('matrixL', 'cholSolver_'))), IN(nm[0]))], None)
    for cls in ('PartialPivLU', 'Cholesky'):
        eig('mpart::%s::solve' % cls, lambda nm: [S(('fac', 'this'), IN(nm[0])), S(('fac', 'this()'), IN(nm[0]))], None)
    # determinants and factorisations
    for cls, slv, ty in (('PartialPivLU', 'luSolver_', 'Eigen::PartialPivLU'), ('Cholesky', 'cholSolver_', 'Eigen::LLT')):
        for f in d.find('mpart::%s::compute' % cls):
            v = VF(d); v.run(f); nm = f.ps[0]['n']; mat = Mat(v, {nm: (M, M)}, {})
            wr = [e for e in v.events if e.k == 'write' and e.loc.op == 'fld' and e.loc.a[1] == slv and not e.guards]
            good = False
            if len(wr) == 1 and wr[0].val.op == 'obj' and wr[0].val.a[0].startswith(ty):
                xs = [x for x in wr[0].val.a[1:] if isinstance(x, Term)]
                try: good = len(xs) == 1 and mat.content(xs[0]) == IN(nm)
                except Unknown as ex: c.skip(rule, f.loc(), str(ex)); continue
            elif len(wr) != 1: c.skip(rule, f.loc(), '%s: %d assignments of the factorisation' % (f.cq, len(wr))); continue
            c.ob(good, rule, f.loc(), '%s factorises its argument with %s' % (f.cq, ty), cls + '::compute')
        for f in d.find('mpart::%s::determinant' % cls):
            v = VF(d); v.run(f)
            r = v.ret
            fs = factors(r)
            if cls == 'PartialPivLU': good = fs == ['det(luSolver_)']
            else: good = fs == ['det(L(cholSolver_))'] * 2
            c.ob(good, rule, f.loc(), '%s returns %s' % (f.cq, show(r)[:120]), cls + '::determinant')
    # transposed dimensions
    def flagged(ta):
        return lambda mat, t: ta if t.op == 'fld' and t.a[1] == 'isTransposed' else None
    for nme, ix in (('rows', 0), ('cols', 1)):
        for f in d.find('mpart::TransposeObject::' + nme):
            v = VF(d); v.run(f)
            for ta in (False, True):
                mat = Mat(v, {'view': (sy('x'), sy('y'))}, {}, flagged(ta))
                try: got = mat.size(v.ret)
                except Unknown as ex: c.skip(rule, f.loc(), str(ex)); continue
                c.ob(got == (sy('x'), sy('y'))[ix ^ ta], rule, f.loc(), 'TransposeObject::%s, %stransposed: %s' % (nme, '' if ta else 'not ', got), 'TransposeObject::%s/%s' % (nme, ta))

def factors(t):
    if t is None: return []
    if t.op == '*': return sorted(sum((factors(x) for x in t.a), []))
    if t.op == 'call' and t.a[0].split('::')[-1] == 'pow' and t.a[-1] is INT(2): return factors([x for x in t.a[1:] if isinstance(x, Term)][0]) * 2
    if t.op == 'call' and t.a[0].split('::')[-1] == 'determinant':
        o = t.a[1]
        if o.op == 'call' and o.a[0].split('::')[-1] == 'matrixL': return ['det(L(%s))' % o.a[1].a[1]]
        if o.op == 'fld': return ['det(%s)' % o.a[1]]
    return ['?' + show(t)[:40]]

def check():
    c = Check('C02', RULE)
    d = DB([REPO + '/src/' + x for x in ('AffineMap.cpp', 'AffineFunction.cpp', 'IdentityMap.cpp', 'Utilities/LinearAlgebra.cpp')])
    for cls in ('AffineMap', 'AffineFunction'):
        affine(c, d, cls); ctors(c, d, cls)
    identity(c, d); linalg(c, d)
    c.need('operation matches A x + b', 8)
    c.assume('Eigen factorisations, products and triangular solves compute what their names say; Kokkos::deep_copy and subview semantics')
    return c
