"""C16: training hands the options to the optimiser and leaves its answer in the map; adaptive training follows the ATM rule."""
import os
from fractions import Fraction
from itertools import product
from harness import Check
from db import DB, REPO, CheckError, strip_targs
from formal import A, K, E, ONE, ZERO, Models, NoAnswer, Undefined
from absint import Interp, Obj, SObj, Buf, Ptr, View, Vec, Violation, Throw, LV, Opaque, Str, deref
import absint
RULE = ("Abstract interpretation of the training drivers with the optimiser, the objective, the component factory and the multi-index sets uninterpreted and the optimiser's answer a fresh symbol: every option reaches the setter of its name before "
        "the optimisation, the optimiser minimises the given objective on the given map from the map's own coefficients, and its answer becomes the map's coefficients and the returned error. For adaptive training, for each scripted pattern of "
        "gradients and test errors: the term added is the admissible one of largest gradient magnitude, training restarts from the trained coefficients, the loop stops by size, patience or exhaustion and the map on the best sets is returned.")
TUS = [REPO + '/src/' + f for f in ('TrainMap.cpp', 'TrainMapAdaptive.cpp', 'ParameterizedFunctionBase.cpp', 'ConditionalMapBase.cpp', 'TriangularMap.cpp', 'MapObjective.cpp')]
N = 'mpart::'
CMB = 'mpart::ConditionalMapBase'
def vec(vals, name):
    b = Buf(len(vals), name); b.d = dict(enumerate(vals)); return View(b, 0, (len(vals),), (1,))
def vals(v, I): return [] if v is None or v.buf is None else [I.get(LV(v.buf, v.off + i * v.st[0])) for i in range(v.ext[0])]
def mkmap(n, coeffs=None, cls=CMB, **kw):
    o = SObj(cls); o.ty = cls + '<Kokkos::HostSpace>'
    o.f = {'numCoeffs': n, 'savedCoeffs': vec(coeffs, 'coefficients') if coeffs is not None else View(None, 0, (0,), (0,))}; o.f.update(kw); return o
class Bound:
    def __init__(s, f, args): s.f = f; s.a = args

def setup(db, opaque, budget=200000):
    I = Interp(db, Models(n=1), budget=budget, opaque=opaque); I.sobj = True
    def bind(I, e, ob, a): return Bound(a[0], [I.ex(x) if x['k'] != 'ref' or 'placeholders' not in (x.get('q') or '') else ('ph', x['n']) for x in a[1:]])
    I.hooks['std::bind'] = bind
    def fncall(I, e, ob, a):
        if e.get('opr') != '()': return NotImplemented
        return callf(I, ob, [I.ex(x) for x in a])
    I.hooks['std::function::operator()'] = fncall
    return I
def callf(I, f, args):
    while isinstance(f, (LV, Ptr)): f = I.val(f) if isinstance(f, LV) else I.get(deref(f, 0, I))
    if isinstance(f, Bound):
        full = [args[int(x[1][1:]) - 1] if isinstance(x, tuple) and x[0] == 'ph' else x for x in f.a]
        t = f.f
        while t.get('k') in ('un', 'cast', 'paren'): t = t['e']
        if not t.get('u'): raise NoAnswer('bound function')
        return I.hooks['call objective'](I, full[0], t['n'], full[1:])
    return I.invoke(f, args)

# ------------------------------------------------------------------ plain training
OPTS = ('stopval', 'ftol_rel', 'ftol_abs', 'xtol_rel', 'xtol_abs', 'maxtime')
def options(cls, verbose=0, **kw):
    o = Obj(cls); o.ty = cls
    o.f = {'opt_alg': Str('ALGORITHM'), 'opt_maxeval': 917, 'verbose': verbose}
    for k in OPTS: o.f['opt_' + k] = A('opt_' + k)
    o.f.update(kw); return o
def run_train(db, fn, n, coeffs, verbose, result, grad=True, stop=None):
    log = {'opt': [], 'evals': [], 'order': []}
    mp = mkmap(n, coeffs)
    obj = SObj('mpart::MapObjective')
    def nl(I, short, ob, a, e):
        st = log
        if ob is None: raise NoAnswer('nlopt ' + short)
        if short == 'opt': return None
        if short.startswith('set_min_objective') or short.startswith('set_max_objective'):
            fx = a[0]
            while fx['k'] in ('un', 'cast'): fx = fx['e']
            fn_ = db.callee(fx['u'], None, fx.get('iu')) if fx.get('u') else None
            ob.f['objective'] = (short, fn_ if fn_ is not None else I.ex(a[0]), I.ex(a[1]) if len(a) > 1 else None); return None
        if short.startswith('set_'):
            ob.f[short[4:]] = I.ex(a[0]); return None
        if short == 'optimize':
            x = a[0]; xl = I.loc(x) if x['k'] in ('ref', 'mem') else I.ex(x); xv = I.val(xl)
            if not isinstance(xv, Vec): raise NoAnswer('optimize over %r' % (xv,))
            log['final'] = dict(ob.f); log['start'] = list(xv.v); log['objective'] = ob.f.get('objective')
            if 'objective' in ob.f:
                k, f, d = ob.f['objective']
                xb = Ptr(vec([A('trial%d' % i) for i in range(n)], 'trial point').buf); gb = Ptr(Buf(n, 'gradient')) if grad else None
                log['trial'] = (xb, gb)
                log['value'] = I.call_func(f, None, [n, xb, gb, d]) if hasattr(f, 'cq') else callf(I, f, [n, xb, gb])
            for i in range(len(xv.v)): xv.v[i] = A('best%d' % i)
            el = I.loc(a[1]); I.set(el, A('optimum')); log['done'] = 1
            return result
        if short in ('last_optimize_result',): return result
        if short == 'last_optimum_value': return A('optimum')
        if short.startswith('get_'): return Opaque(short) if short not in ('get_numevals', 'get_maxeval', 'get_dimension') else 5
        raise NoAnswer('nlopt ' + short)
    def mo(I, short, ob, a, e):
        if short == 'operator()': return I.hooks['call objective'](I, ob, short, [I.ex(x) for x in a])
        if short in ('TrainError', 'TestError') and I.val(I.ex(a[0])) is mp: return K(1) if not log.get('done') else A('optimum') if short == 'TrainError' and eqs(I, vals(mp.f['savedCoeffs'], I), [A('best%d' % i) for i in range(n)]) else A('another error')
        raise NoAnswer('objective ' + short)
    I = setup(db, {'nlopt::opt': nl, 'MapObjective': mo})
    def callobj(I, ob, name, args):
        log['evals'].append((ob, name, args)); return A('objective value')
    I.hooks['call objective'] = callobj
    o = options('mpart::TrainOptions', verbose)
    if stop is not None: o.f['opt_stopval'] = K(stop)
    r = I.call_func(fn, None, [mp, obj, o])
    return I, log, mp, obj, r

def train(c, db):
    fs = [f for f in db.find(N + 'TrainMap') if not f.dep and f.body is not None]
    if not fs: raise CheckError('TrainMap not found')
    fn = fs[0]; where = fn.loc()
    R1, R2, R3, R4 = 'each option reaches the optimiser', 'the optimiser minimises the objective on the map', 'training starts from the map\'s coefficients', 'the optimiser\'s answer is left in the map'
    for n, has, verbose, res, stop in [(1, 0, 0, 1, None), (3, 0, 0, 3, None), (3, 1, 0, 4, -5), (3, 1, 1, 3, 0), (2, 1, 2, 5, None), (2, 0, 1, 6, None), (2, 1, 1, 2, -1), (2, 1, 1, 1, 3)]:
        case = '%d coefficients, %s, verbose %d, result %d%s' % (n, 'set' if has else 'not set', verbose, res, '' if stop is None else ', stopval %d' % stop)
        init = [A('c%d' % i) for i in range(n)] if has else None
        try: I, log, mp, obj, r = run_train(db, fn, n, init, verbose, res, stop=stop)
        except (NoAnswer, Undefined) as x: c.skip(R4, where, '%s: %s' % (case, x)); continue
        except Violation as x: c.bad(R4, x.where, '%s: %s' % (case, x.msg), 'TrainMap|' + x.kind); continue
        except Throw as x: c.bad(R4, x.where, '%s: throws' % case, 'TrainMap|throws'); continue
        c.count('training cases')
        fin = log.get('final')
        if fin is None: c.bad(R2, where, case + ': the optimiser is never run', 'TrainMap|not run'); continue
        a = fin.get('#args', [])
        c.ob(len(a) == 2 and a[0] == 'ALGORITHM', R1, where, '%s: algorithm is opt_alg' % case, 'opt_alg')
        c.ob(len(a) == 2 and a[1] == n, R1, where, '%s: dimension %s' % (case, a[1:] ), 'dimension')
        for k in OPTS: c.ob(fin.get(k) is A('opt_' + k) or k == 'stopval' and stop is not None and isinstance(fin.get(k), E) and I.M.same(fin[k], K(stop)), R1, where, '%s: set_%s receives %s when the optimisation starts' % (case, k, fin.get(k, 'nothing')), k)
        c.ob(fin.get('maxeval') == 917, R1, where, '%s: set_maxeval receives %s' % (case, fin.get('maxeval', 'nothing')), 'maxeval')
        ex = set(fin) - set(OPTS) - {'#args', 'objective', 'maxeval'}
        c.ob(not ex, R1, where, '%s: no other setting is changed (%s)' % (case, sorted(ex)), 'other settings')
        c.ob(log['objective'] is not None and log['objective'][0] == 'set_min_objective', R2, where, case + ': minimises', 'sense')
        ev = log['evals']
        c.ob(len(ev) == 1 and ev[0][0] is obj and ev[0][1] == 'operator()' and len(ev[0][2]) == 4 and ev[0][2][0] == n and same(ev[0][2][1], log['trial'][0]) and same(ev[0][2][2], log['trial'][1]) and I.val(ev[0][2][3]) is mp,
             R2, where, '%s: one evaluation of the objective on (n, x, grad, map)' % case, 'evaluation')
        c.ob(log.get('value') is A('objective value'), R2, where, case + ': its value is what the optimiser sees', 'value')
        want = init if has else [ONE] * n
        c.ob(eqs(I, log['start'], want), R3, where, '%s: starts from %s' % (case, log['start']), 'start')
        got = vals(mp.f['savedCoeffs'], I)
        c.ob(eqs(I, got, [A('best%d' % i) for i in range(n)]), R4, where, '%s: map holds %s' % (case, got), 'coefficients')
        c.ob(isinstance(r, E) and r is A('optimum'), R4, where, '%s: returns %s' % (case, r), 'returned error')
    for r, k in ((R1, 40), (R2, 10), (R3, 4), (R4, 8)): c.need(r, k)
def same(a, b): return isinstance(a, Ptr) and isinstance(b, Ptr) and a.b is b.b and a.o == b.o
def eqs(I, a, b): return len(a) == len(b) and all(isinstance(x, E) and I.M.same(x, y) for x, y in zip(a, b))

# ------------------------------------------------------------------ adaptive training
def down(t):
    for i, x in enumerate(t):
        if x: yield t[:i] + (x - 1,) + t[i + 1:]
def margin(S, cap=None):
    """reduced margin: terms outside S all of whose backward neighbours are in S"""
    d = len(S[0]); s = set(S); out = []
    for t in S:
        for i in range(d):
            u = t[:i] + (t[i] + 1,) + t[i + 1:]
            if cap is not None and sum(u) > cap: continue
            if u not in s and u not in out and all(b in s for b in down(u)): out.append(u)
    return out
class World:
    """the uninterpreted parts: sets, factory, objective and plain training"""
    def __init__(s, indim, outdim, errors, grad, cap=None):
        s.cap = cap; s.i = indim; s.o = outdim; s.errors = list(errors); s.grad = grad; s.log = []; s.nt = 0; s.ne = 0; s.ng = 0
    def mset(s, terms): o = Obj('mpart::MultiIndexSet'); o.ty = o.cls; o.f = {'terms': tuple(terms)}; return o
    def multi(s, t): o = Obj('mpart::MultiIndex'); o.ty = o.cls; o.f = {'t': tuple(t)}; return o
    def hmset(s, I, short, ob, a, e):
        if short == 'CreateTotalOrder':
            v = [I.ex(x) for x in a if x['k'] != 'dep']; d, p = v[0], v[1]
            return s.mset([t for t in product(range(p + 1), repeat=d) if sum(t) <= p])
        if ob is None: raise NoAnswer('MultiIndexSet::' + short)
        T = ob.f['terms']
        if short == 'Length': return len(T[0])
        if short == 'Size': return len(T)
        if short == 'Fix':
            o = Obj('mpart::FixedMultiIndexSet'); o.f = {'terms': T}; return o
        if short == 'Expand':
            if a: raise NoAnswer('Expand of one term')
            m = margin(list(T), s.cap); ob.f['terms'] = T + tuple(m); return Vec([len(T) + k for k in range(len(m))], 'std::vector<unsigned int>')
        if short in ('operator[]', 'at', 'IndexToMulti'):
            k = I.ex(a[0])
            if not isinstance(k, int): raise Violation('uninitialised', 'a term is selected by an index that was never set', I.where_)
            if not 0 <= k < len(T): raise Violation('bounds', 'term %d of a set of %d' % (k, len(T)), I.where_)
            return s.multi(T[k])
        if short == 'operator=': y = I.ex(a[0]); ob.f['terms'] = y.f['terms']; return ob
        if short in ('operator+=', 'AddActive'):
            y = I.ex(a[0]); ts = (y.f['t'],) if 't' in y.f else y.f['terms']
            ob.f['terms'] = T + tuple(t for t in ts if t not in T); return ob if short[0] == 'o' else len(ob.f['terms']) - 1
        if short == 'operator+': y = I.ex(a[0]); ts = (y.f['t'],) if 't' in y.f else y.f['terms']; return s.mset(T + tuple(t for t in ts if t not in T))
        if short == 'FilterBounded':
            b = I.ex(a[0]).f['t']
            return Vec([any(x >= y for x, y in zip(t, b)) for t in T], 'std::vector<bool>')
        if short == 'IsActive': return I.ex(a[0]).f['t'] in T
        if short == 'MultiToIndex': return T.index(I.ex(a[0]).f['t'])
        if short == 'Visualize': return None
        raise NoAnswer('MultiIndexSet::' + short)
    def hmulti(s, I, short, ob, a, e):
        if ob is None: raise NoAnswer('MultiIndex::' + short)
        t = ob.f['t']
        if short == 'Length': return len(t)
        if short == 'String': return Str('')
        if short == 'Get': return t[I.ex(a[0])]
        if short == 'AnyBounded': b = I.ex(a[0]).f['t']; return any(x >= y for x, y in zip(t, b))
        if short == 'operator=': ob.f['t'] = I.ex(a[0]).f['t']; return ob
        if short == 'Sum': return sum(t)
        if short == 'Max': return max(t)
        raise NoAnswer('MultiIndex::' + short)
    def hfixed(s, I, short, ob, a, e):
        if short == 'Size': return len(ob.f['terms'])
        if short == 'Length': return len(ob.f['terms'][0])
        raise NoAnswer('FixedMultiIndexSet::' + short)
    def hobj(s, I, short, ob, a, e):
        if short == 'InputDim': return s.i
        if short == 'MapOutputDim': return s.o
        if short == 'TestError':
            m = I.ex(a[0]); s.ne += 1
            v = s.errors[s.ne - 1] if s.ne <= len(s.errors) else s.errors[-1]
            s.log.append(('test', s.terms(m), s.coeffs(I, m), v)); return K(v)
        if short == 'TrainCoeffGrad':
            m = I.ex(a[0]); ts = s.terms(m); s.ng += 1
            s.log.append(('grad', ts, s.coeffs(I, m)))
            return vec([K(s.grad(s.ng - 1, b, t)) for b, T in enumerate(ts) for t in T], 'gradient')
        raise NoAnswer('objective ' + short)
    def comps(s, m):
        v = m.f.get('comps_')
        if not isinstance(v, Vec): raise NoAnswer('map is not a stack of components')
        return v.v
    def terms(s, m): return tuple(x.f['terms'] for x in s.comps(m))
    def coeffs(s, I, m): return [vals(x.f['savedCoeffs'], I) for x in s.comps(m)]
    def factory(s, I, e, ob, a):
        f = I.ex(a[0]); o = I.ex(a[1])
        s.log.append(('component', o.f.get('nugget')))
        T = f.f['terms']
        return mkmap(len(T), [ZERO] * len(T), terms=T, inputDim=len(T[0]), outputDim=1)
    def train(s, I, e, ob, a):
        m, obj, opt = I.ex(a[0]), I.ex(a[1]), I.ex(a[2])
        if s.nt > 40: raise Violation('termination', 'the adaptation goes on after the stopping rule', I.where_)
        s.log.append(('train', s.terms(m), s.coeffs(I, m), obj, opt.f.get('opt_maxeval'), opt.f.get('opt_ftol_rel'))); s.nt += 1
        # the optimiser's answer, through the map's own SetCoeffs
        k = 0; sc = m.f['savedCoeffs']; n = m.f['numCoeffs']
        new = [A('w%d_%d' % (s.nt, i)) for i in range(n)]
        fs = [f for f in I.db.find('mpart::TriangularMap::SetCoeffs') if f.ps and 'View' in f.ps[0]['t']]
        I.call_func(fs[0], m, [vec(new, 'trained')])
        return A('train error %d' % s.nt)

def oracle(W, sets, maxsize, patience, bound):
    """the required run: list of (kind, sets, start coefficients as list per block)"""
    cur = [tuple(S) for S in sets]; best = list(cur); log = []; nt = 0; ng = 0; ne = 0
    def trained(k, cur):
        out = []; i = 0
        for S in cur: out.append([A('w%d_%d' % (k, i + j)) for j in range(len(S))]); i += len(S)
        return out
    co = [[ZERO] * len(S) for S in cur]
    nt += 1; log.append(('train', tuple(cur), co)); co = trained(nt, cur)
    err = lambda: W.errors[min(ne, len(W.errors) - 1)]
    log.append(('test', tuple(cur), co)); b = err(); ne += 1
    pat = 0
    while sum(map(len, cur)) < maxsize and pat < patience:
        ex = [S + tuple(margin(list(S), W.cap)) for S in cur]
        log.append(('grad', tuple(ex), [c + [ZERO] * (len(E_) - len(c)) for c, E_ in zip(co, ex)]))
        cand = []
        for k, (S, E_) in enumerate(zip(cur, ex)):
            for t in E_[len(S):]:
                if bound is not None and any(x >= y for x, y in zip(t, bound)): continue
                g = abs(W.grad(ng, k, t))
                if g > 0: cand.append((g, k, t))
        ng += 1
        if not cand: break
        m = max(g for g, _, _ in cand); g, k, t = next(x for x in cand if x[0] == m)
        assert sum(1 for x in cand if x[0] == m) == 1, 'ambiguous script'
        cur = list(cur); cur[k] = cur[k] + (t,); co = list(co); co[k] = co[k] + [ZERO]
        nt += 1; log.append(('train', tuple(cur), co)); co = trained(nt, cur)
        log.append(('test', tuple(cur), co)); e = err(); ne += 1; pat += 1
        if e < b: b = e; best = list(cur); pat = 0
    nt += 1; log.append(('train', tuple(best), None)); log.append(('test', tuple(best), trained(nt, best)))
    return log, best, trained(nt, best)

F = Fraction
def gradA(it, b, t): return F((-1) ** (sum(t) + b) * (3 + 7 * b + 5 * it + sum((2 + i) ** 2 * x for i, x in enumerate(t))), 8) + F(it * it, 16)
def gradB(it, b, t): return F((-1) ** b * 90, 1 + b * 11 + sum((3 + 2 * i) * x for i, x in enumerate(t)) + it) 
def gradZ(it, b, t): return F(0)
def gradS(it, b, t): return F(1, 1 + b + 4 * sum((1 + i) * x * x for i, x in enumerate(t))) * F(1, 1000000) * (-1)
def to(d, p): return [t for t in product(range(p + 1), repeat=d) if sum(t) <= p]
def scenarios():
    one = [to(1, 0)]; two = [to(1, 0), to(2, 0)]; two1 = [to(1, 1), to(2, 1)]; rect = [to(2, 1), to(3, 0)]; l1 = [to(1, 2), to(2, 1)]
    dn = [10, 9, 8, 7, 6, 5, 4, 3, 2, 1]; up = [1, 2, 3, 4, 5, 6, 7, 8, 9]; mix = [5, 6, 4, 7, 8, 3, 9, 10, 11, 12]; eq = [5, 5, 5, 5, 5, 5]; zig = [10, 5, 7, 6, 4, 8, 5, 9, 9, 3]
    big = 10 ** 9
    yield 'one dimension, improving', 1, 1, one, dn, gradA, 4, 10, None
    yield 'two dimensions, improving', 2, 2, two, dn, gradA, 7, 10, None
    yield 'second gradient pattern', 2, 2, two, dn, gradB, 8, 10, None
    yield 'no improvement, patience 2', 2, 2, two1, up, gradA, big, 2, None
    yield 'equal errors do not reset the patience', 2, 2, two1, eq, gradB, big, 3, None
    yield 'mixed errors, patience 2', 2, 2, two, mix, gradA, big, 2, None
    yield 'mixed errors, patience 3', 2, 2, two, mix, gradB, big, 3, None
    yield 'given sets already of maximal size', 2, 2, two1, dn, gradA, 5, 10, None
    yield 'patience 0', 2, 2, l1, dn, gradA, 50, 0, None
    yield 'rectangular', 3, 2, rect, mix, gradA, big, 3, None
    yield 'maximum degrees', 2, 2, two, dn, gradA, 9, 10, (1000, 2)
    yield 'maximum degrees with another gradient', 2, 2, two1, dn, gradB, 9, 10, (2, 4)
    yield 'every term at its maximum degree', 2, 2, two, dn, gradA, 30, 30, (2, 2)
    yield 'zero gradient', 2, 2, two1, dn, gradZ, 9, 10, None
    yield 'better than the first but not than the best', 2, 2, two, zig, gradA, 9, 20, None
    yield 'the same, patience 2', 2, 2, two, zig, gradB, big, 2, None
    yield 'limited sets', 2, 2, two, dn, gradA, 30, 30, None, 1
    yield 'limited sets, all terms present', 2, 2, two1, dn, gradA, 30, 30, None, 1
    yield 'small negative gradients', 2, 2, two, dn, gradS, 6, 10, None

def adaptive(c, db):
    fs = [f for f in db.find(N + 'TrainMapAdaptive') if not f.dep and f.body is not None]
    if not fs: raise CheckError('TrainMapAdaptive not found')
    fn = fs[0]; where = fn.loc()
    R1, R2, R3, R4 = 'adaptive training follows the ATM rule', 'adaptive training passes its options and objective on', 'adaptive training returns the map on the best sets', 'adaptive training refuses sets that do not fit'
    def run(i, o, sets, errs, g, ms, pat, bd, verbose=0, cap=None):
        W = World(i, o, errs, g, cap)
        I = setup(db, {'MultiIndexSet': W.hmset, 'MultiIndex': W.hmulti, 'FixedMultiIndexSet': W.hfixed, 'MapObjective': W.hobj}, budget=400000)
        I.hooks['mpart::MapFactory::CreateComponent'] = W.factory; I.hooks['mpart::TrainMap'] = W.train
        obj = SObj('mpart::MapObjective')
        opt = options('mpart::ATMOptions', verbose, maxSize=ms, maxPatience=pat, maxDegrees=W.multi(bd or ()), nugget=A('nugget'))
        v = Vec([W.mset(S) for S in sets], 'std::vector<mpart::MultiIndexSet>')
        r = I.call_func(fn, None, [v, obj, opt])
        return W, I, v, obj, r
    scen = [(x + (None,))[:10] + (0,) for x in scenarios()]; scen += [(x[0] + ', verbose %d' % k,) + x[1:-1] + (k,) for x, k in ((scen[1], 1), (scen[5], 2), (scen[10], 2))]
    if os.environ.get('VERIF_TIER') == 'thorough':
        allsets = [(1, 1, [to(1, 0)]), (2, 2, [to(1, 0), to(2, 0)]), (2, 2, [to(1, 1), to(2, 1)]), (3, 2, [to(2, 1), to(3, 0)]), (3, 3, [to(1, 0), to(2, 1), to(3, 0)]), (2, 1, [to(2, 0)])]
        errs = [[10, 9, 8, 7, 6, 5, 4, 3, 2, 1], [5, 6, 4, 7, 8, 3, 9, 10, 11, 12], [10, 5, 7, 6, 4, 8, 5, 9, 9, 3], [3, 3, 2, 2, 1, 1, 4, 4]]
        for k, ((i, o, sets), er, g, pat, bd) in enumerate(product(allsets, errs, (gradA, gradB, gradS), (1, 2, 4), (None, 3))):
            scen.append(('thorough case %d' % k, i, o, sets, er, g, 9, pat, None if bd is None else (bd,) * i, None, 0))
    for name, i, o, sets, errs, g, ms, pat, bd, cap, vb in scen:
        try: W, I, v, obj, r = run(i, o, sets, errs, g, ms, pat, bd, vb, cap)
        except (NoAnswer, Undefined) as x: c.skip(R1, where, '%s: %s' % (name, x)); continue
        except Violation as x: c.bad(R1, x.where, '%s: %s' % (name, x.msg), name + '|' + x.kind); continue
        except Throw as x: c.bad(R1, x.where, '%s: throws' % name, name + '|throws'); continue
        c.count('adaptive scenarios')
        try: want, best, fin = oracle(W, sets, ms, pat, bd)
        except AssertionError: continue
        got = [x for x in W.log if x[0] in ('train', 'test', 'grad')]
        bad = None
        # the last test evaluation is only reported, it is not required
        if want and got and want[-1][0] == 'test' and got[-1][0] != 'test': want = want[:-1]
        for k in range(max(len(want), len(got))):
            if k >= len(got): bad = 'stops after %d steps, %s of %s is missing' % (k, want[k][0], want[k][1]); break
            if k >= len(want): bad = 'continues with %s of %s after %d steps' % (got[k][0], got[k][1], k); break
            w, h = want[k], got[k]
            if w[0] != h[0]: bad = 'step %d is %s instead of %s' % (k, h[0], w[0]); break
            if [sorted(x) for x in w[1]] != [sorted(x) for x in h[1]]: bad = 'step %d (%s) uses the terms %s instead of %s' % (k, w[0], h[1], w[1]); break
            if w[2] is not None:
                # compare coefficient by term
                for b, (T1, c1, T2, c2) in enumerate(zip(w[1], w[2], h[1], h[2])):
                    d1, d2 = dict(zip(T1, c1)), dict(zip(T2, c2))
                    for t in T1:
                        if t not in d2 or not isinstance(d2[t], E) or not I.M.same(d1[t], d2[t]): bad = 'step %d (%s): coefficient of term %s of component %d is %s instead of %s' % (k, w[0], t, b, d2.get(t), d1[t]); break
                    if bad: break
            if bad: break
        c.ob(bad is None, R1, where, '%s: %s' % (name, bad or '%d steps as required' % len(got)), name)
        ts = [x for x in W.log if x[0] == 'train']
        c.ob(all(x[3] is obj and x[4] == 917 and x[5] is A('opt_ftol_rel') for x in ts), R2, where, name + ': every training uses the given objective and options', name + '|training')
        c.ob(all(x[1] is A('nugget') for x in W.log if x[0] == 'component'), R2, where, name + ': every component is built with the given options', name + '|components')
        if bad is None:
            c.ob(isinstance(r, Obj) and [sorted(x) for x in W.terms(r)] == [sorted(x) for x in best] and all(eqs(I, x, y) for x, y in zip(W.coeffs(I, r), fin)), R3, where, name + ': returns the trained map on the best sets', name + '|map')
            c.ob([sorted(x.f['terms']) for x in v.v] == [sorted(x) for x in best], R3, where, '%s: the given sets become the best sets' % name, name + '|sets')
    two = [to(1, 0), to(2, 0)]
    for name, i, o, sets, bd in (('too few sets', 2, 2, [to(1, 0)], None), ('too many sets', 2, 2, two + [to(3, 0)], None), ('second set too long', 2, 2, [to(1, 0), to(3, 0)], None), ('second set too short', 2, 2, [to(1, 0), to(1, 0)], None),
                                 ('sets longer than the samples', 2, 2, [to(2, 0), to(3, 0)], None), ('sets shorter than the samples', 3, 2, two, None), ('maximum degrees too short', 2, 2, two, (3,)), ('maximum degrees too long', 2, 2, two, (3, 3, 3))):
        try: run(i, o, sets, [3, 2, 1], gradA, 4, 5, bd)
        except Throw: c.ok(R4, where, name + ' is refused'); continue
        except (NoAnswer, Undefined) as x: c.skip(R4, where, '%s: %s' % (name, x)); continue
        except Violation as x: c.bad(R4, x.where, '%s is not refused: %s' % (name, x.msg), name); continue
        c.bad(R4, where, name + ' is not refused', name)
    for r, k in ((R1, 8), (R2, 16), (R3, 12), (R4, 5)): c.need(r, k)

def check():
    c = Check('C16', RULE)
    db = DB(TUS, max_inst=2)
    train(c, db)
    adaptive(c, db)
    c.assume('NLopt minimises the objective it is given under the settings it is given; a failure it reports is its exception')
    c.assume('MultiIndexSet::Expand appends the reduced margin and returns its indices (multi-index sets are not decided here)')
    W = World(1, 1, [3, 2, 1], gradA); L = oracle(W, [to(1, 0)], 3, 5, None)
    c.selftest('a run that keeps the first set is told from one that enlarges it', L[1][0] != tuple(to(1, 0)) and L[0][0][0] == 'train')
    W2 = World(1, 1, [1, 2, 3], gradA); L2 = oracle(W2, [to(1, 0)], 3, 5, None)
    c.selftest('a worse test error keeps the given set', L2[1][0] == tuple(to(1, 0)))
    return c
