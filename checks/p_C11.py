"""C11: operations leave the objects they act on, their coefficients and their inputs as they were."""
import os, re
from harness import Check
from db import DB, REPO, CheckError, strip_targs, walk, src_tus
from vf import VF, T, Term, subterms, show, reset, is_all, is_smart, alias_copied, is_ref, base_ty
RULE = ("Interprocedural effect analysis (value-flow with callees inlined, kernels and reducers included) of every operation of the map, function, density, sampler and objective hierarchies: no path may write a location that belongs to the object, to an object it holds, to global state or to a parameter of constant elements; "
        "virtual calls are charged to every overrider; the only exceptions are the generator pool of a sampler and settings that every operation using them writes again before it reads them.")
BASES = ['mpart::ParameterizedFunctionBase', 'mpart::ConditionalMapBase', 'mpart::DensityBase', 'mpart::MapObjective', 'mpart::SampleGenerator']
OPS = re.compile(r'^(Evaluate|Gradient|CoeffGrad|LogDeterminant|LogDeterminantCoeffGrad|LogDeterminantInputGrad|Inverse|InverseInplace|InverseInPlace|\w*Jacobian|\w+Derivative|LogDensity|LogDensity(Input|Coeff)Grad|Sample|Objective|ObjectivePlusCoeffGrad|TestError|TrainError|TrainCoeffGrad|Train(?:Coeff)?Error|EvaluateSingle|SummarizePts|CoeffMap|Coeffs|GetBaseFunction|GetComponent|GetMultiIndexSet|operator\(\)|Dim|InputDim|NumSamples|GetTrain|GetTest|MapOutputDim|save|Save|Serialize)(Impl)?$')
# out-argument positions of library algorithms
OUTS = {'std::copy': (2,), 'std::copy_n': (2,), 'std::transform': (2, 3), 'std::fill': (0,), 'std::fill_n': (0,), 'std::iota': (0,), 'std::sort': (0,), 'std::stable_sort': (0,), 'std::reverse': (0,), 'std::swap': (0, 1), 'std::swap_ranges': (0, 2), 'std::memcpy': (0,), 'memcpy': (0,), 'memset': (0,), 'std::memset': (0,), 'memmove': (0,), 'std::memmove': (0,),
        'Kokkos::resize': (0,), 'Kokkos::realloc': (0,), 'std::partial_sum': (2,), 'std::generate': (0,), 'std::rotate': (0,), 'std::replace': (0,), 'std::exchange': (0,), 'std::move_backward': (2,), 'std::copy_backward': (2,), 'std::nth_element': (0,), 'std::partial_sort': (0,), 'std::random_shuffle': (0,), 'std::shuffle': (0,)}
READERS = {'begin', 'end', 'cbegin', 'cend', 'rbegin', 'rend', 'at', 'operator[]', 'data', 'back', 'front', 'get', 'find', 'operator->', 'operator*', 'operator()', 'size', 'extent', 'stride', 'count', 'lower_bound', 'upper_bound', 'rows', 'cols', 'equal_range', 'operator bool', 'lock'}
EIGREAD = re.compile(r'(InPlace|setZero|setConstant|setOnes|setIdentity|setRandom|setLinSpaced|resize|conservativeResize|swap|compute|fill|normalize|applyOnTheLeft|applyOnTheRight|rankUpdate|reverseInPlace)$')

class V(VF):
    """notes the target of an assignment through an Eigen map, and calls of unknown functions"""
    def write(s, loc, v, n, op='=', ty=None):
        if loc is not None and ty and 'Eigen::' in ty and base_ty(ty).startswith(('Eigen::Map', 'Eigen::Ref', 'Eigen::Block', 'Eigen::VectorBlock', 'Eigen::Diagonal', 'Eigen::Transpose')):
            s.ev('write', n, loc=s.read(loc), val=v, op=op, ty=ty, thru=True)
        VF.write(s, loc, v, n, op, ty)

HANDLES = ('Eigen::Map', 'Eigen::Ref', 'Eigen::Block', 'Kokkos::View', 'std::shared_ptr', 'std::reference_wrapper')
def roots(t, n=0):
    """the objects whose storage a location term may lie in"""
    if n > 60 or not isinstance(t, Term): return set()
    o = t.op
    if o == 'fld':
        return {T('fld', x, t.a[1]) if x.op in ('this', 'fld', 'param', 'global') else x for x in roots(t.a[0], n + 1)}
    if o in ('idx', 'subview', 'padd', 'data', 'addr', '&', 'deref', 'it', 'iter+'): return roots(t.a[0], n + 1)
    if o == 'cast': return roots(t.a[-1], n + 1)
    if o == 'ite': return roots(t.a[1], n + 1) | roots(t.a[2], n + 1)
    if o == 'obj':
        c = str(t.a[0])
        aa = [x for x in t.a[1:] if isinstance(x, Term)]
        if c.startswith(HANDLES) and aa and aa[0].op not in ('str', 'int', 'call', 'ext', 'obj', 'list') or c.startswith(('Eigen::Map', 'Eigen::Ref')) and aa: return roots(aa[0], n + 1)
        return {t}
    if o == 'call' and len(t.a) > 1:
        q, ob = str(t.a[0]), t.a[1]; short = q.rsplit('::', 1)[-1]
        if isinstance(ob, Term) and q.startswith('Eigen::'): return roots(ob, n + 1)
        if isinstance(ob, Term) and q.startswith('mpart::') and short in ('Coeffs', 'CoeffMap'): return roots(T('fld', ob, 'savedCoeffs'), n + 1)
        if isinstance(ob, Term) and short in ('data', 'get', 'begin', 'end', 'at', 'back', 'front', 'operator[]', 'find'): return roots(ob, n + 1)
        if q.startswith('Kokkos::') and short in ('create_mirror_view', 'create_mirror_view_and_copy', 'subview'):
            aa = [x for x in t.a[2:] if isinstance(x, Term)]
            return roots(aa[-1], n + 1) if aa else {t}
        if short in ('static_pointer_cast', 'dynamic_pointer_cast', 'const_pointer_cast', 'move', 'ref', 'dynamic_cast') and len(t.a) > 2: return roots(t.a[2], n + 1)
    return {t}
def path(t):
    """this.a.b as ('a','b'), or None"""
    p = []
    while t.op == 'fld': p.append(t.a[1]); t = t.a[0]
    return tuple(reversed(p)) if t.op == 'this' and p else None

def held(db, q, name):
    """is the field visible outside, a pointer to another object, an array, or unknown"""
    for x in [q] + db.all_bases(q):
        for r in db.classes.get(x, []):
            for m in r.get('fields', []):
                if m.get('n') == name: return m.get('acc') == 0 or is_smart(m['t']) or base_ty(m['t']).endswith('*') or 'View<' in m['t']
    return True
class Effects:
    def __init__(s, c, db):
        s.c = c; s.db = db; s.memo = {}; s.runs = {}; s.stack = []
    def statics(s, g):
        k = g.iu or g.u
        if k not in s.memo: s.memo[k] = [x for x in walk(g.body) if x.get('static') and not str(x.get('t', '')).startswith('const ') and not x.get('cx')]
        return s.memo[k]
    def run(s, f):
        k = f.iu or f.u
        if k not in s.runs:
            reset(); v = V(s.db, depth=14)
            try: v.run(f)
            except RecursionError: v.overflow = True
            s.runs[k] = s.collect(f, v)
        return s.runs[k]
    def overriders(s, u):
        out, todo, seen = [], [u], set()
        while todo:
            x = todo.pop()
            if x in seen: continue
            seen.add(x)
            for g in s.db.by_u.get(x, []):
                if g.body is not None: out.append(g)
            for g in s.db.overriders.get(x, []):
                if g.body is not None: out.append(g)
                todo.append(g.u)
        return out
    def collect(s, f, v):
        R = type('R', (), {})(); R.writes = []; R.calls = []; R.uses = {}; R.n = len(v.events); R.unknown = []; R.overflow = v.overflow; R.locs = 0
        ptypes = [p['t'] for p in f.ps]
        def hit(loc, e, how):
            for r in roots(loc):
                R.locs += 1
                w = '%s:%d' % (e.file.replace(REPO + '/', ''), e.line)
                p = path(r)
                base = r
                while base.op == 'fld': base = base.a[0]
                if p: R.writes.append(('own', p, w, e.func, how, path(loc) is not None and not held(s.db, f.ccls, path(loc)[0])))
                elif base.op == 'this': R.writes.append(('own', ('*this',), w, e.func, how, False))
                elif base.op == 'param' and isinstance(base.a[0], int) and base.a[0] < len(ptypes):
                    ty = ptypes[base.a[0]]
                    if re.search(r'(View<|Matrix<|Vector<|^)\s*const ', ty) and (is_ref(ty) or 'View<const' in ty or re.search(r'<\s*const ', ty) or ty.rstrip().endswith('*')): R.writes.append(('input', (str(base.a[1]),), w, e.func, how, False))
                elif base.op == 'global': R.writes.append(('global', (show(base),), w, e.func, how, False))
        for e in v.events:
            if e.k == 'write': hit(e.loc, e, 'writes')
            elif e.k == 'deep_copy': hit(e.dst, e, 'copies into')
            elif e.k == 'call':
                n = e.get('node') or {}; ob = e.get('obj'); q = e.q; short = q.rsplit('::', 1)[-1]
                for i in OUTS.get(q, ()):
                    if i < len(e.args): hit(e.args[i], e, short + ' writes')
                if n.get('root') and n.get('u'):
                    if ob is not None and not n.get('cst') and not n.get('stat'):
                        for r in roots(ob):
                            b = r
                            while b.op == 'fld': b = b.a[0]
                            if b.op in ('this', 'param', 'global'): R.calls.append((r, n['u'], short, '%s:%d' % (e.file.replace(REPO + '/', ''), e.line), e.func, bool(e.get('virt'))))
                elif ob is not None:
                    if q.startswith('Eigen::'):
                        if EIGREAD.search(short):
                            # triangularView(..).solveInPlace(x) writes x
                            if short.endswith('solveInPlace'):
                                for a in e.args: hit(a, e, short + ' writes')
                            else: hit(ob, e, short + ' changes')
                    elif q.startswith('std::') and not n.get('cst') and short not in READERS and not short.startswith('operator'):
                        hit(ob, e, short + ' changes')
                    elif q.startswith('Kokkos::') and ('Pool' in q) and short in ('get_state', 'free_state'): hit(ob, e, short + ' advances')
        R.v = v
        for g in {id(x): x for x in [f] + [y for u in v.inlined for y in s.db.by_u.get(u, [])[:1] if y.body is not None]}.values():
            for x in s.statics(g): R.writes.append(('global', (x['n'],), '%s:%d' % (g.file.replace(REPO + '/', ''), x.get('l') or g.line), g.cq, 'keeps static variable', False))
        return R
    def mutates(s, u, seen=None):
        """[(override, effect)] of the writes to *this a call of u may perform"""
        seen = seen if seen is not None else set()
        if u in seen: return []
        seen.add(u); out = []
        for g in s.overriders(u):
            R = s.run(g)
            out += [(g, w) for w in R.writes if w[0] in ('own', 'global')]
            for r, u2, short, where, fn, virt in R.calls:
                if OPS.match(short): continue
                b = r
                while b.op == 'fld': b = b.a[0]
                if b.op == 'this': out += s.mutates(u2, seen)
        return out

def stale(R, p):
    """does the operation read setting this.p before writing it"""
    seen = set()
    for e in R.v.events:
        ts = []
        for k, x in e.d.items():
            if isinstance(x, Term): ts.append((k, x))
            elif isinstance(x, (list, tuple)): ts += [(k, y) for y in x if isinstance(y, Term)]
        for g in e.guards:
            if isinstance(g[0], Term): ts.append(('guard', g[0]))
        for k, x in ts:
            if k in ('loc', 'obj', 'dst'):
                if x.op == 'fld' and path(x) == p: continue
            for y in subterms(x, seen):
                if y.op == 'fld' and y.a[1] == p[-1] and path(y) == p: return e
    return None


def rel(f): return '%s:%d (%s)' % (f.file.replace(REPO + '/', ''), f.line, f.cq)
def check():
    c = Check('C11', RULE)
    tus = src_tus(); fac = [t for t in tus if 'MapFactoryImpl' in t]; deep = os.environ.get('VERIF_TIER') == 'thorough'
    if not deep: tus = [t for t in tus if t not in fac[1:]]
    db = DB(tus, max_inst=2 if deep else 1, keep_variants=3 if deep else 1)
    cl = set()
    for b in BASES: cl.add(b); cl |= set(db.all_derived(b))
    if sum(1 for b in BASES if db.cls(b)) < 3: raise CheckError('the base classes of maps, densities, samplers and objectives are gone')
    E = Effects(c, db); by = {}; seen = set()
    for f in db.funcs:
        if f.body is None or f.d.get('isctor') or not f.cls or (f.iu or f.u) in seen or f.name.startswith('~'): continue
        if f.ccls in cl and OPS.match(f.name) or f.d.get('cst') and f.cq.startswith('mpart::') and f.name not in ('operator()', 'Integrate') and '(' not in f.cq:
            seen.add(f.iu or f.u); by.setdefault(f.ccls, []).append(f)
    rs, ri, rx = 'operations write nothing that outlives them', 'inputs are only read', 'settings are set before they are used'
    c.need(rs, 60); c.need(ri, 60)
    for q, l in sorted(by.items()):
        sett = {}
        for f in l:
            R = E.run(f); w = rel(f); own, inp = [], []
            c.count('operations'); c.count('effects and calls examined', R.n); c.count('written locations resolved', R.locs)
            for kind, p, where, fn, how, isf in R.writes:
                if kind == 'input': inp.append('%s parameter %s at %s in %s' % (how, p[0], where, fn.replace('mpart::', '')))
                elif kind == 'own' and p == ('rand_pool',) and 'advances' in how: c.count('generator pool uses')
                elif kind == 'own' and isf: sett.setdefault(p, []).append((f, where, fn, how))
                else: own.append('%s %s at %s in %s' % (how, '.'.join(p) if kind == 'own' else 'global ' + p[0], where, fn.replace('mpart::', '')))
            for r, u, short, where, fn, virt in R.calls:
                if OPS.match(short): c.count('calls of other operations'); continue
                b = r
                while b.op == 'fld': b = b.a[0]
                if b.op == 'param' and (f.name == 'operator()' and short in ('SetCoeffs', 'WrapCoeffs') or any(x in f.ps[b.a[0]]['t'] for x in ('Archive', 'archive')) if isinstance(b.a[0], int) and b.a[0] < len(f.ps) else True): continue
                for g, ww in E.mutates(u)[:1]: own.append('calls %s on %s at %s, which %s %s (%s)' % (short, show(r), where, ww[4], '.'.join(ww[1]), g.cq.replace('mpart::', '')))
            for lst, rule, key in ((own, rs, 'own'), (inp, ri, 'input')):
                lst = sorted(set(lst))
                if lst: 
                    for x in lst[:6]: c.bad(rule, w, x, f.cq + '/' + key)
                elif R.overflow: c.skip(rule, w, 'the operation is too large to be followed')
                else: c.ok(rule, w, '%d effects and calls, none on %s' % (R.n, 'the object, what it holds or globals' if key == 'own' else 'constant parameters'))
        for p, ws in sorted(sett.items()):
            for f in l:
                e = stale(E.run(f), p); w = rel(f)
                if e is not None: c.bad(rx, w, '%s, which %s %s at %s, is read at %s:%d (%s) before %s sets it' % ('.'.join(p), ws[0][0].name, ws[0][3], ws[0][1], e.file.replace(REPO + '/', ''), e.line, e.func, f.name), f.cq + '/' + '.'.join(p))
                elif any(g is f for g, *_ in ws): c.ok(rx, w, '%s is set before every read' % '.'.join(p))
    # the analysis sees the writers it must see
    def sees(cq, pred, what):
        fs = [f for f in db.find(cq) if f.body is not None]
        if not fs: return
        c.selftest(any(pred(E.run(f)) for f in fs), what)
    sees('mpart::ParameterizedFunctionBase::SetCoeffs', lambda R: any(w[1] == ('savedCoeffs',) for w in R.writes), 'SetCoeffs writes the coefficients')
    sees('mpart::ParameterizedFunctionBase::WrapCoeffs', lambda R: any(w[1] == ('savedCoeffs',) for w in R.writes), 'WrapCoeffs writes the coefficients')
    sees('mpart::SampleGenerator::SetSeed', lambda R: any(w[1] == ('rand_pool',) for w in R.writes), 'SetSeed writes the pool')
    return c
