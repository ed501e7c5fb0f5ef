"""C09: every option combination selects the component it names and every option value reaches it."""
import os, re, glob
from harness import Check
from db import DB, REPO, VERIF, CheckError, walk, strip_targs
from vf import VF, T, Term, INT, show, subterms
from util import ceval, live, NoVal, lidx_range

RULE = ("Registry query over the resolved program: the component factory must hold exactly one entry for each of the basis x linearised x bijector x quadrature combinations of the option enums, and the "
        "function registered for it (value-flow analysed per template instance, constructors inlined) must build MonotoneComponent with exactly those types and store each option in the member it names. "
        "Key computation, rejection of unknown keys, CreateExpansion, CreateTriangular, CreateSingleEntryMap and MapOptions equality are decided by evaluating the value-flow terms in every option case.")

BASES = {'ProbabilistHermite': 'mpart::OrthogonalPolynomial<mpart::ProbabilistHermiteMixer>', 'PhysicistHermite': 'mpart::OrthogonalPolynomial<mpart::PhysicistHermiteMixer>', 'HermiteFunctions': 'mpart::HermiteFunction'}
POS = {'Exp': 'mpart::Exp', 'SoftPlus': 'mpart::SoftPlus'}
QUAD = {'ClenshawCurtis': 'mpart::ClenshawCurtisQuadrature<Kokkos::HostSpace>', 'AdaptiveSimpson': 'mpart::AdaptiveSimpson<Kokkos::HostSpace>', 'AdaptiveClenshawCurtis': 'mpart::AdaptiveClenshawCurtis<Kokkos::HostSpace>'}

def strip(t):
    while isinstance(t, Term) and t.op in ('copy', 'cast') and isinstance(t.a[0], Term): t = t.a[0]
    return t

def isopt(t, name):
    """t is option field `name` of an options parameter"""
    t = strip(t)
    if not isinstance(t, Term) or t.op != 'fld' or t.a[1] != name: return False
    b = strip(t.a[0])
    return b.op == 'param' or b.op == 'var'

def targs(s):
    """top-level template arguments of a type string"""
    i = s.find('<')
    if i < 0: return []
    depth = 0; cur = ''; out = []
    for ch in s[i + 1:]:
        if ch == '<': depth += 1
        if ch == '>':
            if depth == 0: out.append(cur.strip()); return out
            depth -= 1
        if ch == ',' and depth == 0: out.append(cur.strip()); cur = ''
        else: cur += ch
    return out

def registrations(d):
    """(key, function ref node, location) of every insertion into the host component factory; None key = not literal"""
    out = []
    def scan(root, file, line):
        for n in walk(root):
            if n.get('k') != 'call': continue
            q = strip_targs(n.get('q') or '')
            if q not in ('std::map::insert', 'std::map::emplace', 'std::map::insert_or_assign', 'std::map::try_emplace'): continue
            en = {}; bl = []; fn = None
            for m in walk(n.get('a') or []):
                if m.get('k') == 'ref' and m.get('d') == 'enum':
                    p = strip_targs(m['q']).split('::')
                    if len(p) >= 2 and p[-2] in ('BasisTypes', 'PosFuncTypes', 'QuadTypes'): en[p[-2]] = p[-1]
                elif m.get('k') == 'bool': bl.append(bool(m.get('v')))
                elif m.get('k') == 'ref' and m.get('d') == 'func' and 'ConditionalMapBase' in m.get('rt', ''): fn = m
            ty = str(n.get('obj', {}).get('t', '')) + str(n.get('t', '')) + (fn.get('rt', '') if fn else '')
            if 'ConditionalMapBase' not in ty and fn is None: continue
            if 'HostSpace' not in ty: continue
            key = (en['BasisTypes'], bl[0], en['PosFuncTypes'], en['QuadTypes']) if len(en) == 3 and len(bl) == 1 else None
            out.append((key, fn, '%s:%d' % (file, n.get('l') or line)))
    for g in d.globals:
        if isinstance(g.get('init'), dict): scan(g['init'], g['file'], g['line'])
    for f in d.funcs:
        if f.body is not None and not f.dep and f.file.startswith('src/') and 'ConditionalMapBase' in str(f.d.get('calls', '')) : scan(f.body, f.file, f.line)
    return out

def fields_of(v):
    """obj term -> {field: final value}"""
    out = {}
    for e in v.events:
        if e.k in ('init', 'write') and e.loc.op == 'fld' and isinstance(e.loc.a[0], Term) and not e.loops:
            out.setdefault(e.loc.a[0], {})[str(e.loc.a[1])] = (e.val, e)
    return out

def ctor_map(d, cls, nargs):
    """member <- index of the constructor parameter it is initialised from"""
    best = None
    for f in d.methods(cls, cls.split('::')[-1]):
        if len(f.ps) != nargs: continue
        v = VF(d); v.run(f); m = {}
        nm = [p['n'] for p in f.ps]
        for e in v.events:
            if e.k in ('init', 'write') and e.loc.op == 'fld' and not e.guards:
                x = strip(e.val)
                if x.op in ('param', 'var'):
                    for i, n in enumerate(nm):
                        if n in x.a: m[str(e.loc.a[1])] = i
        if best is None: best = m
        else: best = {k: i for k, i in best.items() if m.get(k) == i}
    return best

def creator(c, d, key, f, cmap):
    """the function registered for key builds the right component from the options"""
    basis, linr, pos, quad = key
    rule = 'registered function builds the component its key names'; thread = 'option value reaches the member it names'
    w = f.loc(); kk = '%s/%s/%s/%s' % (basis, 'linear' if linr else 'plain', pos, quad)
    v = VF(d, noinline=lambda g: g.name in ('GetRule', 'SetCoeffs', 'WrapCoeffs')); v.run(f)
    r = strip(v.ret) if v.ret is not None else None
    ct = next((e for e in v.events if e.k == 'ctor' and e.obj is r and e.cls == 'mpart::MonotoneComponent'), None)
    if ct is None: c.skip(rule, w, '%s: returned object %s' % (f.cq, show(r)[:60] if r else None)); return
    ty = v.types.get(ct.obj, '') or ct.d.get('ty', '') or ''
    m = re.search(r'mpart::MonotoneComponent<', ty)
    ta = targs(ty[m.start():]) if m else []
    if len(ta) < 3: c.skip(rule, w, 'component type ' + ty[:80]); return
    want_basis = BASES[basis]
    if linr: want_basis = 'mpart::LinearizedBasis<%s>' % want_basis
    eb = targs(ta[0]); got = (eb[0] if eb else ta[0], ta[1], ta[2])
    want = (want_basis, POS[pos], QUAD[quad])
    c.ob(got == want, rule, w, '%s registered for (%s) builds <%s>' % (f.name, kk, ', '.join(x.replace('mpart::', '') for x in got)), kk)
    F = fields_of(v)
    def opt(what, t, name, key2):
        if t is None:
            if what in short: c.bad(thread, w, '%s: %s takes its default, required options.%s' % (f.name, what, name), kk + '/' + key2)
            else: c.skip(thread, w, '%s: %s not found' % (f.name, what))
            return
        c.ob(isopt(t, name), thread, w, '%s: %s = %s, required options.%s' % (f.name, what, show(t)[:80], name), kk + '/' + key2)
    args = ct.args
    short = {fld for fld, i in (cmap or {}).items() if i >= len(args)} | DEFAULTED.setdefault(id(d), {}).get(len(args), set())
    ai = lambda fld: args[cmap[fld]] if cmap and fld in cmap and cmap[fld] < len(args) else None
    opt('nugget_', ai('nugget_'), 'nugget', 'nugget'); opt('useContDeriv_', ai('useContDeriv_'), 'contDeriv', 'contDeriv')
    q = ai('quad_'); ex = ai('expansion_')
    q = strip(q) if q is not None else None; ex = strip(ex) if ex is not None else None
    fq = F.get(q, {}) if q is not None else {}
    val = lambda fd, n: fd[n][0] if n in fd else None
    if not fq: c.skip(thread, w, '%s: quadrature object' % f.name)
    else:
        if quad == 'ClenshawCurtis': opt('numPts_', val(fq, 'numPts_'), 'quadPts', 'quadPts')
        else:
            for fld, o in (('maxSub_', 'quadMaxSub'), ('minSub_', 'quadMinSub'), ('absTol_', 'quadAbsTol'), ('relTol_', 'quadRelTol')): opt(fld, val(fq, fld), o, o)
            em = val(fq, 'errorMetric_')
            if em is not None: c.ob(strip(em).op == 'enum' and str(strip(em).a[0]).endswith('::First'), thread, w, '%s: error metric %s' % (f.name, show(em)), kk + '/errorMetric')
        fd = val(fq, 'fdim_')
        if fd is not None: c.ob(strip(fd) is INT(1), thread, w, '%s: integrand dimension %s' % (f.name, show(fd)), kk + '/fdim')
        if quad == 'AdaptiveClenshawCurtis':
            for fld in ('coarsePts_', 'finePts_', 'coarseWts_', 'fineWts_'):
                x = val(fq, fld)
                if x is None: continue
                o = [y.a[1] for y in subterms(x) if y.op == 'fld' and strip(y.a[0]).op in ('param', 'var')]
                c.ob('quadPts' in o and not set(o) - {'quadPts'}, thread, w, '%s: %s sized from %s' % (f.name, fld, sorted(set(o))), kk + '/level/' + fld)
                LEVELS.setdefault(fld, {}).setdefault(show(x)[:400].replace(str(f.ps[1]['n']), 'opts'), []).append((w, f.name, kk))
    fe = F.get(ex, {}) if ex is not None else {}
    if not fe: c.skip(thread, w, '%s: expansion object' % f.name)
    else:
        ms = val(fe, 'multiSet_'); b = val(fe, 'basis1d_')
        if ms is not None: c.ob(strip(ms).op == 'param' and f.ps[0]['n'] in strip(ms).a, thread, w, '%s: multi-index set %s' % (f.name, show(ms)[:60]), kk + '/mset')
        if b is None: c.skip(thread, w, '%s: basis' % f.name)
        else:
            b = strip(b); fb = F.get(b, {})
            if linr:
                opt('lb_', val(fb, 'lb_'), 'basisLB', 'basisLB'); opt('ub_', val(fb, 'ub_'), 'basisUB', 'basisUB')
                pb = val(fb, 'polyBasis_'); b = strip(pb) if pb is not None else None; fb = F.get(b, {}) if b is not None else {}
            if basis != 'HermiteFunctions': opt('normalize_', val(fb, 'normalize_'), 'basisNorm', 'basisNorm')
    sc = [e for e in v.events if e.k == 'call' and e.d.get('name') == 'SetCoeffs' and strip(e.obj) is r]
    rl = 'component starts with one zero coefficient per term'
    if len(sc) != 1 or sc[0].guards: c.ob(bool(sc), rl, w, '%s: %d SetCoeffs calls' % (f.name, len(sc)), kk + '/coeffs') if not sc else c.skip(rl, w, 'conditional SetCoeffs')
    else:
        a = strip(sc[0].args[0]); xs = [x for x in a.a[1:] if isinstance(x, Term)] if a.op == 'obj' else []
        good = a.op == 'obj' and 'View' in a.a[0] and len(xs) == 2 and xs[0].op == 'str'
        VSZ.setdefault(id(d), None)
        sz = msize(d)
        c.ob(good and (sz is None or show(xs[1]) == sz.replace('this', str(f.ps[0]['n'])) or 'Size' in show(xs[1])), rl, w, '%s: coefficients %s' % (f.name, show(a)[:100]), kk + '/coeffs')

LEVELS = {}; VSZ = {}; DEFAULTED = {}
def msize(d):
    fs = d.find('mpart::FixedMultiIndexSet::Size')
    if not fs: return None
    v = VF(d); v.run(fs[0])
    return re.sub(r'(?<![\w.])(isCompressed|nzStarts|nzOrders|dim)\b', r'this.\1', show(v.ret)).replace('this.this.', 'this.') if v.ret is not None else None

def factory_key(c, d):
    rule = 'key is computed from the options and unknown keys are refused'
    fs = [f for f in d.find('mpart::MapFactory::CompFactoryImpl::GetFactoryFunction') if not f.dep]
    for f in fs[:1]:
        v = VF(d); v.run(f); w = f.loc()
        ks = [e for e in v.events if e.k == 'ctor' and e.cls == 'std::tuple' or e.k == 'call' and e.d.get('q') == 'std::make_tuple']
        fd = [e for e in v.events if e.k == 'call' and e.d.get('name') in ('find', 'at', 'count', 'operator[]')]
        if len(ks) != 1 or len(ks[0].args) != 4: c.skip(rule, w, '%d keys' % len(ks)); continue
        a = ks[0].args
        for i, o in ((0, 'basisType'), (2, 'posFuncType'), (3, 'quadType')):
            c.ob(isopt(a[i], o), rule, w, 'key entry %d is %s' % (i, show(a[i])), 'key/%d' % i)
        for lb in (False, True):
            for ub in (False, True):
                try: got = ceval(a[1], infcase(lb, ub))
                except NoVal as ex: c.skip(rule, w, str(ex)); continue
                c.ob(bool(got) == (lb or ub), rule, w, 'linearised = %s for %s lower and %s upper bound' % (bool(got), 'finite' if lb else 'infinite', 'finite' if ub else 'infinite'), 'key/lin/%s/%s' % (lb, ub))
        th = [e for e in v.events if e.k == 'throw']
        at = any(e.d.get('name') == 'at' for e in fd)
        c.ob(bool(th) or at, rule, w, 'unknown keys %s' % ('throw' if th or at else 'are not refused'), 'refuse')
        for e in th:
            g = e.guards[-1] if e.guards else None
            if g is None: c.bad(rule, w, 'every key is refused', 'refuse'); continue
            t, p = g; t0 = t
            while t.op == '!': t = t.a[0]; p = not p
            op = t.op if t.op in ('==', '!=') else None
            if op is None and t.op == 'call' and t.a[0].split('::')[-1] in ('operator==', 'operator!='): op = t.a[0].split('operator')[-1]
            fin = any(x.op == 'call' and x.a[0].split('::')[-1] == 'find' for x in subterms(t)) and any(x.op == 'it' or x.op == 'call' and x.a[0].split('::')[-1] in ('end', 'cend') for x in subterms(t))
            if op is None or not fin: c.skip(rule, w, 'guard ' + show(t0)[:80]); continue
            c.ob((op == '==') == p, rule, w, 'refused when find() %s end()' % ('==' if (op == '==') == p else '!='), 'refuse')
        r = strip(v.ret)
        if at: continue
        ok = r.op == 'fld' and r.a[1] == 'second' and any(x.op == 'call' and x.a[0].split('::')[-1] == 'find' for x in subterms(r))
        if not ok: c.skip(rule, w, 'returns ' + show(r)[:60])
        else: c.ok(rule, w, 'returns the entry found')
    for f in d.find('mpart::MapFactory::CreateComponent')[:1]:
        v = VF(d, noinline=lambda g: g.name == 'GetFactoryFunction'); v.run(f); w = f.loc()
        r = strip(v.ret) if v.ret is not None else None
        nm = [p['n'] for p in f.ps]
        if r is None or r.op != 'call' or r.a[0].split('::')[-1] != 'operator()': c.skip(rule, w, 'CreateComponent returns ' + show(r)[:60]); continue
        xs = [strip(x) for x in r.a[1:] if isinstance(x, Term)]
        ok = xs[0].op == 'call' and xs[0].a[0].split('::')[-1] == 'GetFactoryFunction' and any(nm[1] in y.a for y in subterms(xs[0]) if y.op == 'param')
        ok = ok and len(xs) == 3 and xs[1].op == 'param' and nm[0] in xs[1].a and xs[2].op == 'param' and nm[1] in xs[2].a
        c.ob(ok, rule, w, 'CreateComponent calls the function found for its options with its own arguments: ' + show(r)[:120], 'CreateComponent')

def infcase(lbfin, ubfin, extra=None):
    def env(t):
        if t.op == 'call' and t.a[0].split('::')[-1] in ('isinf', 'isfinite'):
            o = next((x for x in t.a[1:] if isinstance(x, Term)), None)
            for n, fin in (('basisLB', lbfin), ('basisUB', ubfin)):
                if o is not None and isopt(o, n): return (not fin) if 'inf' in t.a[0].split('::')[-1] and 'finite' not in t.a[0] else fin
        if extra is not None: return extra(t)
        return None
    return env

def expansion(c, d):
    rule = 'CreateExpansion builds the basis its options name'
    for f in d.find('mpart::MapFactory::CreateExpansion')[:1]:
        v = VF(d, noinline=lambda g: g.name in ('SetCoeffs', 'WrapCoeffs', 'MultivariateExpansion')); v.run(f); w = f.loc(); nm = [p['n'] for p in f.ps]
        F = fields_of(v)
        for basis in BASES:
            for lb in (False, True):
                for ub in (False, True):
                    kk = 'expansion/%s/%s/%s' % (basis, lb, ub); linr = lb or ub
                    env = infcase(lb, ub, lambda t: T('enum', 'mpart::BasisTypes::' + basis) if t.op == 'fld' and isopt(t, 'basisType') else None)
                    try:
                        cts = [e for e in v.events if e.k == 'ctor' and e.cls == 'mpart::MultivariateExpansion' and live(e, env)]
                        th = [e for e in v.events if e.k == 'throw' and live(e, env)]
                        rt = ceval(v.ret, env) if v.ret is not None else None
                    except NoVal as ex: c.skip(rule, w, '%s: %s' % (kk, ex)); continue
                    if th: c.bad(rule, w, '%s: refused' % kk, kk); continue
                    if len(cts) != 1: c.ob(False, rule, w, '%s: %d expansions built' % (kk, len(cts)), kk) if not cts else c.skip(rule, w, kk); continue
                    e = cts[0]
                    want = BASES[basis]; want = 'mpart::LinearizedBasis<%s>' % want if linr else want
                    ty = v.types.get(e.obj, ''); ty = e.d.get('ty') or ty
                    m = re.search(r'mpart::MultivariateExpansion<', ty); got = targs(ty[m.start():])[0] if m else ty
                    a = [strip(x) for x in e.args]
                    ok = got == want and len(a) == 3 and a[0].op in ('param', 'var') and nm[0] in a[0].a and a[1].op == 'param' and nm[1] in a[1].a and (rt is e.obj)
                    det = '%s: MultivariateExpansion<%s>(%s)' % (kk, got, ', '.join(show(x)[:40] for x in a))
                    if ok:
                        b = a[2]; fb = F.get(b, {})
                        for fld, o in ((('lb_', 'basisLB'), ('ub_', 'basisUB')) if linr else ()):
                            if fld in fb and not isopt(fb[fld][0], o): ok = False; det += '; %s = %s' % (fld, show(fb[fld][0]))
                        if linr and 'polyBasis_' in fb: b = strip(fb['polyBasis_'][0]); fb = F.get(b, {})
                        if basis != 'HermiteFunctions' and 'normalize_' in fb and not isopt(fb['normalize_'][0], 'basisNorm'): ok = False; det += '; normalize_ = ' + show(fb['normalize_'][0])
                    c.ob(ok, rule, w, det, kk)

def triangular(c, d):
    rule = 'CreateTriangular builds one component per output with its own dimension'
    for f in d.find('mpart::MapFactory::CreateTriangular')[:1]:
        v = VF(d, noinline=lambda g: g.name in ('CreateComponent', 'FixedMultiIndexSet', 'TriangularMap', 'SetCoeffs')); v.run(f); w = f.loc(); nm = [p['n'] for p in f.ps]
        cc = [e for e in v.events if e.k == 'call' and e.d.get('name') == 'CreateComponent']
        if len(cc) != 1 or len(cc[0].loops) != 1: c.skip(rule, w, '%d component calls' % len(cc)); continue
        e = cc[0]; ms = strip(e.args[0])
        while ms.op == 'call' and ms.a[0].split('::')[-1] in ('ToDevice', 'ToHost'): ms = strip(next(x for x in ms.a[1:] if isinstance(x, Term)))
        c.ob(strip(e.args[1]).op in ('param', 'var') and nm[3] in strip(e.args[1]).a, rule, w, 'options passed on: ' + show(e.args[1])[:60], 'tri/options')
        if ms.op != 'obj' or 'FixedMultiIndexSet' not in ms.a[0]: c.skip(rule, w, show(ms)[:60]); continue
        xs = [x for x in ms.a[1:] if isinstance(x, Term)]
        L = v.loops.get(e.loops[-1]); ix = [x for x in subterms(xs[0]) if x.op == 'lidx']
        rg = lidx_range(v, ix[0]) if ix else None
        pn = lambda n: (lambda t: (n if t.op in ('param', 'var') and n in t.a else None))
        def case(i, ind, outd):
            def env(t):
                if t.op == 'lidx': return i
                if t.op in ('param', 'var'):
                    if nm[0] in t.a: return ind
                    if nm[1] in t.a: return outd
                    if nm[2] in t.a: return 7
                return None
            return env
        try:
            for ind, outd in ((4, 3), (5, 5), (6, 1)):
                lo, hi = (ceval(rg[0], case(0, ind, outd)), ceval(rg[1], case(0, ind, outd))) if rg else (None, None)
                if rg is None: raise NoVal('loop')
                idx = sorted(range(lo, hi, rg[2]))
                dims = [ceval(xs[0], case(i, ind, outd)) for i in idx]; orders = [ceval(xs[1], case(i, ind, outd)) for i in idx]
                want = [ind - outd + 1 + k for k in range(outd)]
                c.ob(dims == want and all(o == 7 for o in orders), rule, w, '%d inputs, %d outputs: component dimensions %s' % (ind, outd, dims), 'tri/dims')
                wr = [q for q in v.events if q.k == 'write' and q.loc.op == 'idx' and any(y.op == 'call' and y.a[0].split('::')[-1] == 'CreateComponent' for y in subterms(q.val))]
                if len(wr) == 1:
                    pos = [ceval(wr[0].loc.a[1], case(i, ind, outd)) for i in idx]
                    vec = strip(wr[0].loc.a[0]); n = [x for x in vec.a[1:] if isinstance(x, Term)] if vec.op == 'obj' else []
                    size = ceval(n[0], case(0, ind, outd)) if n else None
                    c.ob(pos == list(range(outd)) and (size is None or size == outd), rule, w, 'components stored at %s of %s' % (pos, size), 'tri/order')
                    r = strip(v.ret); rx = [strip(x) for x in r.a[1:] if isinstance(x, Term)] if r.op == 'obj' else []
                    c.ob(r.op == 'obj' and 'TriangularMap' in r.a[0] and vec in rx, rule, w, 'returns ' + show(r)[:80], 'tri/ret')
                elif not wr and not any(q.k == 'call' and q.d.get('name') in ('push_back', 'emplace_back') for q in v.events): c.bad(rule, w, 'components are not stored', 'tri/order')
        except NoVal as ex: c.skip(rule, w, str(ex))

def single(c, d):
    rule = 'CreateSingleEntryMap is the identity around the given component'
    for f in d.find('mpart::MapFactory::CreateSingleEntryMap')[:1]:
        v = VF(d, noinline=lambda g: g.name in ('TriangularMap', 'SetCoeffs', 'IdentityMap')); v.run(f); w = f.loc(); nm = [p['n'] for p in f.ps]
        for dim, act, cin in ((5, 1, 1), (5, 3, 3), (5, 5, 5), (2, 1, 1), (2, 2, 2), (3, 4, 4), (5, 3, 2), (5, 1, 2), (5, 5, 4)):
            kk = 'single/%d/%d/%d' % (dim, act, cin)
            def env(t):
                if t.op in ('param', 'var'):
                    if nm[0] in t.a: return dim
                    if nm[1] in t.a: return act
                if t.op == 'fld' and t.a[1] == 'inputDim' and strip(t.a[0]).op == 'param' and nm[2] in strip(t.a[0]).a: return cin
                return None
            try:
                th = any(e.k == 'throw' and live(e, env) for e in v.events)
                bad = act > dim or cin != act
                if bad or th:
                    c.ob(bad and th, rule, w, 'dim %d, active index %d, component with %d inputs: %s' % (dim, act, cin, 'refused' if th else 'accepted'), kk); continue
                r = strip(ceval(v.ret, env))
                ct = [e for e in v.events if e.k == 'ctor' and e.cls == 'mpart::TriangularMap' and e.obj is r and live(e, env)]
                if len(ct) != 1: c.skip(rule, w, kk + ': ' + show(r)[:40]); continue
                vec = strip(ct[0].args[0]); blocks = {}; n = 0
                if vec.op == 'obj':
                    xs = [x for x in vec.a[1:] if isinstance(x, Term) and not (x.op == 'obj' and 'allocator' in x.a[0])]
                    if len(xs) == 1 and strip(xs[0]).op == 'list': 
                        for i, x in enumerate(strip(xs[0]).a): blocks[i] = strip(x)
                        n = len(blocks)
                    elif xs: n = ceval(xs[0], env)
                for e in v.events:
                    if e.k == 'write' and e.loc.op == 'idx' and strip(e.loc.a[0]) is vec and live(e, env): blocks[ceval(e.loc.a[1], env)] = strip(e.val)
                    if e.k == 'call' and e.d.get('name') in ('push_back', 'emplace_back') and strip(e.obj) is vec and live(e, env): blocks[n] = strip(e.args[0]); n += 1
                if sorted(blocks) != list(range(n)): c.skip(rule, w, '%s: blocks %s of %d' % (kk, sorted(blocks), n)); continue
                seq = []
                for i in range(n):
                    b = blocks[i]
                    if b.op == 'param' and nm[2] in b.a: seq.append('comp'); continue
                    b = ceval(b, env)
                    if b.op == 'obj' and 'IdentityMap' in b.a[0]:
                        xs = [ceval(x, env) for x in b.a[1:] if isinstance(x, Term)]
                        if xs[1] > 0: seq.append(tuple(xs))
                    elif b.op == 'param' and nm[2] in b.a: seq.append('comp')
                    else: raise NoVal(show(b)[:40])
                want = ([(act - 1, act - 1)] if act > 1 else []) + ['comp'] + ([(dim, dim - act)] if act < dim else [])
                c.ob(seq == want, rule, w, 'dim %d, active index %d: blocks %s' % (dim, act, seq), kk)
            except NoVal as ex: c.skip(rule, w, '%s: %s' % (kk, ex))

def zerocoeffs(c, d):
    rule = 'created maps and expansions start with a full set of zero coefficients'
    for name in ('CreateTriangular', 'CreateExpansion', 'CreateSingleEntryMap'):
        for f in d.find('mpart::MapFactory::' + name)[:1]:
            v = VF(d, noinline=lambda g: g.name in ('CreateComponent', 'FixedMultiIndexSet', 'TriangularMap', 'SetCoeffs', 'WrapCoeffs', 'IdentityMap', 'MultivariateExpansion')); v.run(f); w = f.loc()
            sc = [e for e in v.events if e.k == 'call' and e.d.get('name') in ('SetCoeffs', 'WrapCoeffs') and strip(e.obj) is strip(v.ret)]
            if not sc: c.ob(False, rule, w, name + ' never sets coefficients', name) if not any(e.k == 'call' and e.d.get('name') in ('SetCoeffs', 'WrapCoeffs') for e in v.events) else c.skip(rule, w, name); continue
            for e in sc:
                a = strip(e.args[0]); xs = [x for x in a.a[1:] if isinstance(x, Term)] if a.op == 'obj' else []
                if a.op != 'obj' or 'View' not in a.a[0] or len(xs) != 2 or xs[0].op != 'str': c.skip(rule, w, '%s: %s' % (name, show(a)[:60])); continue
                lv = []
                def leaves(t):
                    t = strip(t)
                    if t.op == 'ite': leaves(t.a[1]); leaves(t.a[2])
                    elif t.op == 'fld' and strip(t.a[0]).op == 'ite':
                        for b in strip(t.a[0]).a[1:]: leaves(T('fld', b, t.a[1]))
                    elif t.op == 'fld' and strip(t.a[0]).op == 'null': pass
                    else: lv.append(t)
                leaves(xs[1])
                if all(n.op == 'fld' for n in lv): c.ob(all(n.a[1] == 'numCoeffs' for n in lv), rule, w, '%s: View of %s entries' % (name, '/'.join(sorted({str(n.a[1]) for n in lv}))), name)
                else: c.skip(rule, w, '%s: %s' % (name, show(xs[1])[:60]))

def equality(c, d):
    rule = 'two option sets are equal exactly when every option is'
    cl = d.cls('mpart::MapOptions')
    if cl is None: return
    flds = [x['n'] for x in cl['fields']]
    for f in d.find('mpart::MapOptions::operator==')[:1]:
        v = VF(d); v.run(f); w = f.loc()
        for diff in [None] + flds:
            def env(t):
                if t.op in ('==', '!=') and len(t.a) == 2:
                    a, b = strip(t.a[0]), strip(t.a[1])
                    if a.op == 'fld' and b.op == 'fld':
                        if a.a[1] == b.a[1] and a is not b: return (a.a[1] != diff) == (t.op == '==')
                        return ('%s vs %s' % (a.a[1], b.a[1])) and None
                return None
            try: got = bool(ceval(v.ret, env))
            except NoVal as ex: c.skip(rule, w, str(ex)); continue
            c.ob(got == (diff is None), rule, w, '%s: equal = %s' % ('all options agree' if diff is None else '%s differs' % diff, got), 'eq/%s' % diff)

def check():
    c = Check('C09', RULE); LEVELS.clear()
    d = DB(sorted(glob.glob(REPO + '/src/MapFactoryImpl*.cpp')) + [REPO + '/src/MapFactory.cpp'], max_inst=60, keep_variants=60)
    en = {k.split('::')[-1]: [x['n'] if isinstance(x, dict) else x for x in (e.get('vals') or e.get('items') or e.get('es') or [])] for k, e in d.enums.items() if k.startswith('mpart::') and k.split('::')[-1] in ('BasisTypes', 'PosFuncTypes', 'QuadTypes')}
    rule = 'one registered function per option combination'
    regs = registrations(d); c.count('registrations', len(regs))
    by = {}
    lit = [r for r in regs if r[0] is not None and r[1] is not None]
    for r in lit: by.setdefault(r[0], []).append(r)
    allk = [(b, l, p, q) for b in (en.get('BasisTypes') or BASES) for l in (False, True) for p in (en.get('PosFuncTypes') or POS) for q in (en.get('QuadTypes') or QUAD)]
    for k in allk:
        kk = '%s/%s/%s/%s' % (k[0], 'linear' if k[1] else 'plain', k[2], k[3]); r = by.get(k, [])
        if not r and len(lit) < len(regs) or not lit: c.skip(rule, 'src/MapFactory.cpp', '%s: registrations not literal' % kk); continue
        c.ob(len(r) == 1, rule, r[0][2] if r else 'src/MapFactoryImpl*.cpp', '%s: %d registrations%s' % (kk, len(r), '' if len(r) < 2 else ' (%s; which one wins depends on initialisation order)' % ', '.join(x[2] for x in r)), kk)
    cmap = ctor_map(d, 'mpart::MonotoneComponent', 4)
    for k, r in sorted(by.items(), key=str):
        if k[0] not in BASES or k[2] not in POS or k[3] not in QUAD: c.skip('registered function builds the component its key names', r[0][2], 'unknown option value'); continue
        for key, fn, w in r:
            f = d.callee(fn['u'], None, fn.get('iu'))
            if f is None or f.body is None: c.skip('registered function builds the component its key names', w, fn.get('q')); continue
            c.count('registered functions analysed')
            try: creator(c, d, k, f, cmap)
            except NoVal as ex: c.skip('registered function builds the component its key names', w, str(ex))
    for fld, m in LEVELS.items():
        if len(m) > 1:
            top = max(m.values(), key=len)
            for s, l in m.items():
                if l is not top and len(top) > len(l):
                    for w, n, kk in l: c.bad('adaptive Clenshaw-Curtis levels agree between the factories', w, '%s sizes %s as %s, the others as %s' % (n, fld, s[:80], [x for x in m if m[x] is top][0][:80]), kk + '/' + fld)
        else: c.ok('adaptive Clenshaw-Curtis levels agree between the factories', 'src/MapFactoryImpl*.cpp', fld)
    factory_key(c, d); expansion(c, d); triangular(c, d); single(c, d); zerocoeffs(c, d); equality(c, d)
    c.need('one registered function per option combination', 12)
    c.assume('static initialisers of every MapFactoryImpl translation unit run before the factory is used (they are linked into the same shared library)')
    return c
