"""C19: densities, samplers and objectives are the stated combinations of their map and base distribution."""
import os, re, math
from fractions import Fraction
from harness import Check
from db import DB, REPO, VERIF, CheckError, strip_targs
from vf import VF, T, Term, INT, show, subterms
from matnf import Mat, L, lin, lshow, lmul, ladd, lmap, had, summed, cancel, Unknown
from util import ceval, live, NoVal

RULE = ("Replay of every density, sampler and objective operation at matrix level with map and base-distribution operations uninterpreted: per configuration case (mean present/absent, full/identity covariance) "
        "the content of the output (or the returned scalar) must be the required expression; constructors must refuse exactly the mismatched dimensions and store what they are given; "
        "seeds reach every generator; test and training data are not exchanged.")

def sy(n): return L({n: 1})
D, P, Q = sy('d'), sy('p'), sy('q')
def strip(t):
    while isinstance(t, Term) and t.op in ('copy', 'cast') and isinstance(t.a[0], Term): t = t.a[0]
    return t
fz = lambda x: frozenset(x.items())
def fn(name, *xs): return lin((1, (name,) + tuple(fz(x) if isinstance(x, dict) else x for x in xs)))

# method -> (function, indices of array arguments, rank of result); the ...Impl form writes its last argument
FUN = {'Evaluate': ('T', 1, 2), 'LogDeterminant': ('logdet', 1, 1), 'Gradient': ('grad', 2, 2), 'CoeffGrad': ('cgrad', 2, 2), 'LogDeterminantInputGrad': ('dlogdet_dx', 1, 2),
       'LogDeterminantCoeffGrad': ('dlogdet_dc', 1, 2), 'Inverse': ('Tinv', 2, 2), 'LogDensity': ('logp', 1, 1), 'LogDensityInputGrad': ('dlogp_dx', 1, 2), 'LogDensityCoeffGrad': ('dlogp_dc', 1, 2), 'Sample': ('sample', 0, 2)}
ROWS = {'T': 'out', 'grad': 'in', 'cgrad': 'coef', 'dlogdet_dx': 'in', 'dlogdet_dc': 'coef', 'Tinv': 'out', 'dlogp_dx': 'arg', 'dlogp_dc': 'coef', 'sample': 'out'}

class Rep(Mat):
    """Mat with the operations of maps and densities uninterpreted"""
    def owner(self, o):
        o = self.resolve(o) if o is not None else None
        if o is None: return '?'
        n = self.name(o)
        if n is not None: return n
        if o.op == 'obj' and 'PullbackDensity' in o.a[0]: return 'pullback(%s)' % ','.join(self.owner(x) for x in o.a[1:] if isinstance(x, Term))
        return show(o)[:40]
    def opcall(self, e):
        nm = e.d.get('name', ''); impl = nm.endswith('Impl'); base = nm[:-4] if impl else nm
        if base not in FUN: return False
        f, na, rk = FUN[base]; own = self.owner(e.d.get('obj')); a = [strip(x) for x in e.args]
        xs = []
        for t in a[:na]:
            sh = self.shape(t)
            if len(sh) == 2 and not sh[0].c: xs.append({(('empty',), 'one'): 1}); continue
            xs.append(self.content(t))
        if f == 'sample':
            n = self.shape(a[-1])[1] if impl else self.size(a[0])
            x = lin((1, ('sample', own) if str(n) == 'p' else ('sample', own, 'in number %s' % n)))
            if impl: self.put(a[-1], x)
            else: self.tshape[e.val] = (D, self.size(a[0])); self.put(e.val, x)
            return True
        x = fn(f, own, *xs)
        if impl: self.put(a[-1], x)
        else:
            cols = self.shape(a[na - 1])[1]
            rows = {'out': sy('out:' + own), 'in': sy('in:' + own), 'coef': sy('coef:' + own), 'arg': self.shape(a[0])[0]}.get(ROWS.get(f))
            if f == 'T' or f == 'Tinv': rows = self.dims.get(('out', own), rows)
            if f in ('grad', 'dlogdet_dx'): rows = self.dims.get(('in', own), rows)
            if f in ('cgrad', 'dlogdet_dc', 'dlogp_dc'): rows = self.dims.get(('coef', own), rows)
            self.tshape[e.val] = (rows, cols) if rk == 2 else (cols,)
            self.put(e.val, x)
        return True
    dims = {}
    def docall(self, e):
        if self.opcall(e): return
        nm = e.d.get('name', '')
        if nm in ('solveInPlaceL', 'solveInPlace'):
            x = self.content(e.args[0]); self.put(e.args[0], lin((1, (nm, self.owner(e.obj), fz(x)))))
        elif nm in ('multiplyL',):
            x = self.content(e.args[0]); self.tshape[e.val] = self.shape(e.args[0]); self.put(e.val, lin((1, (nm, self.owner(e.obj), fz(x)))))
        else: super().docall(e)

def norm(t):
    """normal variate from the generator of this object"""
    return lin((1, 'normal'))

def outterm(v, f, i):
    nm = f.ps[i]['n']
    for e in v.events:
        for x in e.d.values():
            for t in (x if isinstance(x, list) else [x]):
                if isinstance(t, Term):
                    for y in subterms(t):
                        if y.op == 'param' and nm in y.a: return y
    return T('param', nm)

def op_ob(c, v, f, mat, out, want, rule, case, key):
    w = f.loc()
    try:
        r = mat.run(v.events)
        if r == 'throw': c.bad(rule, w, '%s [%s]: throws' % (f.cq, case), key); return
        g = cancel(mat.content(out)); want = cancel(want)
        c.ob(g == want, rule, w, '%s [%s]: output = %s, required %s' % (f.cq, case, lshow(g), lshow(want)), key)
    except (Unknown, NoVal) as ex: c.skip(rule, w, '%s [%s]: %s' % (f.cq, case, ex))

def IN(n): return lin((1, ('in', n)))
def FL(n): return lin((1, ('fld', n)))

def scal_ob(c, v, f, mat, want, rule, case, key):
    w = f.loc()
    try:
        r = mat.run(v.events)
        if r == 'throw': c.bad(rule, w, '%s [%s]: throws' % (f.cq, case), key); return
        g = cancel(mat.ex(strip(v.ret))); want = cancel(want)
        c.ob(g == want, rule, w, '%s [%s]: returns %s, required %s' % (f.cq, case, lshow(g), lshow(want)), key)
    except (Unknown, NoVal) as ex: c.skip(rule, w, '%s [%s]: %s' % (f.cq, case, ex))

# ---- Gaussian
def gaussian(c, d):
    rule = 'Gaussian density and sampler match mean and covariance'
    cls = 'mpart::GaussianSamplerDensity'
    for op, oi in (('LogDensityImpl', 1), ('LogDensityInputGradImpl', 1), ('SampleImpl', 0)):
        for f in [f for f in d.find('%s::%s' % (cls, op)) if not f.dep][:1]:
            v = VF(d, noinline=lambda g: g.name in ('solveInPlaceL', 'solveInPlace', 'multiplyL', 'compute', 'determinant')); v.run(f); c.count('operations')
            nm = [p['n'] for p in f.ps]
            for mean in (True, False):
                for idc in (True, False):
                    sh = {nm[0]: (D, P), 'mean_': (D if mean else L(),)}
                    if op == 'LogDensityImpl': sh[nm[1]] = (P,)
                    elif oi: sh[nm[1]] = (D, P)
                    def facts(mat, t, idc=idc):
                        if t.op == 'fld' and t.a[1] == 'idCov_': return idc
                        return None
                    mat = Rep(v, sh, {'dim_': D}, facts, outs=(nm[oi],))
                    mat.hooks = {'normal': lambda m, t: norm(t)}
                    case = '%s, %s covariance' % ('mean set' if mean else 'no mean', 'identity' if idc else 'full')
                    x = IN(nm[0]); mb = lin((1, ('bc', ('fld', 'mean_')))) if mean else {}
                    if op == 'LogDensityImpl':
                        y = ladd(x, mb, -1)
                        if not idc: y = lin((1, ('solveInPlaceL', 'covChol_', fz(y))))
                        want = lmul({((), 'one'): Fraction(-1, 2)}, ladd(summed(had(y, y), 0, lin((('d',), 'one'))), ladd({(('d', 'logtau_'), 'one'): Fraction(1)}, {(('logDetCov_',), 'one'): Fraction(1)})))
                    elif op == 'LogDensityInputGradImpl':
                        want = ladd(mb, x, -1)
                        if not idc: want = lin((1, ('solveInPlace', 'covChol_', fz(want))))
                    else:
                        want = lin((1, 'normal'))
                        if not idc: want = lin((1, ('multiplyL', 'covChol_', fz(want))))
                        want = ladd(want, mb)
                    op_ob(c, v, f, mat, outterm(v, f, oi), want, rule, case, '%s/%s/%s' % (op, mean, idc))
    rule = 'Gaussian operations refuse points of another dimension'
    for op in ('LogDensityImpl', 'LogDensityInputGradImpl', 'SampleImpl'):
        for f in [f for f in d.find('%s::%s' % (cls, op)) if not f.dep][:1]:
            v = VF(d, noinline=lambda g: g.name in ('solveInPlaceL', 'solveInPlace', 'multiplyL')); v.run(f); w = f.loc(); n0 = f.ps[0]['n']
            for m in (2, 3, 4):
                def env(t):
                    if t.op == 'ext' and strip(t.a[0]).op == 'param' and n0 in strip(t.a[0]).a: return m if t.a[1] in (0, INT(0)) else 5
                    if t.op == 'fld' and t.a[1] == 'dim_': return 3
                    if t.op == 'call' and t.a[0].split('::')[-1] == 'Dim': return 3
                    return None
                try: th = any(e.k == 'throw' and not e.loops and live(e, env) for e in v.events)
                except NoVal as ex: c.skip(rule, w, '%s: %s' % (op, ex)); continue
                c.ob(th == (m != 3), rule, w, '%s on %d-dimensional points with dimension 3: %s' % (op, m, 'refused' if th else 'accepted'), '%s/%d' % (op, m))
    # constructors
    rule = 'constructors store what they are given and refuse mismatched dimensions'
    for f in d.methods(cls, 'GaussianSamplerDensity'):
        if f.dep or not f.d.get('isctor', True) or len(f.ps) > 2 or any('GaussianSamplerDensity' in p['t'] for p in f.ps): continue
        v = VF(d, noinline=lambda g: g.name in ('compute', 'determinant')); v.run(f); w = f.loc(); c.count('constructors')
        kinds = ['mean' if 'StridedVector' in p['t'] or 'View<double *,' in p['t'] else 'covar' if '**' in p['t'] or 'Matrix' in p['t'] else 'dim' for p in f.ps]
        F = {}
        for e in v.events:
            if e.k in ('init', 'write') and e.loc.op == 'fld' and not e.loops: F[str(e.loc.a[1])] = strip(e.val)
        cp = [e for e in v.events if e.k == 'call' and e.d.get('name') == 'compute']
        nm = [p['n'] for p in f.ps]; key = '/'.join(kinds)
        def orig(t):
            t = strip(t)
            for e in v.events:
                if e.k == 'deep_copy' and not e.guards and strip(e.dst) is t and t.op == 'obj': return orig(e.src)
            return t
        isp = lambda t, n: t is not None and any(y.op == 'param' and n in y.a for y in ([strip(t)]))
        if 'covar' in kinds:
            n = nm[kinds.index('covar')]
            c.ob(len(cp) == 1 and not cp[0].guards and isp(orig(cp[0].args[0]), n), rule, w, 'GaussianSamplerDensity(%s): factorises %s' % (key, [show(e.args[0])[:40] for e in cp]), key + '/factor') if len(cp) <= 1 and not (cp and cp[0].guards) else c.skip(rule, w, key)
            ld = F.get('logDetCov_')
            if ld is None: c.bad(rule, w, 'GaussianSamplerDensity(%s): log determinant not stored' % key, key + '/logdet')
            else:
                ok = ld.op == 'call' and ld.a[0].split('::')[-1] == 'log' and any(y.op == 'call' and y.a[0].split('::')[-1] == 'determinant' for y in ld.a[1:] if isinstance(y, Term))
                c.ob(ok, rule, w, 'GaussianSamplerDensity(%s): logDetCov_ = %s' % (key, show(ld)[:60]), key + '/logdet') if ok or ld.op in ('int', 'num', 'flt') or 'determinant' in show(ld) else c.skip(rule, w, show(ld)[:60])
        idc = F.get('idCov_')
        if idc is not None and idc.op in ('bool', 'int'): c.ob(bool(idc.a[0]) == ('covar' not in kinds), rule, w, 'GaussianSamplerDensity(%s): identity covariance = %s' % (key, bool(idc.a[0])), key + '/idcov')
        else: c.skip(rule, w, '%s idCov_' % key)
        m = F.get('mean_')
        if m is not None: m = orig(m)
        filled = m is not None and m.op == 'obj' and any(e.k in ('deep_copy', 'write') and any(y is m for y in subterms(e.dst if e.k == 'deep_copy' else e.loc)) for e in v.events)
        if 'mean' in kinds: c.ob(isp(m, nm[kinds.index('mean')]), rule, w, 'GaussianSamplerDensity(%s): mean_ = %s' % (key, show(m) if m is not None else 'unset'), key + '/mean') if m is None or m.op == 'param' or m.op == 'obj' and not filled else c.skip(rule, w, show(m)[:60])
        for e in v.events:
            if e.k == 'init' and e.loc.op == 'fld' and str(e.loc.a[1]) == 'dim_':
                t = strip(e.val); n0 = nm[0]
                ok = t.op == 'ext' and isp(t.a[0], n0) or isp(t, n0) and kinds[0] == 'dim'
                if 'mean' in kinds and 'covar' in kinds and t.op == 'ext': ok = True
                c.ob(ok, rule, w, 'GaussianSamplerDensity(%s): dimension %s' % (key, show(t)), key + '/dim') if ok or t.op in ('int',) else c.skip(rule, w, show(t)[:60])
        ini = F.get('logtau_')
        if ini is not None:
            def penv(t):
                if t.op == 'glob' and 'pi_v' in str(t.a[0]): return math.pi
                if t.op == 'call' and t.a[0].split('::')[-1] in ('log', 'atan', 'acos', 'sqrt', 'exp'):
                    return getattr(math, t.a[0].split('::')[-1])(ceval(next(y for y in t.a[1:] if isinstance(y, Term)), penv))
                return None
            try: val = float(ceval(ini, penv)); c.ob(abs(val - math.log(2 * math.pi)) < 1e-12, rule, w, 'logtau_ = %s' % show(ini)[:60], key + '/tau')
            except (NoVal, TypeError, ValueError) as ex: c.skip(rule, w, 'logtau_ = ' + show(ini)[:60])

# ---- transported densities and samplers
def transported(c, d):
    rule = 'transported density or sampler combines map and base as stated'
    def go(cls, op, oi, want, shapes, dims, case=''):
        for f in [f for f in d.find('mpart::%s::%s' % (cls, op)) if not f.dep][:1]:
            v = VF(d, noinline=lambda g: g.name in FUN or g.name[:-4] in FUN and g.name.endswith('Impl')); v.run(f); c.count('operations')
            nm = [p['n'] for p in f.ps]; sh = {n: s for n, s in zip(nm, shapes)}
            mat = Rep(v, sh, {'dim_': D}, None, outs=(nm[oi],)); mat.dims = dims
            op_ob(c, v, f, mat, outterm(v, f, oi), want(nm), rule, case or 'any map', '%s::%s' % (cls, op))
    dm = {('out', 'map_'): D, ('in', 'map_'): Q, ('coef', 'map_'): sy('coef:map_'), ('in', 'density_'): D}
    X = lambda nm: IN(nm[0])
    mp = lambda nm: fn('T', 'map_', X(nm))
    go('PullbackDensity', 'LogDensityImpl', 1, lambda nm: ladd(fn('logp', 'density_', mp(nm)), fn('logdet', 'map_', X(nm))), [(Q, P), (P,)], dm)
    go('PullbackDensity', 'LogDensityInputGradImpl', 1, lambda nm: ladd(fn('grad', 'map_', X(nm), fn('dlogp_dx', 'density_', mp(nm))), fn('dlogdet_dx', 'map_', X(nm))), [(Q, P), (Q, P)], dm)
    go('PullbackDensity', 'LogDensityCoeffGradImpl', 1, lambda nm: ladd(fn('cgrad', 'map_', X(nm), fn('dlogp_dx', 'density_', mp(nm))), fn('dlogdet_dc', 'map_', X(nm))), [(Q, P), (sy('coef:map_'), P)], dm)
    sq = dict(dm); sq[('in', 'map_')] = D
    EMPTY = {(('empty',), 'one'): 1}
    inv = lambda x: fn('Tinv', 'map_', EMPTY, x)
    go('PushforwardDensity', 'LogDensityImpl', 1, lambda nm: ladd(fn('logp', 'density_', inv(X(nm))), fn('logdet', 'map_', inv(X(nm))), -1), [(D, P), (P,)], sq)
    sm = lin((1, ('sample', 'sampler_')))
    go('PullbackSampler', 'SampleImpl', 0, lambda nm: inv(sm), [(D, P)], sq)
    go('PushforwardSampler', 'SampleImpl', 0, lambda nm: fn('T', 'map_', sm), [(D, P)], sq)
    # public coefficient gradient: shape and content
    rule = 'coefficient gradient returns one row per coefficient'
    for f in [f for f in d.find('mpart::PullbackDensity::LogDensityCoeffGrad') if not f.dep]:
        v = VF(d, noinline=lambda g: g.name in FUN or g.name[:-4] in FUN and g.name.endswith('Impl')); v.run(f); w = f.loc(); c.count('operations')
        eig = 'Eigen' in f.ps[0]['t']; key = 'LogDensityCoeffGrad/' + ('matrix' if eig else 'array'); n0 = f.ps[0]['n']
        cl = [e for e in v.events if e.k == 'call' and e.d.get('name', '').startswith('LogDensity')]
        r = strip(v.ret)
        def root(t):
            t = strip(t)
            while t.op in ('data',) or t.op == 'obj' and t.a[0] == 'Eigen::Ref' and any(isinstance(x, Term) for x in t.a[1:]) or t.op == 'obj' and t.a[0] in ('Kokkos::View', 'Eigen::Map') and any(x.op == 'data' for x in t.a[1:] if isinstance(x, Term)) or t.op == 'call' and t.a[0].split('::')[-1] in ('data',):
                t = strip(next(x for x in t.a[1 if t.op == 'obj' or t.op == 'call' else 0:] if isinstance(x, Term)))
            return t
        if len(cl) != 1 or cl[0].guards or r.op != 'obj': c.skip(rule, w, '%d calls, returns %s' % (len(cl), show(r)[:40])); continue
        e = cl[0]
        ok = e.d['name'] in ('LogDensityCoeffGradImpl', 'LogDensityCoeffGrad') and strip(e.obj if e.obj is not None else T('this')).op == 'this'
        c.ob(ok and root(e.args[-1]) is r and n0 in root(e.args[0]).a, rule, w, 'returns what %s(%s) wrote' % (e.d['name'], ', '.join(show(x)[:40] for x in e.args)), key + '/call')
        xs = [strip(x) for x in r.a[1:] if isinstance(x, Term) and x.op != 'str']
        rows = xs[0] if xs else None
        if rows is not None and (rows.op == 'fld' or rows.op == 'call'):
            good = rows.op == 'fld' and rows.a[1] == 'numCoeffs'
            c.ob(good, rule, w, 'result has %s rows' % show(rows), key + '/rows')
        else: c.skip(rule, w, 'rows ' + (show(rows) if rows is not None else '?'))
    # constructors
    rule = 'constructors store what they are given and refuse mismatched dimensions'
    for cls, tests in (('PullbackDensity', [('outputDim', 'Dim')]), ('PushforwardDensity', [('inputDim', 'Dim'), ('outputDim', 'inputDim')]), ('PullbackSampler', [('outputDim', 'Dim'), ('inputDim', 'outputDim')]), ('PushforwardSampler', [('outputDim', 'Dim'), ('inputDim', 'outputDim')])):
        for f in d.methods('mpart::' + cls, cls):
            if f.dep or len(f.ps) != 2: continue
            v = VF(d); v.run(f); w = f.loc(); nm = [p['n'] for p in f.ps]; c.count('constructors')
            st = {}
            for e in v.events:
                if e.k == 'init' and e.loc.op == 'fld': st[str(e.loc.a[1])] = strip(e.val)
            for fld, i in (('map_', 0), ('density_' if 'Density' in cls else 'sampler_', 1)):
                t = st.get(fld)
                if t is None: c.skip(rule, w, '%s: %s' % (cls, fld))
                else: c.ob(t.op == 'param' and nm[i] in t.a, rule, w, '%s: %s = %s' % (cls, fld, show(t)), '%s/%s' % (cls, fld))
            for i, o, dm_ in ((2, 2, 2), (3, 2, 2), (2, 2, 3), (3, 2, 3), (2, 3, 2), (2, 3, 3), (3, 3, 2)):
                val = {'inputDim': i, 'outputDim': o, 'Dim': dm_}
                must = any(val[a] != val[b] for a, b in tests)
                def env(t, val=val):
                    if t.op == 'fld' and t.a[1] in ('inputDim', 'outputDim'): return val[t.a[1]]
                    if t.op == 'fld' and t.a[1] == 'dim_': return val['Dim']
                    if t.op == 'call' and t.a[0].split('::')[-1] == 'Dim': return val['Dim']
                    return None
                try: th = any(e.k == 'throw' and live(e, env) for e in v.events)
                except NoVal as ex: c.skip(rule, w, str(ex)); continue
                c.ob(th == must, rule, w, '%s with a %d to %d map and dimension %d: %s' % (cls, i, o, dm_, 'refused' if th else 'accepted'), '%s/refuse' % cls)
    rule = 'seed reaches every generator'
    for cls in ('PullbackSampler', 'PushforwardSampler'):
        for f in d.methods('mpart::' + cls, 'SetSeed'):
            if f.dep: continue
            v = VF(d, noinline=lambda g: g.name == 'SetSeed' and g.cq.startswith('mpart::SampleGenerator') and False); v.run(f); w = f.loc(); n = f.ps[0]['n']
            inner = [e for e in v.events if e.k == 'call' and e.d.get('name') == 'SetSeed' and strip(e.obj).op == 'fld' and strip(e.obj).a[1] == 'sampler_']
            c.ob(len(inner) >= 1 and not inner[0].guards and n in strip(inner[0].args[0]).a, rule, w, '%s::SetSeed passes the seed to its sampler' % cls, cls)

    for f in [f for f in d.methods('mpart::SampleGenerator', 'SetSeed') + d.methods('mpart::SampleGenerator', 'SampleGenerator') if not f.dep]:
        sd = [q['n'] for q in f.ps if 'seed' in q['n'].lower()] or [f.ps[-1]['n']]
        if not f.ps or 'SampleGenerator' in f.ps[0]['t']: continue
        v = VF(d); v.run(f); w = f.loc()
        ws = [e for e in v.events if e.k in ('write', 'init') and e.loc.op == 'fld' and e.loc.a[1] == 'rand_pool']
        if not ws: c.skip(rule, w, '%s: generator not set here' % f.name); continue
        ok = any(not e.guards and any(x.op == 'param' and sd[0] in x.a for x in subterms(e.val)) for e in ws)
        c.ob(ok, rule, w, '%s sets the generator from %s' % (f.name, ', '.join(show(e.val)[:50] for e in ws)), f.name)
    rule = 'array reductions start from zero and combine partial sums'
    for f in [f for f in d.methods('mpart::ReduceDim', 'join') + d.methods('mpart::ReduceDim', 'init') if not f.dep][:4]:
        v = VF(d); v.run(f); w = f.loc(); nm = [q['n'] for q in f.ps]
        ws = [e for e in v.events if e.k == 'write' and e.loc.op == 'idx' and nm[0] in strip(e.loc.a[0]).a]
        if len(ws) != 1 or ws[0].guards or len(ws[0].loops) != 1: c.skip(rule, w, '%s: %d writes' % (f.name, len(ws))); continue
        e = ws[0]; L_ = v.loops[e.loops[0]]
        whole = strip(L_.hi) is not None and strip(L_.hi).op == 'fld' and strip(L_.hi).a[1] == 'value_count' and strip(L_.lo) is INT(0) and L_.step == 1
        if not whole: c.skip(rule, w, '%s: range %s..%s' % (f.name, show(L_.lo), show(L_.hi))); continue
        def env(t):
            if t.op == 'idx' and t.a[1] is e.loc.a[1]: return 5 if nm[0] in strip(t.a[0]).a else 7 if len(nm) > 1 and nm[1] in strip(t.a[0]).a else None
            return None
        try: g = ceval(e.val, env)
        except NoVal as ex: c.skip(rule, w, '%s: %s' % (f.name, ex)); continue
        c.ob(g == (12 if f.name == 'join' else 0), rule, w, '%s: entry becomes %s' % (f.name, show(e.val)[:60]), f.name)

# ---- objectives
def objectives(c, d):
    rule = 'objective is the negative mean log density of the pullback and its gradient'
    pb = 'pullback(map,density_)'
    for f in d.methods('mpart::KLObjective', None) if False else [g for n in ('ObjectivePlusCoeffGradImpl', 'ObjectiveImpl', 'CoeffGradImpl') for g in d.find('mpart::KLObjective::' + n)]:
        if f.dep: continue
        v = VF(d, noinline=lambda g: g.name in FUN or g.name[:-4] in FUN and g.name.endswith('Impl') and 'Density' in g.cq or g.name == 'PullbackDensity'); v.run(f); c.count('operations')
        nm = [p['n'] for p in f.ps]; data = nm[0]; mp = nm[-1]
        key = f.name
        sh = {data: (Q, P)}
        own = 'pullback(%s,density_)' % mp
        if len(nm) == 3: sh[nm[1]] = (sy('coef:' + own),)
        mat = Rep(v, sh, {}, None, outs=(nm[1],) if len(nm) == 3 else ()); mat.dims = {}
        val = lmul({(('1/*p',), 'one'): Fraction(-1)}, lin((1, ('sum0', ('logp', own, fz(IN(data)))))))
        grd = lmul({(('1/*p',), 'one'): Fraction(-1)}, lin((1, ('sum0', ('T', ('dlogp_dc', own, fz(IN(data))))))))
        if f.name != 'CoeffGradImpl': scal_ob(c, v, f, mat, val, rule, 'value', key + '/value')
        if len(nm) == 3:
            mat = Rep(v, sh, {}, None, outs=(nm[1],)); mat.dims = {}
            op_ob(c, v, f, mat, outterm(v, f, 1), grd, rule, 'gradient', key + '/gradient')
    rule = 'objective uses the right data set and the given coefficients'
    noi = lambda g: g.name in ('ObjectiveImpl', 'CoeffGradImpl', 'ObjectivePlusCoeffGradImpl', 'SetCoeffs', 'WrapCoeffs')
    def args(e, want, data):
        return [strip(x) for x in e.args]
    for name, call, data in (('TestError', 'ObjectiveImpl', 'test_'), ('TrainError', 'ObjectiveImpl', 'train_'), ('TrainCoeffGradImpl', 'CoeffGradImpl', 'train_'), ('operator()', 'ObjectivePlusCoeffGradImpl', 'train_'), ('TrainCoeffGrad', 'CoeffGradImpl', 'train_')):
        for f in [f for f in d.find('mpart::MapObjective::' + name) if not f.dep][:1]:
            v = VF(d, noinline=noi); v.run(f); w = f.loc(); nm = [p['n'] for p in f.ps]
            cl = [e for e in v.events if e.k == 'call' and e.d.get('name') in ('ObjectiveImpl', 'CoeffGradImpl', 'ObjectivePlusCoeffGradImpl')]
            a = [[strip(x) for x in e.args] for e in cl]
            ok = bool(cl) and all(x[0].op == 'fld' and x[0].a[1] == data for x in a)
            c.ob(ok, rule, w, '%s: %s' % (name, ', '.join('%s(%s)' % (e.d['name'], show(x[0])) for e, x in zip(cl, a)) or 'no objective call'), name + '/data') if cl else c.skip(rule, w, name)
            if name in ('TestError', 'TrainError', 'operator()') and cl:
                r = strip(v.ret)
                c.ob(r in [e.val for e in cl if e.d['name'] != 'CoeffGradImpl'], rule, w, '%s returns %s' % (name, show(r)[:60]), name + '/ret')
            if name == 'TestError':
                for n in (0, 5):
                    env = lambda t: n if t.op == 'ext' or t.op == 'call' and t.a[0].split('::')[-1] in ('extent', 'size', 'extent_int') else None
                    try: th = any(e.k == 'throw' and live(e, env) for e in v.events)
                    except NoVal as ex: c.skip(rule, w, str(ex)); continue
                    c.ob(th == (n == 0), rule, w, 'TestError with %s test data: %s' % ('no' if n == 0 else 'some', 'throws' if th else 'evaluates'), 'TestError/refuse')
            if name == 'operator()':
                sc = [i for i, e in enumerate(v.events) if e.k == 'call' and e.d.get('name') in ('SetCoeffs', 'WrapCoeffs')]
                oc = [i for i, e in enumerate(v.events) if e.k == 'call' and e in cl]
                good = len(sc) == 1 and oc and sc[0] < min(oc) and not v.events[sc[0]].guards
                if good:
                    e = v.events[sc[0]]; x = strip(e.args[0])
                    good = any(y.op == 'param' and nm[1] in y.a for y in subterms(x)) and any(y.op == 'param' and nm[0] in y.a for y in subterms(x)) and nm[3] in strip(e.obj).a
                c.ob(bool(good), rule, w, 'the coefficients passed in are set on the map before the objective is evaluated', 'operator()/SetCoeffs')
                for e in cl:
                    if e.d['name'] == 'ObjectiveImpl': continue
                    x = [y for y in e.args if any(z.op == 'param' and nm[2] in z.a for z in subterms(y))]
                    c.ob(len(x) == 1, rule, w, '%s writes the gradient it is given' % e.d['name'], 'operator()/grad')
    # constructors keep training and test data apart
    for cls in ('MapObjective', 'KLObjective'):
        for f in d.methods('mpart::' + cls, cls):
            if f.dep or not f.ps or any(cls in p['t'] for p in f.ps): continue
            v = VF(d); v.run(f); w = f.loc(); nm = [p['n'] for p in f.ps]
            st = {}
            for e in v.events:
                if e.k == 'init' and e.loc.op == 'fld': st[str(e.loc.a[1])] = strip(e.val)
            mats = [p['n'] for p in f.ps if '**' in p['t'] or 'Matrix' in p['t']]
            for fld, n in zip(('train_', 'test_'), mats):
                t = st.get(fld)
                if t is None or t.op != 'param': c.skip(rule, w, '%s: %s' % (cls, fld)); continue
                c.ob(n in t.a, rule, w, '%s: %s = %s' % (cls, fld, show(t)), '%s/%d/%s' % (cls, len(f.ps), fld))
    rule = 'Gaussian objective uses a standard normal of the right dimension'
    for f in [f for f in d.find('mpart::ObjectiveFactory::CreateGaussianKLObjective') if not f.dep]:
        v = VF(d, noinline=lambda g: g.name in ('GaussianSamplerDensity', 'KLObjective')); v.run(f); w = f.loc(); nm = [p['n'] for p in f.ps]; key = 'CreateGaussianKLObjective/%d' % len(nm)
        g = [e for e in v.events if e.k == 'ctor' and e.cls == 'mpart::GaussianSamplerDensity']; k = [e for e in v.events if e.k == 'ctor' and e.cls == 'mpart::KLObjective']
        if len(g) != 1 or len(k) != 1: c.skip(rule, w, '%d densities, %d objectives' % (len(g), len(k))); continue
        for dim, rows in ((0, 4), (2, 4), (4, 4)):
            def env(t, dim=dim, rows=rows):
                if t.op == 'param' and nm[-1] in t.a: return dim
                if t.op == 'ext' and nm[0] in strip(t.a[0]).a: return rows if (t.a[1].a[0] if isinstance(t.a[1], Term) else t.a[1]) == 0 else 99
                return None
            try: got = ceval(strip(g[0].args[0]), env)
            except NoVal as ex: c.skip(rule, w, str(ex)); continue
            if isinstance(got, Term): c.skip(rule, w, show(got)[:60]); continue
            c.ob(got == (dim or rows), rule, w, 'dim = %d, %d rows of data: density of dimension %s' % (dim, rows, got), key + '/dim')
        a = [strip(x) for x in k[0].args]
        ok = len(a) == len(nm) and all(a[i].op == 'param' and nm[i] in a[i].a for i in range(len(nm) - 1)) and a[-1] is g[0].obj
        c.ob(ok, rule, w, 'KLObjective(%s)' % ', '.join(show(x)[:40] for x in a), key + '/args')

# ---- public operations that allocate and delegate
def root_(t):
    """storage a term stands for: views, maps and refs of one object all denote that object"""
    t = strip(t)
    while True:
        if t.op in ('data',): t = strip(t.a[0]); continue
        if t.op == 'call' and t.a[0].split('::')[-1] == 'data': t = strip(next(x for x in t.a[1:] if isinstance(x, Term))); continue
        if t.op == 'obj' and t.a[0] in ('Kokkos::View', 'Eigen::Map', 'Eigen::Ref'):
            xs = [strip(x) for x in t.a[1:] if isinstance(x, Term)]
            if t.a[0] == 'Eigen::Ref' and xs or xs and (xs[0].op == 'data' or xs[0].op == 'call' and xs[0].a[0].split('::')[-1] == 'data'): t = xs[0]; continue
        return t

def wrappers(c, d):
    rule = 'public operation allocates the right shape and returns what the implementation wrote'
    def dimenv(names):
        def env(t):
            if t.op == 'ext': k, o = t.a[1], root_(t.a[0])
            elif t.op == 'call' and t.a[0].split('::')[-1] in ('rows', 'cols', 'extent', 'extent_int'):
                xs = [x for x in t.a[1:] if isinstance(x, Term)]; q = t.a[0].split('::')[-1]
                k = 0 if q == 'rows' else 1 if q == 'cols' else xs[1]; o = root_(xs[0])
            elif t.op == 'fld' and t.a[1] == 'dim_': return 3
            elif t.op == 'param' and 'N' in t.a: return 5
            else: return None
            k = k.a[0] if isinstance(k, Term) else k
            return (3, 5)[k] if o.op == 'param' else None
        return env
    FW = ('LogDensityImpl', 'LogDensityInputGradImpl', 'SampleImpl')
    for cq, impl, rank in (('mpart::DensityBase::LogDensity', 'LogDensityImpl', 1), ('mpart::DensityBase::LogDensityInputGrad', 'LogDensityInputGradImpl', 2), ('mpart::SampleGenerator::Sample', 'SampleImpl', 2)):
        for f in [f for f in d.find(cq) if not f.dep]:
            v = VF(d, noinline=lambda g: g.name in FW); v.run(f); w = f.loc(); c.count('operations'); n0 = f.ps[0]['n']
            key = cq.split('::')[-1] + ('/matrix' if 'Eigen' in f.ps[0]['t'] else '/array'); r = root_(v.ret) if v.ret is not None else T('void')
            cl = [e for e in v.events if e.k == 'call' and e.d.get('name') in FW]
            if len(cl) != 1 or cl[0].guards or cl[0].loops or r.op != 'obj': c.skip(rule, w, '%s: %d calls, returns %s' % (key, len(cl), show(r)[:40])); continue
            e = cl[0]; a = [root_(x) for x in e.args]
            ok = e.d['name'] == impl and (e.obj is None or strip(e.obj).op == 'this') and a[-1] is r and (impl == 'SampleImpl' or n0 in a[0].a)
            c.ob(ok, rule, w, '%s returns what %s(%s) wrote' % (key, e.d['name'], ', '.join(show(x)[:30] for x in a)), key + '/call')
            xs = [strip(x) for x in r.a[1:] if isinstance(x, Term) and strip(x).op != 'str']
            try: got = [ceval(x, dimenv(n0)) for x in xs[:rank]]
            except NoVal as ex: c.skip(rule, w, '%s shape: %s' % (key, ex)); continue
            want = [5] if rank == 1 else [3, 5]
            c.ob(got == want, rule, w, '%s allocates %s' % (key, ' x '.join(show(x)[:40] for x in xs[:rank])), key + '/shape')
    rule = 'distribution forwards to its sampler and density'
    for name, fld in (('Sample', 'sampler_'), ('SampleImpl', 'sampler_'), ('SetSeed', 'sampler_'), ('LogDensity', 'density_'), ('LogDensityImpl', 'density_'), ('LogDensityInputGrad', 'density_'), ('LogDensityInputGradImpl', 'density_')):
        for f in [f for f in d.find('mpart::Distribution::' + name) if not f.dep]:
            ALL = FW + ('LogDensity', 'LogDensityInputGrad', 'Sample', 'SetSeed')
            v = VF(d, noinline=lambda g: g.name in ALL); v.run(f); w = f.loc(); nm = [q['n'] for q in f.ps]; c.count('operations')
            cl = [e for e in v.events if e.k == 'call' and e.d.get('name') in ALL]
            if len(cl) != 1: c.skip(rule, w, '%s: %d calls' % (name, len(cl))); continue
            e = cl[0]; o = strip(e.obj) if e.obj is not None else T('this'); a = [root_(x) for x in e.args]
            ok = e.d['name'] == name and o.op == 'fld' and o.a[1] == fld and not e.guards and len(a) == len(nm) and all(n in x.a for n, x in zip(nm, a))
            if not name.endswith('Impl') and name != 'SetSeed': ok = ok and strip(v.ret) is strip(e.val)
            c.ob(ok, rule, w, 'Distribution::%s is %s.%s(%s)' % (name, show(o), e.d['name'], ', '.join(show(x)[:20] for x in a)), name)
    for f in d.methods('mpart::Distribution', 'Distribution'):
        if f.dep or len(f.ps) != 2: continue
        v = VF(d, noinline=lambda g: g.name == 'Dim'); v.run(f); w = f.loc(); nm = [q['n'] for q in f.ps]
        st = {str(e.loc.a[1]): strip(e.val) for e in v.events if e.k == 'init' and e.loc.op == 'fld'}
        for fld, n in zip(('sampler_', 'density_'), nm):
            if fld in st: c.ob(n in st[fld].a, rule, w, '%s = %s' % (fld, show(st[fld])), 'ctor/' + fld)
            else: c.skip(rule, w, 'ctor ' + fld)
        for ds, dd in ((2, 2), (2, 3), (3, 2)):
            def env(t):
                if t.op == 'call' and t.a[0].split('::')[-1] == 'Dim' or t.op == 'fld' and t.a[1] == 'dim_':
                    o = strip(next(x for x in t.a if isinstance(x, Term)))
                    return ds if nm[0] in o.a or 'sampler_' in o.a else dd if nm[1] in o.a or 'density_' in o.a else None
                return None
            try: th = any(e.k == 'throw' and live(e, env) for e in v.events)
            except NoVal as ex: c.skip(rule, w, str(ex)); continue
            c.ob(th == (ds != dd), rule, w, 'sampler of dimension %d with density of dimension %d: %s' % (ds, dd, 'refused' if th else 'accepted'), 'ctor/refuse')

# ---- factorised linear solvers
def solvers(c, d):
    rule = 'factorised solves and determinants use the factors they name'
    STRUCT = ('matrixL', 'matrixU', 'matrixLU', 'permutationP', 'triangularView', 'matrixLLT')
    def tok(t, x):
        """linear operators applied to x in a value term, outermost first; None if not of that form"""
        t = strip(t)
        if root_(t) is x: return []
        if t.op == 'call' and t.a[0].split('::')[-1] in ('eval', 'noalias'): return tok(next(y for y in t.a[1:] if isinstance(y, Term)), x)
        if t.op in ('op*', '*'):
            r = tok(t.a[1], x)
            return None if r is None else [fac(t.a[0])] + r
        if t.op == 'call' and t.a[0].split('::')[-1] == 'solve':
            ys = [y for y in t.a[1:] if isinstance(y, Term)]; r = tok(ys[1], x)
            return None if r is None else [fac(ys[0]) + '^-1'] + r
        return None
    def fac(t):
        t = strip(t)
        if t.op == 'fld': return 'A'
        if t.op == 'call':
            q = t.a[0].split('::')[-1]; ys = [y for y in t.a[1:] if isinstance(y, Term)]
            if q == 'triangularView': return fac(ys[0]) + ('' if not tv.get(id(t)) else tv[id(t)])
            return {'matrixL': 'L', 'matrixU': 'U', 'permutationP': 'P', 'matrixLU': 'LU', 'transpose': "'", 'matrixLLT': 'LLT'}.get(q, q)
        return show(t)[:20]
    tv = {}
    want = {('Cholesky', 'solveInPlaceL'): [['L^-1']], ('Cholesky', 'solveInPlace'): [['L^-1', 'U^-1'], ['A^-1']], ('Cholesky', 'multiplyL'): [['L']],
            ('PartialPivLU', 'solveInPlace'): [['P', 'LUunit^-1', 'LUupper^-1'], ['A^-1']]}
    for (cls, name), forms in want.items():
        for f in [f for f in d.find('mpart::%s::%s' % (cls, name)) if not f.dep and f.body is not None][:1]:
            v = VF(d); v.run(f); w = f.loc(); n0 = f.ps[0]['n']; c.count('operations')
            x = T('param', n0)
            for e in v.events:
                for y in [t for q in e.d.values() for t in (q if isinstance(q, list) else [q]) if isinstance(t, Term)]:
                    for z in subterms(y):
                        if z.op == 'param' and n0 in z.a: x = z
            seq = []; bad = None
            for e in v.events:
                if e.k == 'call' and e.d.get('name') == 'solveInPlace':
                    o = strip(e.obj); tgt = root_(e.args[0])
                    while tgt.op == 'call' and tgt.a[0].split('::')[-1] == 'eval' or tgt.op in ('op*',): tgt = root_(next(z for z in reversed(tgt.a) if isinstance(z, Term)))
                    nmf = fac(o)
                    if o.op == 'call' and o.a[0].split('::')[-1] == 'triangularView':
                        mode = tri_mode(e, v)
                        nmf = 'LU' + mode if mode else None
                    if nmf is None or tgt is not x: bad = 'solve on %s' % show(tgt)[:30]; break
                    seq.append(nmf + '^-1')
                elif e.k == 'write' and e.loc.op != 'idx':
                    r = tok(e.val, x)
                    if r is not None: seq += list(reversed(r))
            if bad or not seq: c.skip(rule, w, '%s::%s: %s' % (cls, name, bad or 'no solve recognised')); continue
            c.ob(seq in forms, rule, w, '%s::%s applies %s' % (cls, name, ', '.join(seq)), '%s/%s' % (cls, name))
    for cls in ('Cholesky', 'PartialPivLU'):
        for f in [f for f in d.find('mpart::%s::determinant' % cls) if not f.dep][:1]:
            v = VF(d); v.run(f); w = f.loc(); c.count('operations')
            def env(t):
                if t.op == 'call' and t.a[0].split('::')[-1] in ('determinant', 'pow', 'prod'):
                    q = t.a[0].split('::')[-1]; ys = [y for y in t.a[1:] if isinstance(y, Term)]
                    if q == 'determinant': return 9.0 if fac(ys[0]) == 'A' else 3.0 if fac(ys[0]) in ('L', 'U') else None
                    if q == 'pow': return ceval(ys[0], env) ** ceval(ys[1], env)
                return None
            try: g = ceval(strip(v.ret), env)
            except NoVal as ex: c.skip(rule, w, 'determinant: %s' % ex); continue
            c.ob(g == 9.0, rule, w, '%s::determinant returns %s' % (cls, show(strip(v.ret))[:80]), cls + '/det')
        for f in [f for f in d.find('mpart::%s::compute' % cls) if not f.dep][:1]:
            v = VF(d); v.run(f); w = f.loc(); n0 = f.ps[0]['n']
            ct = [e for e in v.events if e.k == 'ctor' and e.cls in ('Eigen::LLT', 'Eigen::PartialPivLU')]
            st = {e.loc.a[1]: e.val for e in v.events if e.k == 'write' and e.loc.op == 'fld'}
            if len(ct) == 1: c.ob(n0 in root_(ct[0].args[0]).a and any(strip(x) is ct[0].obj for x in st.values()), rule, w, '%s::compute factorises %s' % (cls, show(root_(ct[0].args[0]))[:30]), cls + '/compute')
            else: c.skip(rule, w, '%s::compute' % cls)

def tri_mode(e, v):
    """which triangle the solve uses, from the resolved type of the triangular view"""
    n = e.d.get('node')
    ty = ((n or {}).get('obj') or {}).get('t', '') if isinstance(n, dict) else ''
    m = re.search(r',\s*(\d+)[uU]?>\s*&?$', ty)
    return {'5': 'unit', '6': 'unitupper', '1': 'lower', '2': 'upper'}.get(m.group(1)) if m else None

def check():
    c = Check('C19', RULE)
    d = DB([REPO + '/src/Distributions/GaussianSamplerDensity.cpp', REPO + '/src/Distributions/PullbackDensity.cpp', REPO + '/src/MapObjective.cpp', REPO + '/src/Distributions/DensityBase.cpp', REPO + '/src/Utilities/LinearAlgebra.cpp', VERIF + '/tool/inst.cpp'], max_inst=4)
    gaussian(c, d); transported(c, d); objectives(c, d); wrappers(c, d); solvers(c, d)
    c.need('transported density or sampler combines map and base as stated', 3)
    c.assume('map, density, Cholesky and generator operations are taken at their word (C02-C05 decide the maps); rounding is not considered')
    return c
