"""C03: public operations refuse unset coefficients and return what the same operation's implementation computes."""
import os, itertools
from harness import Check
from db import DB, REPO, VERIF, CheckError
from vf import VF, T, Term, INT, is_view

RULE = ("Value-flow analysis of every public operation (evaluate, gradients, log determinants, inverse, densities, sampling; array and Eigen "
        "overloads): (1) the readiness test is decided by truth table over {needs no coefficients, allocated, size matches}; (2) every path to the "
        "implementation hook first passes the throwing readiness test of the same object; (3) the hook called is the one of the same operation, receives "
        "the caller's arguments in order and a freshly created output of the documented shape; (4) the value returned is that output.")

TUS = ['src/ParameterizedFunctionBase.cpp', 'src/ConditionalMapBase.cpp', 'src/Distributions/DensityBase.cpp']
# operation -> (hook, number of array inputs, shape of the output)
def shp(*xs): return xs
OPS = {
 'mpart::ParameterizedFunctionBase::Evaluate': ('EvaluateImpl', 1, ('outputDim', 'cols')),
 'mpart::ParameterizedFunctionBase::Gradient': ('GradientImpl', 2, ('inputDim', 'cols')),
 'mpart::ParameterizedFunctionBase::CoeffGrad': ('CoeffGradImpl', 2, ('numCoeffs', 'cols')),
 'mpart::ConditionalMapBase::LogDeterminant': ('LogDeterminantImpl', 1, ('cols',)),
 'mpart::ConditionalMapBase::LogDeterminantCoeffGrad': ('LogDeterminantCoeffGradImpl', 1, ('numCoeffs', 'cols')),
 'mpart::ConditionalMapBase::LogDeterminantInputGrad': ('LogDeterminantInputGradImpl', 1, ('rows', 'cols')),
 'mpart::ConditionalMapBase::Inverse': ('InverseImpl', 2, ('outputDim', 'cols')),
 'mpart::DensityBase::LogDensity': ('LogDensityImpl', 1, ('cols',)),
 'mpart::DensityBase::LogDensityInputGrad': ('LogDensityInputGradImpl', 1, ('rows', 'cols')),
 'mpart::SampleGenerator::Sample': ('SampleImpl', 0, ('dim', 'N')),
}

def base(t):
    """the array a wrapper (copy, Ref, Map, unmanaged View, Matrix made from a Map) refers to"""
    for _ in range(12):
        if t.op == 'copy': t = t.a[0]; continue
        if t.op == 'data': t = t.a[0]; continue
        if t.op == 'obj':
            xs = [x for x in t.a[1:] if isinstance(x, Term)]
            if t.a[0] in ('Eigen::Ref', 'Eigen::Map') and xs: t = xs[0]; continue
            if t.a[0] == 'Kokkos::View' and xs and xs[0].op == 'data': t = xs[0]; continue
            if t.a[0] == 'Eigen::Matrix' and len(xs) == 1 and xs[0].op == 'obj': t = xs[0]; continue
        break
    return t

def extent(t, v):
    """('rows'|'cols', array) / ('fld', name) for a size expression"""
    if t.op == 'copy' or t.op == 'cast': return extent(t.a[0], v)
    if t.op == 'call' and t.a[0].split('::')[-1] in ('rows', 'cols', 'size') and len(t.a) > 1 and isinstance(t.a[1], Term): return (t.a[0].split('::')[-1], base(t.a[1]))
    if t.op == 'ext' or (t.op == 'call' and t.a[0].split('::')[-1] in ('extent', 'extent_int')):
        b, i = (t.a[0], t.a[1]) if t.op == 'ext' else (t.a[1], t.a[2])
        i = i.a[0] if isinstance(i, Term) else i
        return ({0: 'rows', 1: 'cols'}.get(i), base(b))
    if t.op == 'fld': return ('fld', t.a[1], t.a[0])
    if t.op == 'call' and t.a[0] == 'Dim': return ('fld', 'dim_', t.a[1])
    if t.op == 'param': return ('param', t)
    return None

def ctruth(t, env):
    if t.op == 'bool': return bool(t.a[0])
    if t.op == 'int': return t.a[0] != 0
    if t.op == '!': x = ctruth(t.a[0], env); return None if x is None else not x
    if t.op == 'ite':
        c = ctruth(t.a[0], env)
        return None if c is None else ctruth(t.a[1] if c else t.a[2], env)
    if t.op in ('&&', '||'):
        x, y = ctruth(t.a[0], env), ctruth(t.a[1], env)
        if t.op == '&&': return False if x is False or y is False else (True if x and y else None)
        return True if x or y else (False if x is False and y is False else None)
    if t.op == 'call' and t.a[0].split('::')[-1] == 'is_allocated' and t.a[1].op == 'fld' and t.a[1].a[1] == 'savedCoeffs': return env[1]
    if t.op in ('==', '!=', '<', '<=', '>', '>='):
        x, y = num(t.a[0], env), num(t.a[1], env)
        if x is None or y is None: return None
        return {'==': x == y, '!=': x != y, '<': x < y, '<=': x <= y, '>': x > y, '>=': x >= y}[t.op]
    if t.op == '=>':
        return True
    return None
def num(t, env):
    if t.op in ('copy', 'cast'): return num(t.a[0], env)
    if t.op == 'int': return t.a[0]
    if t.op == 'fld' and t.a[1] == 'numCoeffs': return env[0]
    if (t.op in ('size', 'ext') or t.op == 'call' and t.a[0].split('::')[-1] in ('size', 'extent')):
        b = t.a[1] if t.op == 'call' else t.a[0]
        if isinstance(b, Term) and b.op == 'fld' and b.a[1] == 'savedCoeffs': return env[2]
    return None

ENVS = [(n, a, s) for n in (0, 3, 5) for a, s in ((False, 0), (True, 0), (True, 2), (True, 3), (True, 5), (True, 7))]
def ready(env): return env[0] == 0 or (env[1] and env[2] == env[0])

def readiness(c, db):
    fs = db.find('mpart::ParameterizedFunctionBase::CheckCoefficients')
    if not fs: raise CheckError('CheckCoefficients not found')
    for f in fs:
        v = VF(db).run(f); c.count('functions')
        if f.ps:
            th = [e for e in v.events if e.k == 'throw']
            if not th: c.bad('R1-readiness-test', f.loc(), 'the named readiness test never throws', 'CheckCoefficients(name)|nothrow'); continue
            for env in ENVS:
                vals = []
                for e in th:
                    g = [ctruth(x[0], env) for x in e.guards]
                    g = [(a if x[1] else (None if a is None else not a)) for a, x in zip(g, e.guards)]
                    vals.append(False if False in g else (None if None in g else True))
                got = True if True in vals else (None if None in vals else False)
                if got is None: c.skip('R1-readiness-test', f.loc(), 'guard of the exception not decidable'); break
                c.ob(got == (not ready(env)), 'R1-readiness-test', f.loc(), 'throws exactly when coefficients are required and missing (required=%d allocated=%s stored=%d)' % env, 'CheckCoefficients(name)|%s' % (env,))
        else:
            rets = [e for e in v.events if e.k == 'ret' and e.depth == 1]
            for env in ENVS:
                got = None
                for e in rets:
                    g = [ctruth(x[0], env) for x in e.guards]
                    g = [(a if x[1] else (None if a is None else not a)) for a, x in zip(g, e.guards)]
                    if False in g: continue
                    got = None if None in g else ctruth(e.val, env)
                    break
                if got is None: c.skip('R1-readiness-test', f.loc(), 'result not decidable'); break
                c.ob(got == ready(env), 'R1-readiness-test', f.loc(), 'ready exactly when coefficients are not required, or stored with the required size (required=%d allocated=%s stored=%d)' % env, 'CheckCoefficients()|%s' % (env,))

def entry(c, db, f, op, spec):
    hook, nin, shape = spec
    c.count('functions')
    v = VF(db, noinline=lambda g: g.name == 'CheckCoefficients' or g.name.endswith('Impl')).run(f)
    who = '%s(%s)' % (op.split('mpart::')[1], 'Eigen' if f.ps and 'Eigen' in f.ps[0]['t'] else 'array')
    hooks = [e for e in v.events if e.k in ('call', 'enter') and e.name.endswith('Impl')]
    if not hooks:
        if any(e.k == 'call' and e.name == op.split('::')[-1] for e in v.events): c.skip('R3-same-operation', f.loc(), 'forwards to another overload'); return
        ends = [e for e in v.events if e.k == 'throw' and not e.guards]
        if ends: return
        c.bad('R3-same-operation', f.loc(), 'never calls %s' % hook, who + '|none'); return
    need = not (op.startswith('mpart::Density') or op.startswith('mpart::Sample'))
    for e in hooks:
        c.count('hook calls')
        c.ob(e.name == hook and e.obj is not None and e.obj.op == 'this', 'R3-same-operation', e.where(), '%s calls %s of the same object' % (who, hook), who + '|hook')
        if e.name != hook: continue
        if need:
            ok = any(x.k == 'call' and x.name == 'CheckCoefficients' and x.i < e.i and x.obj is not None and x.obj.op == 'this' and x.args and set(g[:2] for g in x.guards) <= set(g[:2] for g in e.guards) and all(l in e.loops for l in x.loops) for x in v.events)
            ok = ok or any(pol and g.op == 'call' and g.a[0].split('::')[-1] == 'CheckCoefficients' and g.a[1].op == 'this' for g, pol, *_ in e.guards)
            ok = ok or any((not pol) and g.op == '!' and g.a[0].op == 'call' and g.a[0].a[0].split('::')[-1] == 'CheckCoefficients' for g, pol, *_ in e.guards)
            c.ob(ok, 'R2-refuses-unset', e.where(), '%s passes the throwing readiness test before %s' % (who, hook), who + '|check')
        args = list(e.args)
        if len(args) != nin + 1: c.skip('R4-arguments', e.where(), 'unexpected argument count'); continue
        for i in range(nin):
            b = base(args[i]); want = T('param', i, f.ps[i]['n'])
            if b.op == 'param': c.ob(b is want, 'R4-arguments', e.where(), '%s hands argument %d to %s at position %d' % (who, i, hook, i), who + '|arg%d' % i)
            else: c.skip('R4-arguments', e.where(), 'argument %d is not the caller\'s array' % i)
        out = base(args[nin])
        if out.op != 'obj' or out.a[0] not in ('Kokkos::View', 'Eigen::Matrix'):
            if out.op in ('param', 'fld'): c.bad('R5-output', e.where(), '%s writes into %s instead of a new array' % (who, out), who + '|out')
            else: c.skip('R5-output', e.where(), 'output is not a directly created array')
        else:
            dims = [x for x in out.a[1:] if isinstance(x, Term) and x.op not in ('str',)]
            dims = dims[-len(shape):] if len(dims) >= len(shape) else None
            ex = [extent(x, v) for x in dims] if dims else [None]
            if None in ex or any(x[0] is None for x in ex): c.skip('R5-shape', e.where(), 'extents of the output not recognised')
            else:
                ps = [T('param', i, f.ps[i]['n']) for i in range(len(f.ps))]
                def good(x, s):
                    if s in ('rows', 'cols'):
                        if x[0] == s and x[1] in ps and (s == 'cols' and len(ps) <= 1 or x[1] is ps[0]): return True
                        if x[0] == s and s == 'cols' and x[1] in ps: return True
                        return s == 'rows' and x[0] == 'fld' and x[1] in ('inputDim', 'dim_')
                    if s == 'N': return x[0] == 'param'
                    if s == 'dim': return x[0] == 'fld' and x[1] == 'dim_' and x[2].op == 'this'
                    return x[0] == 'fld' and x[1] == s and x[2].op == 'this'
                c.ob(all(good(x, s) for x, s in zip(ex, shape)), 'R5-shape', e.where(), '%s returns an array of shape (%s)' % (who, ', '.join(shape)), who + '|shape')
            r = v.ret
            if r is None or not isinstance(r, Term): c.skip('R6-returned', f.loc(), 'returned value not tracked')
            else:
                rb = base(r)
                if rb is out or rb.op == 'ite': c.ok('R6-returned', f.loc(), '%s returns the filled output' % who)
                elif rb.op in ('obj', 'param', 'fld'): c.bad('R6-returned', f.loc(), '%s returns %s, not the array that was filled' % (who, rb), who + '|ret')
                else: c.skip('R6-returned', f.loc(), 'returned value not recognised')
                # nothing writes the output after the hook
                late = [x for x in v.events if x.i > e.i and (x.k == 'deep_copy' and base(x.dst) is out or x.k == 'write' and x.loc.op == 'idx' and base(x.loc.a[0]) is out or x.k == 'call' and x.name == 'resize' and x.args and base(x.args[0]) is out)]
                for x in late: c.bad('R6-returned', x.where(), '%s changes the output after %s filled it' % (who, hook), who + '|late')

def distribution(c, db):
    for m, (mem, tgt) in {'LogDensity': ('density_', 'LogDensity'), 'LogDensityImpl': ('density_', 'LogDensityImpl'), 'LogDensityInputGrad': ('density_', 'LogDensityInputGrad'),
              'LogDensityInputGradImpl': ('density_', 'LogDensityInputGradImpl'), 'Sample': ('sampler_', 'Sample'), 'SampleImpl': ('sampler_', 'SampleImpl'), 'SetSeed': ('sampler_', 'SetSeed')}.items():
        for f in db.find('mpart::Distribution::' + m):
            if f.dep: continue
            c.count('functions')
            v = VF(db, noinline=lambda g: g.ccls in ('mpart::DensityBase', 'mpart::SampleGenerator')).run(f)
            cs = [e for e in v.events if e.k == 'call' and e.obj is not None and e.obj.op == 'fld' and e.obj.a[1] in ('density_', 'sampler_')]
            if not cs: c.skip('R7-distribution-forwards', f.loc(), 'no direct forward'); continue
            for e in cs:
                ok = e.name == tgt and e.obj.a[1] == mem and [base(a) for a in e.args] == [T('param', i, p['n']) for i, p in enumerate(f.ps)]
                c.ob(ok, 'R7-distribution-forwards', e.where(), 'Distribution::%s forwards its arguments to %s of its own %s' % (m, tgt, mem.strip('_')), 'Distribution::' + m)

def check():
    c = Check('C03', RULE)
    db = DB([os.path.join(REPO, t) for t in TUS] + [os.path.join(VERIF, 'tool', 'inst.cpp')])
    readiness(c, db)
    for op, spec in OPS.items():
        fs = [f for f in db.find(op) if not f.dep]
        if not fs: raise CheckError(op + ' not found')
        for f in fs: entry(c, db, f, op, spec)
    distribution(c, db)
    c.need('R1-readiness-test', 2); c.need('R2-refuses-unset', 10); c.need('R3-same-operation', 12); c.need('R7-distribution-forwards', 4)
    return c
