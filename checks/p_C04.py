"""C04: every component of a composite works on its own block of one coefficient vector."""
import os
from harness import Check
from db import DB, REPO, CheckError
from vf import VF, T, Term, show, is_view
from compnf import NF, P, fromkey
from p_C05 import judge, brief, K, outparam, strip, TUS

RULE = ("Value-flow analysis (gated SSA, inductive-invariant check of loop recurrences) of the coefficient setters and constructors of "
        "ParameterizedFunctionBase, TriangularMap, ComposedMap and SummarizedMap: the total is the sum over all components; component k is "
        "given exactly the slice [sum of sizes before k, + its size) of the composite's own stored vector, for every k, in the same order in "
        "every setter; SetCoeffs stores a copy and WrapCoeffs stores the caller's array itself.")

class CNF(NF):
    zero0 = ('U',)
    def __init__(self, v, container):
        super().__init__(v, container, scal=self.sc, cont=self.rule, totals=('numCoeffs',))
        self.starts = {}
        for e in v.events:
            if e.k == 'init' and e.field == container and e.loc.a[0].op == 'this': self.alias.add(strip(e.val)); self.alias.add(e.val)
    def sc(self, t, nf):
        return None
    def rule(self, x, nf):
        if x[0] == 'slice' and len(x) == 3 and isinstance(x[2], tuple) and x[2][0] == 'rng':
            k = self.blk(fromkey(x[2][1]), fromkey(x[2][2]))
            if k is not None: return ('block', k.key(), x[1])
        if x[0] == 'upd' and len(x) == 4 and isinstance(x[3], tuple) and x[3][0] == 'rng':
            k = self.blk(fromkey(x[3][1]), fromkey(x[3][2])); b = x[1]
            if k is not None and x[2] == ('coeffs', k.key()):
                if b[0] == 'U' and fromkey(b[1]) == k: return ('U', (k + 1).key())
                if b == ('zero',) and k.const() == 0: return ('U', K(1))
                if b == ('U', k.key()): return ('U', (k + 1).key())
        return None
    def blk(self, lo, hi):
        for m, co in hi.m.items():
            if len(m) == 1 and isinstance(m[0], tuple) and m[0][0] == 'PS' and m[0][1] == 'numCoeffs' and co == 1:
                k = fromkey(m[0][2]) - 1
                if lo == self.PS('numCoeffs', k) and hi == self.PS('numCoeffs', k + 1): return k
        return None
    def c(self, t):
        if t.op == 'content':
            o = strip(t.a[0])
            if o.op == 'call' and o.a[0].split('::')[-1] in ('Coeffs', 'CoeffMap') and isinstance(o.a[1], Term):
                k = self.comp(o.a[1])
                if k is not None: return ('coeffs', k.key())
            if o.op == 'fld' and o.a[1] == 'savedCoeffs':
                k = self.comp(o.a[0])
                if k is not None: return ('coeffs', k.key())
        return super().c(t)

def alts(t):
    """alternatives of a merged value"""
    if t.op == 'ite': return alts(t.a[1]) + alts(t.a[2])
    return [t]

def wraps(c, v, nf, f, label, upto=None):
    calls = [e for e in v.events if e.k == 'call' and e.name in ('WrapCoeffs', 'SetCoeffs') and e.obj is not None and nf.comp(e.obj) is not None]
    saved = v.read(T('fld', T('this'), 'savedCoeffs'))
    if not calls:
        c.skip('R2-component-blocks', f.loc(), 'components are given their coefficients in another way'); return
    for e in calls:
        c.count('call sites')
        k = nf.comp(e.obj)
        if e.name == 'SetCoeffs':
            c.bad('R2-component-blocks', e.where(), 'component %s receives a copy instead of a block of the stored vector' % (k,), label + '|copy'); continue
        a = strip(e.args[0])
        if a.op != 'subview':
            c.skip('R2-component-blocks', e.where(), 'argument is not a slice'); continue
        r = nf.range(a.a[1])
        base = strip(a.a[0])
        if base not in alts(saved) and base is not saved and not all(x in alts(saved) for x in alts(base)):
            c.bad('R2-component-blocks', e.where(), 'component block is not taken from the map\'s stored coefficients', label + '|base'); continue
        kk = nf.blk(fromkey(r[1]), fromkey(r[2])) if isinstance(r, tuple) and r[0] == 'rng' else None
        if kk is not None: c.ob(kk == k, 'R2-component-blocks', e.where(), 'component %r is given block %r' % (k, kk), label + '|block')
        elif nf.recognised(r): c.bad('R2-component-blocks', e.where(), 'component %r is given rows %s, not its own block' % (k, brief(r)), label + '|block')
        else: c.skip('R2-component-blocks', e.where(), 'block bounds not recognised')
        g = [x for x in e.guards if x[0].op not in ('inloop', '=>')]
        if len(e.loops) == 1:
            rg = nf.rng(e.loops[0])
            if rg is None: c.skip('R3-all-components', e.where(), 'loop not recognised'); continue
            lo, hi, st = rg; i = ('i', e.loops[0])
            x, y = nf.subst(k, i, lo), nf.subst(k, i, hi - st)
            c.ob({x.key(), y.key()} == {K(0), (nf.n - 1).key()} and v.loops[e.loops[0]].exact and abs(k.coef(i)) == 1, 'R3-all-components', e.where(), 'components %r to %r receive their block' % (x, y), label + '|all')

def check():
    c = Check('C04', RULE)
    db = DB([os.path.join(REPO, t) for t in TUS[:5]])
    base = 'mpart::ParameterizedFunctionBase::'
    # base class setters
    for f in db.find(base + 'SetCoeffs'):
        if not is_view(f.ps[0]['t']): continue
        v = VF(db).run(f); p = outparam(f, 0); c.count('functions')
        saved = v.read(T('fld', T('this'), 'savedCoeffs'))
        cc = v.cont(saved)
        c.ob(cc is T('content', p), 'R1-set-copies', f.loc(), 'the stored vector holds the given values on every path', 'base SetCoeffs|content')
        c.ob(p not in alts(saved), 'R1-set-copies', f.loc(), 'the stored vector is not the caller\'s array', 'base SetCoeffs|alias')
    for f in db.find(base + 'WrapCoeffs'):
        if not is_view(f.ps[0]['t']): continue
        v = VF(db).run(f); p = outparam(f, 0); c.count('functions')
        saved = v.read(T('fld', T('this'), 'savedCoeffs'))
        c.ob(all(strip(x) is p for x in alts(saved)), 'R1-wrap-aliases', f.loc(), 'the stored vector is the given array', 'base WrapCoeffs')
    for cls, cont in (('TriangularMap', 'comps_'), ('ComposedMap', 'maps_')):
        for m in ('SetCoeffs', 'WrapCoeffs'):
            fs = [f for f in db.find('mpart::%s::%s' % (cls, m)) if is_view(f.ps[0]['t'])]
            if not fs: raise CheckError('%s::%s not found' % (cls, m))
            f = fs[0]; c.count('functions')
            v = VF(db).run(f); p = outparam(f, 0); nf = CNF(v, cont); label = cls + '::' + m
            saved = v.read(T('fld', T('this'), 'savedCoeffs'))
            if m == 'WrapCoeffs': c.ob(all(strip(x) is p for x in alts(saved)), 'R1-wrap-aliases', f.loc(), 'the composite stores the given array', label + '|store')
            else:
                dcs = [e for e in v.events if e.k == 'deep_copy' and e.src is p and set(alts(strip(e.dst))) <= set(alts(saved))]
                c.ob(bool(dcs) and p not in alts(saved), 'R1-set-copies', f.loc(), 'the composite stores a copy of the given values', label + '|store')
                # the blocks are handed out after the new vector exists
                w = [e for e in v.events if e.k == 'call' and e.name == 'WrapCoeffs' and nf.comp(e.obj) is not None]
            wraps(c, v, nf, f, label)
        # constructor: total and moved coefficients
        fs = [f for f in db.find('mpart::%s::%s' % (cls, cls)) if f.d.get('isctor') and f.ps and 'vector' in f.ps[0]['t']]
        if not fs: raise CheckError('%s constructor not found' % cls)
        f = fs[0]; c.count('functions')
        v = VF(db).run(f); nf = CNF(v, cont)
        tot = [e for e in v.events if e.k == 'init' and e.field == 'numCoeffs']
        for e in tot:
            nf.totals = ('numCoeffs',)
            s = nf.s(e.val)
            if s == nf.PS('numCoeffs', nf.n): c.ok('R4-total-is-sum', f.loc(), 'numCoeffs is the sum over all components')
            elif nf.recognised(s): c.bad('R4-total-is-sum', f.loc(), 'numCoeffs is %r, not the sum of the component sizes' % s, cls + '|total')
            else: c.skip('R4-total-is-sum', f.loc(), 'total not recognised')
        if len(f.ps) > 1:
            w = [e for e in v.events if e.k in ('enter', 'call') and e.name in ('WrapCoeffs', 'SetCoeffs') and e.obj is not None and e.obj.op == 'this' and e.args]
            w = w[:1]
            if not w: c.skip('R5-moved-coefficients', f.loc(), 'constructor does not adopt component coefficients by SetCoeffs/WrapCoeffs')
            for e in w:
                # contents of the vector when it is adopted
                buf = e.args[0]
                g = contents_before(v, buf, e)
                got = nf.c(g) if g is not None else ('opaque', 0)
                judge(c, nf, got, [('U', nf.n.key())], 'R5-moved-coefficients', e.where(), 'block k of the new vector holds component k\'s coefficients', cls + '|move')
            wraps(c, v, nf, f, cls + ' constructor')
    # SummarizedMap
    for m in ('SetCoeffs', 'WrapCoeffs'):
        fs = [f for f in db.find('mpart::SummarizedMap::' + m) if is_view(f.ps[0]['t'])]
        if not fs: raise CheckError('SummarizedMap::%s not found' % m)
        f = fs[0]; v = VF(db).run(f); c.count('functions'); p = outparam(f, 0)
        saved = v.read(T('fld', T('this'), 'savedCoeffs'))
        w = [e for e in v.events if e.k == 'call' and e.name in ('WrapCoeffs', 'SetCoeffs') and e.obj is not None and e.obj.op == 'fld' and e.obj.a[1] == 'comp_']
        label = 'SummarizedMap::' + m
        if not w: c.bad('R6-summarized-shares', f.loc(), 'the wrapped component never receives the coefficients', label); continue
        for e in w:
            a = strip(e.args[0])
            ok = e.name == 'WrapCoeffs' and (a is saved or all(x in alts(saved) for x in alts(a)))
            c.ob(ok, 'R6-summarized-shares', e.where(), 'the component works on the map\'s stored vector', label)
    c.need('R1-set-copies', 3); c.need('R2-component-blocks', 4); c.need('R4-total-is-sum', 2); c.need('R6-summarized-shares', 2)
    c.assume('component maps follow the ParameterizedFunctionBase interface (their WrapCoeffs stores the given array)')
    return c

def contents_before(v, buf, e):
    """abstract contents of buf when event e happens (the last loop that filled it before e)"""
    nm = show(buf)
    best = None
    for L in v.loops.values():
        if nm in L.ccar:
            evs = [x.i for x in v.events if L.id in x.loops]
            if evs and max(evs) < e.i: best = T('cpost', L.id, nm)
    return best
