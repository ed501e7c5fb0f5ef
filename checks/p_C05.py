"""C05: composite maps are the composition / stacking of their components."""
import os
from harness import Check
from db import DB, REPO, CheckError
from vf import VF, T, Term, INT, show, subterms
from compnf import NF, P, fromkey

TUS = ['src/TriangularMap.cpp', 'src/ComposedMap.cpp', 'src/SummarizedMap.cpp', 'src/ParameterizedFunctionBase.cpp', 'src/ConditionalMapBase.cpp', 'src/AffineMap.cpp', 'src/IdentityMap.cpp']

def K(p): return p.key() if isinstance(p, P) else P.c(p).key()

class ComposedNF(NF):
    zero0 = ('LDS',); zeron = ('A',)
    def __init__(self, v, ins, V=None, outidx=None):
        super().__init__(v, 'maps_', scal=self.sc, cont=self.rule, totals=('numCoeffs',))
        self.ins = ins; self.V = V; self.out = outidx
        self.starts = {('in', outidx): [('U', K(0)), ('UD', self.n.key())]} if outidx is not None else {}
    def sc(self, t, nf):
        if t.op == 'fld' and t.a[1] in ('inputDim', 'outputDim'):
            if t.a[0].op == 'this' or self.comp(t.a[0]) is not None: return P.at('d')
        if t.op == 'ext' and t.a[0].op == 'param' and t.a[1] == 0 and t.a[0].a[0] != self.out: return P.at('d')
        if t.op == 'ext' and t.a[0].op == 'param' and t.a[1] == 1: return P.at('N')
        return None
    def k(self, x): return fromkey(x) if isinstance(x, tuple) and x and x[0] == 'P' else None
    def rule(self, x, nf):
        h = x[0]; n = self.n
        if h == 'in' and x[1] in self.ins: return self.ins[x[1]](self)
        if h == 'GLI': return ('LI', x[1])
        if h == 'app' and self.k(x[2]) is not None:
            k = self.k(x[2]); kk = x[2]; m = x[1]; I = x[4:]
            if m in ('EvaluateImpl', 'Evaluate') and I == (('LI', kk),): return ('LI', (k + 1).key())
            if m == 'GradientImpl' and len(I) == 2 and I[0] == ('LI', kk) and I[1] == ('SE', kk): return ('SE', (k - 1).key())
            if m == 'GradientImpl' and len(I) == 2 and I[0] == ('LI', kk) and I[1] == ('A', (k + 1).key()): return ('GA', kk)
            if m == 'InverseImpl' and len(I) == 2 and I[1] == ('R', kk): return ('R', (k - 1).key())
            if m == 'LogDeterminantImpl' and I == (('LI', kk),): return ('LDS', K(1)) if k.const() == 0 else ('LD', kk)
            if m == 'LogDeterminantInputGradImpl' and I == (('LI', kk),): return ('A', kk) if k == n - 1 else ('DI', kk)
        if h == '+':
            for a, b in ((x[1], x[2]), (x[2], x[1])):
                if a[0] == 'LDS' and b == ('LD', a[1]): return ('LDS', (fromkey(a[1]) + 1).key())
                if a[0] == 'GA' and b == ('DI', a[1]): return ('A', a[1])
        if h == 'upd' and len(x) == 5 and x[4] == 'ALL' and isinstance(x[3], tuple) and x[3][0] == 'rng' and self.V:
            b = x[1]; lo, hi = fromkey(x[3][1]), fromkey(x[3][2])
            for base, kk in self.upidx(b):
                if lo == self.PS('numCoeffs', kk) and hi == self.PS('numCoeffs', kk + 1) and x[2] in self.V(self, kk):
                    return ('U', (kk + 1).key()) if base == 'U' else ('UD', kk.key())
        return None
    def upidx(self, b):
        out = []
        if b[0] == 'U': out.append(('U', fromkey(b[1])))
        if b[0] == 'UD': out.append(('UD', fromkey(b[1]) - 1))
        if b in (('in', self.out), ('zero',)): out += [('U', P()), ('UD', self.n - 1)]
        return out

def app(m, k, o, *ins): return ('app', m, k.key(), o) + ins
def plus(a, b): return [('+', a, b), ('+', b, a)]

def V_coeff(nf, k): return [app('CoeffGradImpl', k, 2, ('LI', k.key()), ('SE', k.key()))]
def V_ldcoeff(nf, k):
    a = app('LogDeterminantCoeffGradImpl', k, 1, ('LI', k.key()))
    if k == nf.n - 1: return [a] + plus(a, app('CoeffGradImpl', k, 2, ('LI', k.key()), ('A', (k + 1).key())))
    return plus(a, app('CoeffGradImpl', k, 2, ('LI', k.key()), ('A', (k + 1).key())))

LI0 = lambda nf: ('LI', K(0))
SEn = lambda nf: ('SE', (nf.n - 1).key())
Rn = lambda nf: ('R', (nf.n - 1).key())

COMPOSED = {
    'EvaluateImpl': ({0: LI0}, 1, None, lambda nf: [('LI', nf.n.key())], 'output is the last layer applied to the previous layers in order'),
    'GradientImpl': ({0: LI0, 1: SEn}, 2, None, lambda nf: [('SE', K(-1))], 'sensitivity is pulled back through every layer, last to first, each at its own layer input'),
    'InverseImpl': ({1: Rn}, 2, None, lambda nf: [('R', K(-1))], 'layers are inverted last to first'),
    'LogDeterminantImpl': ({0: LI0}, 1, None, lambda nf: [('LDS', nf.n.key())], 'log determinant is the sum over all layers, each at its own layer input'),
    'LogDeterminantInputGradImpl': ({0: LI0}, 1, None, lambda nf: [('A', K(0))], 'each layer adds its own term and pulls back the later ones'),
    'CoeffGradImpl': ({0: LI0, 1: SEn}, 2, V_coeff, lambda nf: [('UD', K(0)), ('U', nf.n.key())], 'each layer fills its own coefficient block with the pulled-back sensitivity'),
    'LogDeterminantCoeffGradImpl': ({0: LI0}, 1, V_ldcoeff, lambda nf: [('UD', K(0)), ('U', nf.n.key())], 'each layer fills its own coefficient block with its own and the later layers\' terms'),
}

def getrun(db, q, noinline):
    fs = [f for f in db.find(q) if f.body is not None]
    if not fs: return None, None
    v = VF(db, noinline=noinline); v.run(fs[0]); return fs[0], v

def judge(c, nf, got, want, rule, where, what, key):
    if got in want: c.ok(rule, where, what); return
    if nf.recognised(got): c.bad(rule, where, 'required: %s; found: %s' % (what, brief(got)), key)
    else: c.skip(rule, where, 'result not in a recognised form: ' + brief(got))

def brief(x, d=0):
    if d > 7: return '…'
    if isinstance(x, P): return repr(x)
    if isinstance(x, tuple):
        if x and x[0] == 'P': return repr(fromkey(x))
        if not x: return '()'
        return '%s(%s)' % (x[0], ', '.join(brief(y, d + 1) for y in x[1:]))
    return str(x)

def outparam(f, i): return T('param', i, f.ps[i]['n'])

def composed(c, db):
    noin = lambda f: f.name == 'GetLayerInput'
    for m, (ins, oi, V, want, what) in COMPOSED.items():
        f, v = getrun(db, 'mpart::ComposedMap::' + m, noin)
        if f is None: raise CheckError('ComposedMap::%s not found' % m)
        c.count('functions')
        nf = ComposedNF(v, ins, V, oi)
        if len(f.ps) <= oi: raise CheckError('ComposedMap::%s changed its signature' % m)
        key = 'ComposedMap::' + m
        got = nf.c(v.cont(outparam(f, oi)))
        judge(c, nf, got, want(nf), 'R1-composition', f.loc() + ' (ComposedMap::%s)' % m, what, key)
        for e in v.events:
            if e.k == 'ret' and e.get('depth') == 1 and 'snap' in e.d and not e.loops:
                # early return: must be the right value for the number of layers it is taken at
                N = nguard(nf, e.guards)
                sn = e.snap.get(outparam(f, oi))
                if N is None or sn is None: 
                    if e is not last_ret(v): c.skip('R1-early', e.where(), 'early return under a condition that is not about the number of layers')
                    continue
                g2 = nf.subst(nf.c(sn), 'n', P.c(N)); w2 = [nf.subst(w, 'n', P.c(N)) for w in want(nf)]
                judge(c, nf, g2, w2, 'R1-early-return', e.where(), what + ' (with %d layers)' % N, key + '|early')
        # the checkpointer that supplies layer inputs is built from this call's points and layers
        for e in v.events:
            if e.k == 'ctor' and e.cls.endswith('Checkpointer'):
                a = e.args
                okp = any(x is outparam(f, 0) or (isinstance(x, Term) and x.op in ('copy',) and x.a[0] is outparam(f, 0)) for x in a); okm = any(isinstance(x, Term) and nf.isC(x) for x in a)
                c.ob(okp and okm, 'R2-checkpointer-built-from-inputs', e.where(), 'layer inputs are recomputed from this call\'s points and this map\'s layers', key + '|ckpt')
    c.need('R1-composition', 5)

def last_ret(v):
    r = [e for e in v.events if e.k == 'ret' and e.get('depth') == 1]
    return r[-1] if r else None

def nguard(nf, guards):
    for g, pol in guards:
        if g.op in ('==', '!=') and (g.op == '==') == pol:
            d = nf.s(g.a[0]) - nf.s(g.a[1])
            for s in (1, -1):
                q = (d * s - nf.n).const()
                if q is not None: return -q
        if g.op == '<' and pol or g.op == '<=' and pol:
            d = nf.s(g.a[1]) - nf.s(g.a[0]) - (1 if g.op == '<' else 0)   # >= 0
            q = (d + nf.n).const()
            if q is not None and q == 1: return 1     # n <= 1
    return None

# ------------------------------------------------------------------ checkpoints
class CkptNF(ComposedNF):
    def sc(self, t, nf):
        return super().sc(t, nf)
    def opaque(self, t):
        return ('sym', show(t)) if t.op in ('param', 'idx', 'fld') else ('t', t.uid)
    def isback(self, t, name):
        if t.op != 'idx' or t.a[0].op != 'fld' or t.a[0].a[1] != name: return False
        ix = t.a[1]
        return ix.op == '-' and ix.a[0].op == 'call' and ix.a[0].a[0] == 'size' and ix.a[1].op == 'int' and ix.a[1].a[0] == 1
    def c(self, t):
        if t.op == 'content' and self.isback(t.a[0], 'checkpoints_'):
            return ('LI', self.s(T('idx', T('fld', T('this'), 'checkpointLayers_'), T('-', T('call', 'size', T('fld', T('this'), 'checkpointLayers_')), INT(1)))).key())
        return super().c(t)

def checkpoints(c, db):
    noin = lambda f: f.name in ('GetNextCheckpoint',)
    f, v = getrun(db, 'mpart::ComposedMap::Checkpointer::GetLayerInput', noin)
    if f is None:
        c.skip('R3-layer-input', 'src/ComposedMap.cpp', 'no checkpointer in this version'); return
    c.count('functions')
    nf = CkptNF(v, {})
    want = ('LI', nf.s(outparam(f, 0)).key())
    for e in v.events:
        if e.k == 'ret' and e.get('depth') == 1 and e.val is not None:
            val = e.val
            if val.op == 'call' and val.a[0].endswith('GetLayerInput'):
                c.ob(nf.s(val.a[2]).key() == want[1], 'R3-layer-input', e.where(), 'recursion asks for the same layer', 'ckpt|recursion'); continue
            if nf.isback(val, 'checkpoints_'):
                g = [x for x, pol in e.guards if pol and x.op == '==' and any(y is outparam(f, 0) for y in x.a)]
                okk = any(any(nf.isback(y, 'checkpointLayers_') for y in x.a) for x in g)
                c.ob(okk, 'R3-layer-input', e.where(), 'the last checkpoint is returned only for its own layer', 'ckpt|back'); continue
            got = nf.c(e.snap.get(val) or v.cont(val))
            judge(c, nf, got, [want], 'R3-layer-input', e.where(), 'the points returned are the input of the requested layer', 'ckpt|ret')
    # every stored checkpoint is the input of the layer it is filed under
    pushes = [e for e in v.events if e.k == 'call' and e.name in ('push_back', 'emplace_back') and e.obj is not None and e.obj.op == 'fld' and e.obj.a[1] == 'checkpointLayers_']
    for e in pushes:
        dc = [d for d in v.events if d.k == 'deep_copy' and nf.isback(d.dst, 'checkpoints_') and d.guards == e.guards and d.loops == e.loops]
        pc = [d for d in v.events if d.k == 'call' and d.name in ('push_back', 'emplace_back') and d.obj is not None and d.obj.op == 'fld' and d.obj.a[1] == 'checkpoints_' and d.guards == e.guards and d.loops == e.loops]
        if len(dc) == 1 and len(pc) == 1:
            src = dc[0].src
            key = [k for k in v.content if k is src]
            got = nf.c(T('cphi', e.loops[-1], src.a[1])) if src.op == 'lphi' and e.loops else None
            if got is None: c.skip('R4-checkpoint-filed', e.where(), 'source of the stored points not recognised'); continue
            judge(c, nf, got, [('LI', nf.s(e.args[0]).key())], 'R4-checkpoint-filed', e.where(), 'stored points are the input of the layer recorded with them', 'ckpt|push')
        elif not pc:
            c.bad('R4-checkpoint-filed', e.where(), 'a checkpoint layer is recorded without its points', 'ckpt|push')
        else: c.skip('R4-checkpoint-filed', e.where(), 'checkpoint is stored in another way')
    pops = [e for e in v.events if e.k == 'call' and e.name == 'pop_back' and e.obj is not None and e.obj.op == 'fld']
    for e in pops:
        other = {'checkpoints_': 'checkpointLayers_', 'checkpointLayers_': 'checkpoints_'}.get(e.obj.a[1])
        if other: c.ob(any(p.obj.a[1] == other and p.guards == e.guards and p.loops == e.loops for p in pops), 'R4-checkpoint-filed', e.where(), 'points and layer number are dropped together', 'ckpt|pop')

# ------------------------------------------------------------------ triangular
class TriNF(NF):
    zero0 = ('LDS', 'DIS', 'GS', 'U')
    def __init__(self, v, ins, out, V=None, block='outputDim'):
        super().__init__(v, 'comps_', scal=self.sc, cont=self.rule, totals=('numCoeffs', 'outputDim'))
        self.ins = ins; self.out = out; self.V = V; self.block = block
        self.starts = {('in', out): [('U', K(0)), ('UD', self.n.key())]} if out is not None else {}
    def sc(self, t, nf):
        E = P.at('E')
        if t.op == 'fld' and t.a[1] == 'inputDim':
            k = self.comp(t.a[0])
            if k is not None: return E + self.PS('outputDim', k + 1)
            if t.a[0].op == 'this': return E + self.PS('outputDim', self.n)
        if t.op == 'ext' and t.a[0].op == 'param':
            if t.a[1] == 1: return P.at('N')
            role = self.ins.get(t.a[0].a[0])
            if role == 'pts': return E + self.PS('outputDim', self.n)
            if role in ('sens', 'r'): return self.PS('outputDim', self.n)
        return None
    def blk(self, lo, hi, f, off=None):
        """k such that [lo,hi) = [PS(f,k), PS(f,k+1))"""
        for m, co in hi.m.items():
            if len(m) == 1 and isinstance(m[0], tuple) and m[0][0] == 'PS' and m[0][1] == f and co == 1:
                k = fromkey(m[0][2]) - 1
                o = off if off is not None else P()
                if lo == o + self.PS(f, k) and hi == o + self.PS(f, k + 1): return k
        return None
    def rule(self, x, nf):
        h = x[0]; E = P.at('E')
        if h == 'slice' and len(x) == 4 and x[3] == 'ALL' and isinstance(x[2], tuple) and x[2][0] == 'rng' and x[1][0] == 'in':
            role = self.ins.get(x[1][1]); lo, hi = fromkey(x[2][1]), fromkey(x[2][2])
            if role == 'pts' and lo == P():
                d = hi - E
                for m, co in d.m.items():
                    if len(m) == 1 and isinstance(m[0], tuple) and m[0][0] == 'PS' and m[0][1] == 'outputDim' and d == P({m: 1}): return ('LI', (fromkey(m[0][2]) - 1).key())
            if role in ('sens', 'r'):
                k = self.blk(lo, hi, 'outputDim')
                if k is not None: return ('SE', k.key())
        if h == 'app' and isinstance(x[2], tuple) and x[2][0] == 'P':
            kk, m, I = x[2], x[1], x[4:]
            if m == 'LogDeterminantImpl' and I == (('LI', kk),): return ('LDS', K(1)) if fromkey(kk).const() == 0 else ('LD', kk)
            if m == 'LogDeterminantInputGradImpl' and I == (('LI', kk),): return ('DI', kk)
            if m == 'GradientImpl' and I == (('LI', kk), ('SE', kk)): return ('G', kk)
        if h == '+':
            for a, b in ((x[1], x[2]), (x[2], x[1])):
                for s, t in (('LDS', 'LD'), ('DIS', 'DI'), ('GS', 'G')):
                    if a[0] == s and b == (t, a[1]): return (s, (fromkey(a[1]) + 1).key())
        if h == 'upd' and len(x) == 5 and x[4] == 'ALL' and isinstance(x[3], tuple) and x[3][0] == 'rng' and self.V:
            k = self.blk(fromkey(x[3][1]), fromkey(x[3][2]), self.block)
            b = x[1]
            if k is not None and x[2] in self.V(self, k):
                if b[0] == 'U' and fromkey(b[1]) == k: return ('U', (k + 1).key())
                if b[0] == 'UD' and fromkey(b[1]) == k + 1: return ('UD', k.key())
                if b in (('in', self.out), ('zero',)):
                    if k.const() == 0: return ('U', K(1))
                    if k == self.n - 1: return ('UD', k.key())
        if h == 'U' and False: pass
        return None

def TV_eval(nf, k): return [app('EvaluateImpl', k, 1, ('LI', k.key())), app('Evaluate', k, 1, ('LI', k.key()))]
def TV_coeff(nf, k): return [app('CoeffGradImpl', k, 2, ('LI', k.key()), ('SE', k.key()))]
def TV_ldc(nf, k): return [app('LogDeterminantCoeffGradImpl', k, 1, ('LI', k.key()))]
def fam(F): return lambda nf: [(F, nf.n.key())] + ([('UD', K(0))] if F == 'U' else [])

TRI = {
    'EvaluateImpl': ({0: 'pts'}, 1, TV_eval, 'outputDim', fam('U'), 'component k fills its own output rows from the leading inputs it depends on'),
    'GradientImpl': ({0: 'pts', 1: 'sens'}, 2, None, None, fam('GS'), 'sum over all components of their gradients, each with its own sensitivity rows'),
    'CoeffGradImpl': ({0: 'pts', 1: 'sens'}, 2, TV_coeff, 'numCoeffs', fam('U'), 'component k fills its own coefficient block with its own sensitivity rows'),
    'LogDeterminantImpl': ({0: 'pts'}, 1, None, None, fam('LDS'), 'log determinant is the sum over all components'),
    'LogDeterminantCoeffGradImpl': ({0: 'pts'}, 1, TV_ldc, 'numCoeffs', fam('U'), 'component k fills its own coefficient block'),
    'LogDeterminantInputGradImpl': ({0: 'pts'}, 1, None, None, fam('DIS'), 'sum over all components'),
}

from util import lidx_range
def triangular(c, db):
    for m, (ins, oi, V, blk, want, what) in TRI.items():
        f, v = getrun(db, 'mpart::TriangularMap::' + m, None)
        if f is None: raise CheckError('TriangularMap::%s not found' % m)
        c.count('functions')
        nf = TriNF(v, ins, oi, V, blk)
        out = outparam(f, oi)
        key = 'TriangularMap::' + m
        got = nf.c(v.cont(out))
        judge(c, nf, got, want(nf), 'R5-stacking', f.loc() + ' (TriangularMap::%s)' % m, what, key)
        for e in v.events:
            if e.k == 'ret' and e.get('depth') == 1 and 'snap' in e.d and not e.loops and e is not last_ret(v) or e.k == 'ret' and e.get('depth') == 1 and nguard(nf, e.guards) is not None and not e.loops:
                N = nguard(nf, e.guards); sn = e.snap.get(out)
                if N is None or sn is None: c.skip('R5-early', e.where(), 'early return under another condition'); continue
                g2 = nf.subst(nf.c(sn), 'n', P.c(N)); w2 = [nf.subst(w, 'n', P.c(N)) for w in want(nf)]
                judge(c, nf, g2, w2, 'R5-early-return', e.where(), what + ' (with %d components)' % N, key + '|early')
        # accumulation of component gradients covers exactly the rows the component depends on
        if m in ('GradientImpl', 'LogDeterminantInputGradImpl'):
            for e in v.events:
                if e.k == 'write' and e.loc.op == 'idx' and e.loc.a[0] is out and len(e.loc.a) == 3 and e.op in ('+=', '='):
                    comps = [x for x in subterms(e.val) if x.op == 'idx' and x.a[0].op in ('obj', 'subview')]
                    reads_comp = e.op == '+=' or any(x is e.loc for x in subterms(e.val))
                    if not reads_comp or not comps: continue
                    r = lidx_range(v, e.loc.a[1]); s = lidx_range(v, e.loc.a[2])
                    if r is None or s is None: c.skip('R6-accumulated-rows', e.where(), 'row loop not recognised'); continue
                    # which component: the one whose gradient the added buffer holds
                    kk = None
                    for x in comps:
                        for y in v.events:
                            if y.k == 'call' and y.name == m and y.obj is not None and y.args and y.args[-1] is x.a[0]: kk = nf.comp(y.obj)
                    if kk is None: c.skip('R6-accumulated-rows', e.where(), 'component not identified'); continue
                    lo, hi = nf.s(r[0]), nf.s(r[1]); need = P.at('E') + nf.PS('outputDim', kk + 1)
                    c.ob(lo == P() and hi == need and nf.s(s[0]) == P() and nf.s(s[1]) == P.at('N'), 'R6-accumulated-rows', e.where(),
                         'rows [0, inputs of the component) and all points are accumulated', key + '|rows')
    c.need('R5-stacking', 4)
    # inverse: component k reads the leading inputs solved so far and fills its own rows
    f, v = getrun(db, 'mpart::TriangularMap::InverseImpl', None)
    if f is None: raise CheckError('TriangularMap::InverseImpl not found')
    c.count('functions')
    nf = TriNF(v, {1: 'r'}, None)
    E = P.at('E'); calls = [e for e in v.events if e.k == 'call' and e.name == 'InverseImpl' and nf.comp(e.obj) is not None]
    cover = []
    for e in calls:
        k = nf.comp(e.obj)
        if len(e.args) != 3: c.skip('R7-inverse', e.where(), 'unexpected arguments'); continue
        x1, r, o = [strip(x) for x in e.args]
        key = 'TriangularMap::InverseImpl'
        rr = nf.c(e.conts[1])
        judge(c, nf, rr, [('SE', k.key())], 'R7-inverse-target', e.where(), 'component k is given its own rows of the target', key + '|r')
        okx = x1.op == 'subview' and nf.range(x1.a[1]) == ('rng', K(0), (E + nf.PS('outputDim', k + 1)).key())
        oko = o.op == 'subview' and nf.range(o.a[1]) == ('rng', (E + nf.PS('outputDim', k)).key(), (E + nf.PS('outputDim', k + 1)).key())
        if x1.op == 'subview' and o.op == 'subview' and nf.recognised(nf.range(x1.a[1])) and nf.recognised(nf.range(o.a[1])):
            c.ob(okx, 'R7-inverse-inputs', e.where(), 'component k sees the leading inputs, including those solved by earlier components', key + '|x')
            c.ob(oko, 'R7-inverse-outputs', e.where(), 'component k fills its own rows after the given inputs', key + '|o')
            c.ob(x1.a[0] is o.a[0], 'R7-inverse-shared-buffer', e.where(), 'solved rows are written to the buffer later components read', key + '|buf')
            buf = o.a[0]
            ini = None
            for L in v.loops.values():
                for nme, (i0, e0, ph) in L.ccar.items():
                    if nme == show(buf): ini = i0
            if ini is not None and ini.op == 'upd':
                c.ob(ini.a[1] is T('content', outparam(f, 0)) and nf.range(ini.a[2])[:2] == ('rng', K(0)), 'R7-inverse-given-inputs', e.where(), 'given inputs occupy the leading rows', key + '|x1')
            fin = v.cont(outparam(f, 2))
            if fin.op == 'slice':
                c.ob(nf.range(fin.a[1]) == ('rng', E.key(), (E + nf.PS('outputDim', nf.n)).key()), 'R7-inverse-result', f.loc(), 'the result is the solved rows', key + '|res')
            else: c.skip('R7-inverse-result', f.loc(), 'result not taken as a row slice')
        else: c.skip('R7-inverse', e.where(), 'rows not given as slices')
        cover.append((k, e))
    loopcover(c, nf, v, cover, 'R7-inverse-order', 'TriangularMap::InverseImpl', f, up=True)
    c.need('R7-inverse-target', 1)

def strip(x):
    while x.op == 'copy': x = x.a[0]
    return x

def loopcover(c, nf, v, cover, rule, key, f, up):
    """component indices visited are exactly 0..n-1, in increasing (or decreasing) order"""
    if len(cover) == 1:
        k, e = cover[0]
        if len(e.loops) == 1:
            r = nf.rng(e.loops[0])
            if r is not None:
                lo, hi, st = r; i = ('i', e.loops[0]); a = nf.subst(k, i, lo); b = nf.subst(k, i, hi - st); sg = k.coef(i)
                ok = (a == P() and b == nf.n - 1 and sg * st == 1) if up else (a == nf.n - 1 and b == P() and sg * st == -1)
                c.ob(ok and v.loops[e.loops[0]].exact, rule, e.where(), 'every component is visited once, in order (indices %r..%r)' % (a, b), key + '|order'); return
    c.skip(rule, f.loc(), 'visiting order not recognised')

# ------------------------------------------------------------------ summarized
class SumNF(NF):
    def __init__(self, v, sens=None):
        super().__init__(v, '<none>', scal=self.sc, cont=self.rule, totals=())
    def sc(self, t, nf):
        si, so, co = P.at('si'), P.at('so'), P.at('co')
        if t.op == 'fld':
            o = t.a[0]
            nm = o.a[1] if o.op == 'fld' and o.a[0].op == 'this' else ('this' if o.op == 'this' else None)
            r = {('sumFunc_', 'inputDim'): si, ('sumFunc_', 'outputDim'): so, ('comp_', 'inputDim'): so + 1, ('comp_', 'outputDim'): P.c(1), ('this', 'inputDim'): si + 1, ('this', 'outputDim'): P.c(1)}
            if (nm, t.a[1]) in r: return r[(nm, t.a[1])]
        if t.op == 'ext' and t.a[0].op == 'param' and t.a[1] == 1: return P.at('N')
        return None
    def rule(self, x, nf):
        si, so = P.at('si'), P.at('so')
        if x[0] == 'upd' and len(x) == 5:
            # order disjoint row updates canonically; forget the base once every row is defined
            b = x[1]
            ups = [(x[3], x[4], x[2])]
            while isinstance(b, tuple) and b[0] == 'upd' and len(b) == 5: ups.append((b[3], b[4], b[2])); b = b[1]
            if isinstance(b, tuple) and b[0] == 'rows': ups += [(rg, 'ALL', val) for rg, val in b[1:]]
            if all(u[1] == 'ALL' and isinstance(u[0], tuple) and u[0][0] == 'rng' for u in ups) and len({u[0] for u in ups}) == len(ups):
                ups.sort(key=lambda u: repr(fromkey(u[0][1])) if fromkey(u[0][1]).m else '')
                return ('rows',) + tuple((u[0], u[2]) for u in ups)
        if x[0] == 'slice' and len(x) == 4 and x[3] == 'ALL' and isinstance(x[1], tuple) and x[1][0] == 'rows':
            for rg, val in x[1][1:]:
                if rg == x[2]: return val
        return None

def R(lo, hi): return ('rng', (lo if isinstance(lo, P) else P.c(lo)).key(), (hi if isinstance(hi, P) else P.c(hi)).key())

def summarized(c, db):
    si, so = P.at('si'), P.at('so')
    lead = lambda i: ('slice', ('in', i), R(0, si), 'ALL')
    A = lambda m, ob, o, *ins: ('app', m, ('obj', ob), o) + ins
    S = ('rows', (R(0, so), A('EvaluateImpl', 'sumFunc_', 1, lead(0))), (R(so, so + 1), ('slice', ('in', 0), R(si, si + 1), 'ALL')))
    def chain(m, *extra):
        g = A(m, 'comp_', 1 + len(extra), S, *extra)
        pull = A('GradientImpl', 'sumFunc_', 2, lead(0), ('slice', g, R(0, so), 'ALL'))
        return ('rows', (R(0, si), pull), (R(si, si + 1), ('slice', g, R(so, so + 1), 'ALL')))
    spec = {
        'EvaluateImpl': (1, A('EvaluateImpl', 'comp_', 1, S), 'the component is evaluated at (summary of the leading inputs, last input)'),
        'LogDeterminantImpl': (1, A('LogDeterminantImpl', 'comp_', 1, S), 'log determinant of the component at the summarised point'),
        'CoeffGradImpl': (2, A('CoeffGradImpl', 'comp_', 2, S, ('in', 1)), 'coefficient gradient of the component at the summarised point'),
        'LogDeterminantCoeffGradImpl': (1, A('LogDeterminantCoeffGradImpl', 'comp_', 1, S), 'log determinant coefficient gradient of the component at the summarised point'),
        'GradientImpl': (2, chain('GradientImpl', ('in', 1)), 'the component gradient is pulled back through the summary'),
        'LogDeterminantInputGradImpl': (1, chain('LogDeterminantInputGradImpl'), 'the component log determinant gradient is pulled back through the summary'),
    }
    for m, (oi, want, what) in spec.items():
        f, v = getrun(db, 'mpart::SummarizedMap::' + m, None)
        if f is None: raise CheckError('SummarizedMap::%s not found' % m)
        c.count('functions')
        nf = SumNF(v)
        got = nf.c(v.cont(outparam(f, oi)))
        judge(c, nf, got, [want], 'R8-summary', f.loc() + ' (SummarizedMap::%s)' % m, what, 'SummarizedMap::' + m)
    f, v = getrun(db, 'mpart::SummarizedMap::InverseImpl', None)
    nf = SumNF(v)
    got = nf.c(v.cont(outparam(f, 2)))
    sums = [A('EvaluateImpl', 'sumFunc_', 1, lead(0)), A('Evaluate', 'sumFunc_', 1, lead(0)), ]
    want = [A('InverseImpl', 'comp_', 2, s, ('in', 1)) for s in sums]
    judge(c, nf, got, want, 'R8-summary', f.loc() + ' (SummarizedMap::InverseImpl)', 'the component is inverted given the summary of the leading inputs', 'SummarizedMap::InverseImpl')
    c.need('R8-summary', 5)

RULE = ("Gated value-flow analysis of every method of the composed, stacked (block-triangular) and summarised maps: the contents of the output "
        "buffer are computed as a term over the component operations (loop-carried buffers by inductive invariant, buffer swaps and sub-views tracked) "
        "and compared with the required composition: layers applied first to last, derivatives pulled back last to first at each layer's own input, "
        "component k of a stack reading its leading inputs and filling its own rows and coefficient block, log determinants summed over all components.")

def check():
    c = Check('C05', RULE)
    db = DB([os.path.join(REPO, t) for t in TUS])
    composed(c, db)
    checkpoints(c, db)
    triangular(c, db)
    summarized(c, db)
    return c
