"""Matrix-level abstract interpretation of one function's value-flow events, per configuration case.

Extents are linear forms over positive symbols fixed by the case (so branch conditions on extents are decided by sign);
contents of buffers are linear combinations of matrix atoms (inputs, fields, products, solves, slices, broadcasts)."""
from fractions import Fraction
from vf import T, Term, INT, is_all, show
from util import lidx_range, flat, lists

class Unknown(Exception): pass

class L:
    """linear form: {symbol: coefficient}, constant under ''"""
    __slots__ = ('c',)
    def __init__(s, c=None): s.c = {k: v for k, v in (c or {}).items() if v != 0}
    @staticmethod
    def of(x): return x if isinstance(x, L) else L({'': x}) if isinstance(x, int) else L({x: 1})
    def __add__(s, o): o = L.of(o); return L({k: s.c.get(k, 0) + o.c.get(k, 0) for k in set(s.c) | set(o.c)})
    def __neg__(s): return L({k: -v for k, v in s.c.items()})
    def __sub__(s, o): return s + (-L.of(o))
    def __eq__(s, o): return isinstance(o, L) and s.c == o.c
    def __hash__(s): return hash(frozenset(s.c.items()))
    def __repr__(s): return '+'.join(('%s' % v if k == '' else k if v == 1 else '%s*%s' % (v, k)) for k, v in sorted(s.c.items())) or '0'
    def mul(s, o):
        if set(s.c) <= {''}: return L({k: v * s.c.get('', 0) for k, v in o.c.items()})
        if set(o.c) <= {''}: return o.mul(s)
        raise Unknown('product of extents')
    def sign(s):
        """1, 0, -1 when decided for all positive symbol values (symbols are >= 1), else None"""
        if not s.c: return 0
        lo = s.c.get('', 0) + sum(v for k, v in s.c.items() if k)
        if all(v > 0 for k, v in s.c.items() if k) and lo > 0: return 1
        if all(v < 0 for k, v in s.c.items() if k) and lo < 0: return -1
        return None

def lin(*pairs):
    """lin((coefficient symbols, atom), ...) -> combination"""
    r = {}
    for co, at in pairs:
        n, sy = (co, ()) if not isinstance(co, tuple) else (1, co)
        r[(sy, at)] = r.get((sy, at), 0) + Fraction(n)
    return {k: v for k, v in r.items() if v != 0}

def ladd(x, y, s=1):
    r = dict(x)
    for k, v in y.items(): r[k] = r.get(k, 0) + s * v
    return {k: v for k, v in r.items() if v != 0}
def lmap(x, f):
    r = {}
    for (sy, at), v in x.items():
        k = (sy, f(at)); r[k] = r.get(k, 0) + v
    return {k: v for k, v in r.items() if v != 0}
def lmul(x, y):
    r = {}
    for (s1, a1), v1 in x.items():
        for (s2, a2), v2 in y.items():
            at = a2 if a1 == 'one' else a1 if a2 == 'one' else ('mul', a1, a2)
            k = (tuple(sorted(s1 + s2)), at); r[k] = r.get(k, 0) + v1 * v2
    return {k: v for k, v in r.items() if v != 0}
def inverse(x):
    """1/x for a single scalar term"""
    if len(x) != 1:
        if x and all(at == 'one' for _, at in x): return {(('1/*(%s)' % lshow(x),), 'one'): Fraction(1)}
        raise Unknown('division by ' + lshow(x))
    ((sy, at), v), = x.items()
    if at != 'one': raise Unknown('division by ' + lshow(x))
    return {(tuple(sorted(z[3:] if z.startswith('1/*') else '1/*' + z for z in map(str, sy))), 'one'): 1 / Fraction(v)}
def cancel(x):
    """s * (1/s) removed"""
    r = {}
    for (sy, at), v in x.items():
        sy = [str(z) for z in sy]
        for z in [z for z in sy if not z.startswith('1/*')]:
            if z in sy and '1/*' + z in sy: sy.remove(z); sy.remove('1/*' + z)
        k = (tuple(sorted(sy)), at); r[k] = r.get(k, 0) + v
    return {k: v for k, v in r.items() if v != 0}
def had(x, y):
    """element-wise product"""
    r = {}
    for (s1, a1), v1 in x.items():
        for (s2, a2), v2 in y.items():
            at = a2 if a1 == 'one' else a1 if a2 == 'one' else ('had',) + tuple(sorted((a1, a2), key=str))
            k = (tuple(sorted(s1 + s2, key=str)), at); r[k] = r.get(k, 0) + v1 * v2
    return {k: v for k, v in r.items() if v != 0}
def summed(x, axis, n):
    """sum over one index of an element-wise expression; n = symbol combination counting the index"""
    r = {}
    for (sy, at), v in x.items():
        if at == 'one':
            for (s2, _), v2 in n.items(): k = (tuple(sorted(sy + s2, key=str)), 'one'); r[k] = r.get(k, 0) + v * v2
        else: k = (sy, ('sum%d' % axis, at)); r[k] = r.get(k, 0) + v
    return {k: v for k, v in r.items() if v != 0}
def scalar(x): return all(at == 'one' for (_, at) in x)
def tr(a):
    if a == 'one': return a
    if isinstance(a, tuple) and a[0] == 'T': return a[1]
    if isinstance(a, tuple) and a[0] == 'mul': return ('mul', tr(a[2]), tr(a[1]))
    return ('T', a)
def lshow(x): return ' + '.join('%s%s' % ('' if v == 1 else '%s*' % v, '*'.join(map(str, sy + (ashow(at),)))) for (sy, at), v in sorted(x.items(), key=str)) or '0'
def ashow(a):
    if not isinstance(a, tuple): return str(a)
    if a[0] in ('in', 'fld'): return str(a[1])
    if a[0] == 'T': return ashow(a[1]) + "'"
    if a[0] == 'mul': return '(%s %s)' % (ashow(a[1]), ashow(a[2]))
    return '%s(%s)' % (a[0], ','.join(lshow(dict(x)) if isinstance(x, frozenset) else ashow(x) if not isinstance(x, L) else repr(x) for x in a[1:]))

def slc(at, rel):
    """slice of an atom, nested slices merged"""
    if isinstance(at, tuple) and at[0] == 'slice' and len(at[2]) == len(rel):
        m = tuple((r if u is None else u if r is None else (u[0] + r[0], u[0] + r[1])) for u, r in zip(at[2], rel))
        return ('slice', at[1], m)
    return ('slice', at, rel)

class Mat:
    def __init__(self, v, shapes, sizes=None, facts=None, outs=(), inplace=None):
        """shapes: name (param or field) -> tuple of L; sizes: scalar names -> L; facts: callable(term)->bool|None; outs: names whose initial content is stale"""
        self.v = v; self.shapes = shapes; self.sizes = sizes or {}; self.facts = facts; self.outs = set(outs)
        self.buf = {}; self.alias = {}; self.hooks = {}; self.val = {}; self.tshape = {}; self.red = {}; self.inv = {}
    # --- names
    def name(self, t):
        if t.op == 'param': return str(t.a[0]) if isinstance(t.a[0], str) else str(t.a[-1])
        if t.op == 'fld': return str(t.a[1])
        if t.op == 'var': return str(t.a[-1])
        return None
    def resolve(self, t):
        for _ in range(40):
            if t in self.alias: t = self.alias[t]; continue
            if t.op in ('copy', 'cast') and isinstance(t.a[0], Term): t = t.a[0]; continue
            if t.op == 'ite':
                c = self.truth(t.a[0])
                if c is None: raise Unknown('condition ' + show(t.a[0])[:80])
                t = t.a[1] if c else t.a[2]; continue
            if t.op == 'data': t = t.a[0]; continue
            if t.op == 'obj':
                xs = [x for x in t.a[1:] if isinstance(x, Term)]
                if t.a[0] == 'Eigen::Map' and xs: t = xs[0]; continue
                if t.a[0] == 'Kokkos::View' and xs and xs[0].op == 'data': t = xs[0]; continue
                if t.a[0].endswith('Functor'): break
            if t.op == 'call' and t.a[0].split('::')[-1] == 'noalias': t = t.a[1]; continue
            if t.op == 'fld' and isinstance(t.a[0], Term) and t.a[0].op == 'obj' and t.a[1] == 'view': t = [x for x in t.a[0].a[1:] if isinstance(x, Term)][0]; continue
            break
        return t
    # --- extents
    def shape(self, t):
        t = self.resolve(t); n = self.name(t)
        if t in self.tshape: return self.tshape[t]
        if n in self.shapes: return self.shapes[n]
        if t.op == 'subview':
            sh = []; base = self.shape(t.a[0])
            for i, s in enumerate(t.a[1:]):
                r = self.rng(s, base[i])
                if r is not None: sh.append(r[1] - r[0])
            return tuple(sh)
        if t.op == 'obj' and t.a[0] == 'Kokkos::View':
            xs = [x for x in t.a[1:] if isinstance(x, Term)]
            if xs and xs[0].op in ('str',) or len(xs) > 1: return tuple(self.size(x) for x in xs[1:])
            return (L(),)
        raise Unknown('shape of ' + show(t)[:80])
    def rng(self, s, ext):
        """(lo, hi) of a slice specifier, None for a single index"""
        if is_all(s): return (L(), ext)
        if s.op == 'copy': return self.rng(s.a[0], ext)
        if s.op == 'pair': return (self.size(s.a[0]), self.size(s.a[1]))
        if s.op == 'obj' and 'pair' in str(s.a[0]):
            xs = [x for x in s.a[1:] if isinstance(x, Term)]
            if len(xs) == 2: return (self.size(xs[0]), self.size(xs[1]))
            if len(xs) == 1: return self.rng(xs[0], ext)
        return None
    def size(self, t):
        if t.op in ('copy', 'cast') and isinstance(t.a[0], Term): return self.size(t.a[0])
        if t.op == 'int': return L({'': t.a[0]})
        if t.op in ('+', '-') and len(t.a) == 2:
            x, y = self.size(t.a[0]), self.size(t.a[1]); return x + y if t.op == '+' else x - y
        if t.op == '*' and len(t.a) == 2: return self.size(t.a[0]).mul(self.size(t.a[1]))
        if t.op == 'neg': return -self.size(t.a[0])
        if t.op in ('max', 'min') and len(t.a) == 2:
            x, y = self.size(t.a[0]), self.size(t.a[1]); g = (x - y).sign()
            if g is not None: return x if (g >= 0) == (t.op == 'max') else y
        if t.op == 'ite':
            c = self.truth(t.a[0])
            if c is not None: return self.size(t.a[1] if c else t.a[2])
        if t.op == 'ext':
            i = t.a[1].a[0] if isinstance(t.a[1], Term) else t.a[1]
            sh = self.shape(t.a[0])
            return sh[i] if i < len(sh) else L({'': 1})
        if t.op == 'call' and t.a[0].split('::')[-1] in ('extent', 'extent_int', 'size', 'rows', 'cols'):
            q = t.a[0].split('::')[-1]; o = next((x for x in t.a[1:] if isinstance(x, Term)), None); sh = self.shape(o)
            if q == 'size':
                r = sh[0]
                for x in sh[1:]: r = r.mul(x)
                return r
            if q in ('rows', 'cols'): return sh[0 if q == 'rows' else 1]
            i = [x for x in t.a[2:] if isinstance(x, Term)][0].a[0]
            return sh[i] if i < len(sh) else L({'': 1})
        n = self.name(t)
        if n in self.sizes: return self.sizes[n]
        raise Unknown('size ' + show(t)[:80])
    def truth(self, t):
        if t.op == 'bool': return bool(t.a[0])
        if t.op == 'int': return t.a[0] != 0
        if t.op == '!': x = self.truth(t.a[0]); return None if x is None else not x
        if t.op in ('copy', 'cast') and isinstance(t.a[0], Term): return self.truth(t.a[0])
        if t.op in ('&&', '||', '&', '|'):
            xs = [self.truth(x) for x in t.a]
            if t.op[0] == '&': return False if False in xs else None if None in xs else True
            return True if True in xs else None if None in xs else False
        if t.op == 'ite':
            c = self.truth(t.a[0])
            return None if c is None else self.truth(t.a[1] if c else t.a[2])
        if self.facts is not None:
            r = self.facts(self, t)
            if r is not None: return r
        if t.op in ('==', '!=', '<', '<=', '>', '>='):
            try: s = (self.size(t.a[0]) - self.size(t.a[1])).sign()
            except Unknown: return None
            if s is None: return None
            return {'==': s == 0, '!=': s != 0, '<': s < 0, '<=': s <= 0, '>': s > 0, '>=': s >= 0}[t.op]
        return None
    # --- contents
    def ups(self, b):
        if b not in self.buf: self.buf[b] = []
        return self.buf[b]
    def initial(self, b):
        n = self.name(b)
        if n is not None and n in self.outs: return lin((1, 'stale'))
        if n is not None: return lin((1, ('fld' if b.op == 'fld' else 'in', n)))
        if b.op == 'obj' and b.a[0] == 'Kokkos::View':
            xs = [x for x in b.a[1:] if isinstance(x, Term)]
            if xs and xs[0].op == 'str': return {}
            return lin((1, 'uninit'))
        return lin((1, ('obj', show(b)[:60])))
    def block(self, b, rs):
        """content of the block with ranges rs (list of (lo,hi)) of buffer b"""
        sh = None
        for (ur, x) in reversed(self.ups(b)):
            rel = [self.cmp(q, u) for q, u in zip(rs, ur)]
            if 'out' in rel: continue
            if all(r == 'in' for r in rel):
                return x(rs, ur) if callable(x) else self.restrict(x, rs, ur)
            raise Unknown('block of %s only partly written' % show(b)[:40])
        ini = self.initial(b)
        try: sh = self.shape(b)
        except Unknown: return ini
        return self.restrict(ini, rs, [(L(), s) for s in sh])
    def restrict(self, x, rs, ur):
        if all(q == u for q, u in zip(rs, ur)): return x
        rel = tuple((q[0] - u[0], q[1] - u[0]) if q != u else None for q, u in zip(rs, ur))
        return lmap(x, lambda at: at if at in ('one', 'stale', 'uninit') else slc(at, rel))
    def pieces(self, b, rs):
        """block() split along the boundaries of the writes: [(ranges, content)]; needs concrete extents"""
        todo = [list(rs)]; out = []
        while todo:
            q = todo.pop()
            if any((hi - lo).sign() == 0 for lo, hi in q): continue
            try: out.append((q, self.block(b, q))); continue
            except Unknown: pass
            if len(todo) + len(out) > 60: raise Unknown('too many pieces')
            for ur, _ in reversed(self.ups(b)):
                cut = next(((i, x) for i, ((lo, hi), u) in enumerate(zip(q, ur)) for x in u if (x - lo).sign() == 1 and (hi - x).sign() == 1), None)
                if cut: break
            if not cut: raise Unknown('block of %s only partly written' % show(b)[:40])
            i, x = cut
            for r in ((q[i][0], x), (x, q[i][1])): todo.append(q[:i] + [r] + q[i + 1:])
        return out
    def cmp(self, q, u):
        if q == u: return 'in'
        a, b = (q[0] - u[0]).sign(), (u[1] - q[1]).sign()
        if a is not None and b is not None and a >= 0 and b >= 0: return 'in'
        c, d = (q[0] - u[1]).sign(), (u[0] - q[1]).sign()
        if c is not None and c >= 0 or d is not None and d >= 0: return 'out'
        return 'part'
    def locate(self, t):
        """(buffer, ranges) a view term denotes"""
        t = self.resolve(t)
        if t.op == 'subview':
            b, rs = self.locate(t.a[0]); k = 0; out = []
            free = [i for i, r in enumerate(rs) if r[0] != 'at']
            out = list(rs)
            for s, i in zip(t.a[1:], free):
                lo, hi = rs[i]; r = self.rng(s, hi - lo)
                if r is None: out[i] = ('at', lo + self.size(s))
                else: out[i] = (lo + r[0], lo + r[1])
            return b, out
        return t, [(L(), s) for s in self.shape(t)]
    def content(self, t):
        b, rs = self.locate(t)
        if any(r[0] == 'at' for r in rs): raise Unknown('row/column of ' + show(b)[:40])
        return self.block(b, rs)
    def put(self, t, x):
        b, rs = self.locate(t)
        if any(r[0] == 'at' for r in rs): raise Unknown('row/column of ' + show(b)[:40])
        self.ups(b).append((rs, x))
    # --- expressions
    def ex(self, t, at=None, rs=None):
        """value of a matrix expression; at = index terms for element-wise expressions (rs the written ranges)"""
        if t.op in ('copy', 'cast') and isinstance(t.a[0], Term) and t not in self.alias: return self.ex(t.a[0], at, rs)
        if t.op in ('op+', 'op-', 'op*', '+', '-', '*') and t in self.alias: return self.content(t)
        if t.op == 'int' or t.op == 'num' or t.op == 'float' or t.op == 'flt': return lin((Fraction(str(t.a[0])), 'one')) if t.a[0] else {}
        if t.op in ('+', '-', 'op+', 'op-') and len(t.a) == 2:
            return ladd(self.ex(t.a[0], at, rs), self.ex(t.a[1], at, rs), 1 if t.op[-1] == '+' else -1)
        if t.op in ('neg', 'op-') and len(t.a) == 1: return ladd({}, self.ex(t.a[0], at, rs), -1)
        if t.op in ('*', 'op*') and len(t.a) == 2:
            x, y = self.ex(t.a[0], at, rs), self.ex(t.a[1], at, rs)
            if at is not None and not (scalar(x) or scalar(y)): return had(x, y)
            return lmul(x, y)
        if t.op == 'ite':
            c = self.truth(t.a[0])
            if c is None: raise Unknown('condition ' + show(t.a[0])[:80])
            return self.ex(t.a[1] if c else t.a[2], at, rs)
        if t.op in ('/', 'op/') and len(t.a) == 2: return lmul(self.ex(t.a[0], at, rs), inverse(self.ex(t.a[1], at, rs)))
        if t.op == 'reduced' and t in self.red: return self.red[t]
        if t.op == 'ext' or t.op == 'call' and t.a[0].split('::')[-1] in ('extent', 'extent_int', 'size', 'rows', 'cols') and t not in self.alias and t.a[0].split('::')[-1] not in self.hooks:
            return {((k,) if k else (), 'one'): Fraction(v) for k, v in self.size(t).c.items()}
        if t.op == 'call':
            if t in self.tshape: return self.content(t)
            q = t.a[0].split('::')[-1]; o = next((x for x in t.a[1:] if isinstance(x, Term)), None)
            if t in self.alias: return self.content(t)
            if q in ('eval', 'matrix', 'array') and o is not None: return self.ex(o, at, rs)
            if q == 'transpose' and o is not None: return lmap(self.ex(o, at, rs), tr)
            if q in self.hooks: return self.hooks[q](self, t)
        if at is not None and t.op == 'idx':
            base, ix = t.a[0], t.a[1:]
            b, br = self.locate(base)
            if any(r[0] == 'at' for r in br): raise Unknown('element of a row')
            if len(ix) == len(at) and all(x is y for x, y in zip(ix, at)):
                return self.block(b, [(lo + br[i][0], hi + br[i][0]) for i, (lo, hi) in enumerate(rs)])
            if len(ix) == 2 and len(at) == 2 and ix[0] is at[1] and ix[1] is at[0]:
                return lmap(self.block(b, [(lo + br[i][0], hi + br[i][0]) for i, (lo, hi) in enumerate([rs[1], rs[0]])]), tr)
            if len(ix) == 1 and len(at) == 2:
                for d in (0, 1):
                    if ix[0] is at[d]: return lmap(self.block(b, [(rs[d][0] + br[0][0], rs[d][1] + br[0][0])]), lambda a: a if a == 'one' else ('bc' if d == 0 else 'bcT', a))
            raise Unknown('element ' + show(t)[:60])
        r = self.resolve(t)
        n = self.name(r)
        if n is not None and n not in self.shapes:
            return lin(((n,), 'one'))
        if r is not t and r.op in ('int', 'call', 'op+', 'op*', '+', '*', 'neg'): return self.ex(r, at, rs)
        if n is not None or r.op in ('subview', 'obj'): return self.content(r)
        raise Unknown('value ' + show(t)[:80])
    # --- replay
    def live(self, e):
        for g, p in e.guards:
            x = self.truth(g)
            if x is None: raise Unknown('condition ' + show(g)[:80])
            if x != p: return False
        return True
    def lrange(self, t):
        rg = lidx_range(self.v, t)
        if rg is None or rg[2] != 1: raise Unknown('index ' + show(t)[:60])
        lo, hi = rg[0], rg[1]
        return (self.size(lo), self.size(hi))
    def run(self, events):
        for e in events:
            if e.k in ('write', 'deep_copy', 'call', 'ret', 'throw', 'decl') and not self.live(e): continue
            if e.k == 'throw': return 'throw'
            if e.k == 'ret' and e.d.get('depth', 1) == 1 and not e.d.get('lam'):
                self.result = e.d.get('val'); return 'ret'
            if e.k == 'decl':
                if e.d.get('val') is not None and e.var is not e.val and e.val.op != 'uninit': self.alias.setdefault(e.var, e.val)
            elif e.k == 'deep_copy':
                if e.loops: raise Unknown('deep_copy in a loop')
                x = self.ex(e.src) if e.src.op in ('int', 'num', 'flt', 'float') else self.content(e.src); self.put(e.dst, x)
            elif e.k == 'write': self.dowrite(e)
            elif e.k == 'call': self.docall(e)
        return 'end'
    def reduction(self, e):
        """write to a reduction variable inside a parallel_reduce"""
        loc = e.loc; rv = loc.a[0] if loc.op == 'idx' else loc
        key = rv.a[0]; L = self.v.loops.get(key)
        par = [x for x in self.v.events if x.k == 'parallel' and x.d.get('loop') is L]
        if L is None: raise Unknown('reduction loop')
        ri = T('lidx', key)
        own = [i for i in e.loops if i != key]
        if loc.op != 'idx':
            if own: raise Unknown('loop inside a scalar reduction')
            x = self.ex(self.minus(e.val, loc), (ri,), [self.lrange(ri)])
            n = self.lrange(ri); N = {((k,) if k else (), 'one'): Fraction(v) for k, v in (n[1] - n[0]).c.items()}
            self.red.setdefault(('sum', key), {}); self.red[('sum', key)] = ladd(self.red[('sum', key)], summed(x, 0, N)); return
        if len(own) != 1 or len(loc.a) != 2 or loc.a[1].op != 'lidx' or loc.a[1].a[0] != own[0]: raise Unknown('array reduction')
        ki = loc.a[1]; rr, kr = self.lrange(ri), self.lrange(ki)
        x = self.ex(self.minus(e.val, loc), (ri, ki), [rr, kr])
        N = {((k,) if k else (), 'one'): Fraction(v) for k, v in (rr[1] - rr[0]).c.items()}
        tg = [t for t in (par[0].d.get('reducers') or [])] if par else []
        if len(tg) != 1: raise Unknown('reduction target')
        tg = tg[0]; off = L0 = None
        while tg.op in ('copy', 'cast'): tg = tg.a[0]
        if tg.op == 'padd': base, o = tg.a[0], self.size(tg.a[1])
        elif tg.op in ('addr', '&') and tg.a[-1].op == 'idx' and len(tg.a[-1].a) == 2: base, o = tg.a[-1].a[0], self.size(tg.a[-1].a[1])
        elif tg.op == 'data' or tg.op in ('obj', 'param', 'var', 'fld', 'subview'): base, o = tg, globals()['L']()
        else: raise Unknown('reduction target ' + show(tg)[:60])
        b, br = self.locate(base)
        if len(br) != 1: raise Unknown('reduction target rank')
        x = ladd(self.red.get(('arr', key), {}), summed(x, 0, N)); self.red[('arr', key)] = x
        lo = br[0][0] + o
        self.ups(b).append(([(lo + kr[0], lo + kr[1])], x))
    def minus(self, val, loc):
        """the increment added to loc by val"""
        def same(t): return t is loc or t.op in ('copy', 'cast') and isinstance(t.a[0], Term) and same(t.a[0])
        if val.op == '+' and same(val.a[0]): return val.a[1]
        if val.op == '+' and same(val.a[1]): return val.a[0]
        if val.op == '-' and same(val.a[0]): return T('neg', val.a[1])
        raise Unknown('reduction update ' + show(val)[:60])
    def dowrite(self, e):
        rv = e.loc.a[0] if e.loc.op == 'idx' else e.loc
        if rv.op == 'redvar': return self.reduction(e)
        if e.val.op == 'reduced':
            s_ = self.red.get(('sum', e.val.a[0]))
            if s_ is not None:
                for L, x in ((e.val, s_),): self.red[L] = x
        if e.loc.op == 'idx':
            r0 = self.resolve(e.loc.a[0])
            if r0.op == 'obj' and '[' in str(r0.a[0]) or r0.op == 'var' and '[' in self.v.types.get(r0, ''): return   # a local C array of scalars (view strides)
            b, br = self.locate(e.loc.a[0]); ix = e.loc.a[1:]
            if not e.loops: raise Unknown('single element write')
            if any(r[0] == 'at' for r in br): raise Unknown('element of a row')
            rs = [self.lrange(i) for i in ix]
            if len(rs) != len(br): raise Unknown('rank')
            x = self.ex(e.val, ix, rs)
            self.ups(b).append(([(lo + q[0], hi + q[0]) for (lo, hi), q in zip(rs, br)], x)); return
        tgt = e.loc; al = self.alias.get(tgt)
        if al is not None and al.op == 'obj' and al.a[0] == 'Eigen::Map' or tgt.op == 'call' and tgt.a[0].split('::')[-1] == 'noalias' or tgt.op == 'obj' and tgt.a[0] == 'Eigen::Map':
            x = self.ex(e.val); self.put(tgt, x); self.alias[e.val] = self.locate(tgt)[0]; return
        if tgt.op in ('fld', 'var'): self.val[self.name(tgt)] = e.val
        if tgt.op == 'var': self.alias[tgt] = e.val
    def docall(self, e):
        h = self.hooks.get('!' + e.d.get('name', ''))
        if h is not None: h(self, e)
