"""C24: every array conversion addresses the same elements as the array it was given."""
import re, os
from harness import Check
from db import DB, REPO, VERIF, CheckError, walk
from vf import VF, T, Term, INT
from util import lidx_range

RULE = ("Address-map comparison: each conversion between pointers, std::vectors, Eigen matrices, torch descriptors and Kokkos views is abstracted to "
        "(pointer, extents, strides) of its source (from the parameter types) and of its result (value-flow term of the returned object and its type); the two must "
        "denote the same address for every element. Copying conversions must write every element from the same position. Every View::stride(ptr) call must be given "
        "room for rank+1 values.")

class Unknown(Exception): pass
FILES = ('ArrayConversions.h',)

def strip(t):
    while t.op in ('copy', 'cast') and t.a and isinstance(t.a[0], Term): t = t.a[0]
    return t

def opts(ty):
    """storage option of the Eigen matrix inside a type string: 0 column major, 1 row major, None if it is a vector"""
    m = re.search(r'Eigen::Matrix<[\w ]+, (-?\d+), (-?\d+), (\d+)', ty)
    if not m: return 'none'
    return None if m.group(2) == '1' else int(m.group(3)) & 1

def rank(ty):
    m = re.search(r'View<([^,>]*)', ty)
    return m.group(1).count('*') if m else 0

def layout(ty):
    m = re.search(r'Layout(Left|Right|Stride)', ty)
    return m.group(1) if m else 'Right'

class Src:
    """symbolic pointer, extents and strides of the array a conversion is given"""
    def __init__(s, f, rty):
        ps = f.ps; s.p = ps[0]['n']; s.ty = ps[0]['t']; s.pr = [p['n'] for p in ps]; s.kind = None
        t = s.ty
        if 'std::tuple' in t: s.kind = 'tuple'; s.rank = 2 if 'std::tuple<int, int>' in t else 1
        elif 'std::vector' in t: s.kind = 'vector'; s.rank = len(ps)
        elif 'Eigen::Ref' in t or 'Eigen::Matrix' in t or 'Eigen::Map' in t: s.kind = 'eigen'; s.rank = 1 if opts(t) is None else 2
        elif 'View<' in t: s.kind = 'view'; s.rank = rank(t)
        elif t.strip().endswith('*'): s.kind = 'ptr'; s.rank = len(ps) - 1
        else: raise Unknown('source type ' + t)
        L = layout(rty) if s.kind == 'ptr' else 'Right' if s.kind == 'vector' else layout(t) if s.kind == 'view' else 'Stride'
        s.X = ['X0', 'X1'][:s.rank]
        if L == 'Stride' : s.S = ['S0', 'S1'][:s.rank]
        elif s.rank == 1: s.S = [1]
        elif L == 'Right': s.S = ['S0' if s.kind == 'view' else 'X1', 1]
        else: s.S = [1, 'S1' if s.kind == 'view' else 'X0']
        if s.kind == 'eigen' and s.rank == 2 and 'Eigen::Stride<-1, 1>' in t: s.S = [ 'S0', 1] if opts(t) else [1, 'S1']
        if s.kind == 'vector' and s.rank == 2: s.X = [('/', 'N', 'X1'), 'X1']
        if s.kind == 'vector' and s.rank == 1: s.X = ['N']
    def isp(s, t):
        t = strip(t); return t.op == 'param' and s.p in (str(t.a[0]), str(t.a[-1]), *[str(x) for x in t.a])
    def pname(s, t):
        for x in t.a:
            if isinstance(x, str) and x in s.pr: return x
        return None
    def stride(s, i): return s.S[i]
    def n(s, t):
        """normal form of a size/stride expression"""
        t = strip(t)
        if t.op == 'int': return t.a[0]
        if t.op in ('+', '-', '*', '/', '%') and len(t.a) == 2:
            x, y = s.n(t.a[0]), s.n(t.a[1])
            if t.op == '*' and 1 in (x, y): return y if x == 1 else x
            if t.op == '/' and y == 1: return x
            return (t.op,) + (tuple(sorted((x, y), key=str)) if t.op in '+*' else (x, y))
        if t.op in ('max', 'min') and len(t.a) == 2:
            x, y = s.n(t.a[0]), s.n(t.a[1])
            if x == y: return x
            if 1 in (x, y): return (y if x == 1 else x) if t.op == 'max' else 1
            return (t.op,) + tuple(sorted((x, y), key=str))
        if t.op == 'ite': return ('ite', s.n(t.a[0]), s.n(t.a[1]), s.n(t.a[2]))
        if t.op in ('==', '!=', '<', '<=', '>', '>=', '&&', '||') and len(t.a) == 2: return (t.op, s.n(t.a[0]), s.n(t.a[1]))
        if t.op == '!': return ('!', s.n(t.a[0]))
        if t.op == 'bool': return int(t.a[0])
        if t.op in ('sum', 'add', 'mul', 'lin'): return ('lin', str(t))
        if t.op == 'param':
            nm = s.pname(t)
            if nm is None: raise Unknown(str(t))
            i = s.pr.index(nm)
            if s.kind == 'ptr' and i >= 1: return s.X[i - 1]
            if s.kind == 'vector' and i == 1: return 'X1'
            raise Unknown(str(t))
        if t.op == 'ext' and s.isp(t.a[0]):
            i = t.a[1].a[0] if isinstance(t.a[1], Term) else t.a[1]
            if not isinstance(i, int): raise Unknown(str(t))
            return s.X[i] if i < s.rank else 1
        if t.op == 'call':
            q = t.a[0].split('::')[-1]; o = t.a[1] if len(t.a) > 1 else None
            if q == 'get' and s.kind == 'tuple':
                path = []
                while strip(t).op == 'call' and strip(t).a[0].split('::')[-1] == 'get': t = strip(t); path.insert(0, t.a[3].a[0]); t = t.a[2]
                if not s.isp(t): raise Unknown('get of ' + str(t))
                m = {(1, 0): 'X0', (1, 1): 'X1', (2, 0): 'S0', (2, 1): 'S1'} if s.rank == 2 else {(1,): 'X0', (2,): 'S0'}
                m[(0,)] = 'P'
                if tuple(path) not in m: raise Unknown('descriptor field %r' % (path,))
                return m[tuple(path)]
            if o is None or not isinstance(o, Term) or not s.isp(o): raise Unknown(str(t))
            k = [x.a[0] for x in t.a[2:] if isinstance(x, Term) and x.op == 'int']
            if s.kind == 'view':
                if q in ('stride',) and k: return s.S[k[0]] if k[0] < s.rank else 1
                m = re.match(r'stride_(\d)$', q)
                if m: return s.S[int(m.group(1))] if int(m.group(1)) < s.rank else 1
                if q in ('extent', 'extent_int') and k: return s.X[k[0]] if k[0] < s.rank else 1
                if q == 'size' and s.rank == 1: return s.X[0]
            if s.kind == 'eigen':
                cm = opts(s.ty) == 0
                if q == 'size' and s.rank == 1: return s.X[0]
                if q == 'rows': return s.X[0]
                if q == 'cols': return s.X[1] if s.rank == 2 else 1
                if q == 'innerStride': return s.S[0 if s.rank == 1 or cm else 1]
                if q == 'outerStride' and s.rank == 2: return s.S[1 if cm else 0]
                if q == 'rowStride': return s.S[0]
                if q == 'colStride' and s.rank == 2: return s.S[1]
            if s.kind == 'vector' and q == 'size': return 'N'
        raise Unknown(str(t))
    def isptr(s, t):
        t = strip(t)
        if s.kind == 'ptr': return s.isp(t)
        if s.kind == 'tuple': return s.n(t) == 'P'
        if t.op == 'data': return s.isp(t.a[0])
        if t.op == 'call' and t.a[0].split('::')[-1] == 'data': return s.isp(t.a[1])
        if t.op == 'un' or t.op == 'addr' or t.op == '&': 
            i = strip(t.a[-1])
            if i.op == 'idx' and s.isp(i.a[0]) and all(x.op == 'int' and x.a[0] == 0 for x in i.a[1:]): return True
        raise Unknown('pointer ' + str(t))

def dest(s, v, t, rty):
    """(pointer ok, extents, strides) of the returned object in the source's symbols"""
    t = strip(t)
    if s.kind == 'view' and s.isp(t): return True, list(s.X), list(s.S)
    if t.op != 'obj': raise Unknown(str(t))
    ty = v.types.get(t, '') or rty
    args = [x for x in t.a[1:] if isinstance(x, Term)]
    cls = t.a[0]
    if cls == 'Kokkos::View':
        P = s.isptr(args[0]); r = rank(ty)
        args = [a for a in args if strip(a).op != 'null']
        if len(args) == 2 and strip(args[1]).op == 'obj' and 'Layout' in strip(args[1]).a[0]:
            a1 = strip(args[1]); la = [x for x in a1.a[1:] if isinstance(x, Term) and x.op != 'noidx']
            if 'LayoutStride' in a1.a[0]:
                X = [s.n(la[2 * i]) for i in range(r)]; S = [s.n(la[2 * i + 1]) for i in range(r)]
            else:
                X = [s.n(la[i]) for i in range(r)]
                S = [1] if r == 1 else [X[1], 1] if 'Right' in a1.a[0] else [1, X[0]]
            return P, X, S
        if len(args) != r + 1: raise Unknown(str(t))
        X = [s.n(a) for a in args[1:]]; L = layout(ty)
        if L == 'Stride': raise Unknown('strided view without strides')
        return P, X, [1] if r == 1 else [X[1], 1] if L == 'Right' else [1, X[0]]
    if cls == 'Eigen::Map':
        o = opts(ty)
        if o == 'none': raise Unknown('map type ' + ty)
        P = s.isptr(args[0]); st = None; sz = []
        for a in args[1:]:
            a = strip(a)
            if a.op == 'obj' and 'Stride' in str(a.a[0]): st = a
            else: sz.append(s.n(a))
        sa = [s.n(x) for x in (st.a[1:] if st is not None else []) if isinstance(x, Term)]
        nm = st.a[0].split('::')[-1] if st is not None else ''
        inner, outer = 1, None
        if sa:
            if nm == 'InnerStride': inner = sa[0]
            elif nm == 'OuterStride': outer = sa[0]
            elif len(sa) == 2: outer, inner = sa
            else: raise Unknown(str(st))
        # the map's type says which of them it keeps
        if 'InnerStride' not in ty and 'OuterStride' not in ty and not re.search(r'Eigen::Stride<(-1)', ty): inner, outer = 1, None
        if o is None: return P, sz[:1], [inner]
        if len(sz) != 2: raise Unknown(str(t))
        if outer is None: outer = sz[1] if o else sz[0]
        return P, sz, [outer, inner] if o else [inner, outer]
    if cls == 'Eigen::Matrix' and len(args) == 1:
        return dest(s, v, args[0], rty)
    raise Unknown(str(t))

def nval(x, m):
    """value of a normal form for concrete extents and strides"""
    if isinstance(x, bool): return int(x)
    if isinstance(x, int): return x
    if isinstance(x, str):
        if x not in m: raise Unknown(x)
        return m[x]
    if x[0] == 'lin': raise Unknown(x[1])
    if x[0] == 'ite': return nval(x[2] if nval(x[1], m) else x[3], m)
    if x[0] == '!': return int(not nval(x[1], m))
    a, b = nval(x[1], m), nval(x[2], m)
    if x[0] in '/%' and b == 0: raise Unknown('division by zero')
    return {'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b, '/': lambda: a // b, '%': lambda: a % b, 'max': lambda: max(a, b), 'min': lambda: min(a, b), '==': lambda: int(a == b),
            '!=': lambda: int(a != b), '<': lambda: int(a < b), '<=': lambda: int(a <= b), '>': lambda: int(a > b), '>=': lambda: int(a >= b), '&&': lambda: int(a and b), '||': lambda: int(a or b)}[x[0]]()

def cases(s):
    """small arrays of every admissible shape: extents, and strides under which no two elements coincide"""
    for x0 in range(1, 5):
        for x1 in (range(1, 5) if s.rank == 2 else (1,)):
            for s0 in range(1, 13):
                for s1 in (range(1, 13) if s.rank == 2 else (1,)):
                    m = {'X0': x0, 'X1': x1, 'S0': s0, 'S1': s1, 'N': x0 * x1}
                    if s.rank == 2:
                        if s.S[0] == 1: m['S0'] = s0 = 1
                        if s.S[1] == 1: m['S1'] = s1 = 1
                        a, b = nval(s.S[0], m), nval(s.S[1], m)
                        if not (a >= x1 * b or b >= x0 * a): continue
                    yield m

def same_value(s, A, B, strides=False):
    """both lists of normal forms have the same values in every small case"""
    if A == B: return True
    if len(A) != len(B): return False
    if not any(isinstance(x, tuple) for x in list(A) + list(B)): return False
    for m in cases(s):
        for i, (x, y) in enumerate(zip(A, B)):
            if strides and nval(s.X[i], m) <= 1: continue   # the stride of a unit extent is never used
            if nval(x, m) != nval(y, m): return False
    return True

def sh(x):
    if not isinstance(x, tuple): return str(x)
    return '(%s ? %s : %s)' % tuple(map(sh, x[1:])) if x[0] == 'ite' else '(%s%s%s)' % (sh(x[1]), x[0], sh(x[2])) if len(x) == 3 else x[0] + sh(x[1])

def same_map(s, X, S):
    if not same_value(s, X, s.X): return 'extents (%s) instead of (%s)' % (', '.join(map(sh, X)), ', '.join(map(sh, s.X)))
    if not same_value(s, S, s.S, True): return 'strides (%s) instead of (%s)' % (', '.join(map(sh, S)), ', '.join(map(sh, s.S)))
    return None

def stdcopy(c, f, v, s, w):
    """KokkosToStd: a vector of extent(0) elements, element i written from view(i) for every i"""
    r = strip(v.ret)
    if r.op != 'obj' or 'vector' not in str(r.a[0]): raise Unknown(str(r))
    args = [x for x in r.a[1:] if isinstance(x, Term)]
    n = s.n(args[0]) if args else 0
    wr = [e for e in v.events if e.k == 'write' and e.loc.op == 'idx' and e.loc.a[0] is r]
    if len(wr) != 1: raise Unknown('%d element writes' % len(wr))
    e = wr[0]; val = strip(e.val)
    if val.op != 'idx' or not s.isp(val.a[0]): raise Unknown(str(val))
    ti, si = e.loc.a[1], val.a[1]; rg = lidx_range(v, ti)
    if rg is None: raise Unknown('index ' + str(ti))
    lo, hi, step, L = rg
    c.ob(n == 'X0' and ti is si and lo is INT(0) and step == 1 and s.n(hi) == 'X0' and not e.guards, 'every element is copied to the same position', w,
         'vector of %s, [%s] = view(%s), %s..%s' % (n, ti, si, lo, hi), '%s/%s' % (f.name, s.ty))

def host(c, f, v, s, w):
    r = strip(v.ret)
    if r.op != 'call' or 'create_mirror' not in r.a[0]: raise Unknown(str(r))
    src = r.a[2] if r.a[1] is None else r.a[1]; cur = strip(src); nsp = [p['n'] for p in f.ps[1:]]
    good = s.isp(cur) and not nsp
    if cur.op == 'subview': good = s.isp(cur.a[0]) and [s.pname(x) for x in map(strip, cur.a[1:])] == nsp
    elif cur.op == 'call' and cur.a[0].split('::')[-1] == 'subview': 
        aa = [strip(x) for x in cur.a[1:] if isinstance(x, Term)]; good = s.isp(aa[0]) and [s.pname(x) for x in aa[1:]] == nsp
    dc = [e for e in v.events if e.k == 'deep_copy' or (e.k == 'call' and e.d.get('q', '').endswith('deep_copy'))]
    if not dc: c.bad('the host copy is filled from the same elements', w, 'no deep_copy of the mirror', '%s/%s' % (f.name, s.ty)); return
    e = dc[-1]; a = e.d.get('args') or [e.d.get('dst'), e.d.get('src')]
    c.ob(good and strip(a[0]) is r and strip(a[1]) is cur and not e.guards, 'the host copy is filled from the same elements', w, 'mirror of %s, deep_copy(%s, %s)' % (cur, a[0], a[1]), '%s/%s' % (f.name, s.ty))

def check():
    c = Check('C24', RULE)
    d = DB([os.path.join(VERIF, 'tool/conv.cpp')], max_inst=50, keep_variants=50)
    fs = [f for f in d.funcs if f.file.endswith(FILES) and not f.dep and f.body is not None and f.ps and f.cq.startswith('mpart::')]
    for f in fs:
        rty = f.d.get('ret') or ''
        w = f.loc(); key = '%s/%s' % (f.name, ','.join(p['t'] for p in f.ps))
        v = VF(d)
        v.run(f)
        c.count('conversions')
        for e in v.events:
            if e.k == 'stridefill':
                if e.cap is None: c.skip('room for every stride', f.loc(e.line), 'size of the target array unknown')
                else: c.ob(e.cap >= e.rank + 1, 'room for every stride', f.loc(e.line), 'View::stride writes %d values into an array of %d' % (e.rank + 1, e.cap), 'stride/' + key)
        if v.ret is None: continue
        try:
            s = Src(f, rty)
            if f.name == 'KokkosToStd': stdcopy(c, f, v, s, w); continue
            if f.name == 'ToHost': host(c, f, v, s, w); continue
            P, X, S = dest(s, v, v.ret, rty)
            m = same_map(s, X, S)
            if not P: m = 'the pointer is not that of the source'
            c.ob(m is None, 'result addresses the same elements as the source', w, '%s of %s: %s' % (f.name, s.ty, m or 'extents %s strides %s' % (X, S)), key)
        except Unknown as ex: c.skip('result addresses the same elements as the source', w, '%s: %s' % (f.name, ex))
    c.need('result addresses the same elements as the source', 6)
    c.assume('Kokkos and Eigen place element (i,j) at pointer + i*stride0 + j*stride1; View::stride(ptr) writes rank+1 values')
    return c
