"""Gated value-flow analysis.

Abstractly interprets one function (inlining the repo's own helpers through the
resolved call graph) into a value graph of hash-consed terms, plus an ordered
list of effects (writes, calls, throws, returns), each with the branch
conditions and loops it sits under.  It is a dataflow analysis (gated SSA /
global value numbering): every statement is visited once per inlining, loop
bodies once with loop-carried values generalised, no path is enumerated and no
solver is asked."""
import re
import db as _db
from db import strip_targs, walk

# ------------------------------------------------------------------ terms
class Term:
    __slots__ = ('op', 'a', 'h', 'uid')
    tab = {}
    n = 0
    def __repr__(self): return show(self)
    def __hash__(self): return self.uid
    def __eq__(self, o): return self is o
    def __lt__(self, o): return self.uid < o.uid

def T(op, *a):
    k = (op, a)
    t = Term.tab.get(k)
    if t is None:
        t = Term(); t.op = op; t.a = a; Term.n += 1; t.uid = Term.n; Term.tab[k] = t
    return t

_uid = [0]
def fresh(op, *a):
    _uid[0] += 1
    return T(op, *(a + (('#', _uid[0]),)))

def reset():
    Term.tab.clear(); Term.n = 0; _uid[0] = 0

def show(t, d=0):
    if not isinstance(t, Term): return str(t) if not isinstance(t, tuple) else ''
    if d > 7: return '…'
    s = lambda x: show(x, d + 1)
    op, a = t.op, t.a
    if op in ('int', 'flt', 'bool', 'str', 'enum'): return str(a[0])
    if op == 'var': return str(a[1])
    if op == 'param': return str(a[1])
    if op == 'this': return 'this'
    if op == 'fld': return (s(a[0]) + '.' if a[0].op != 'this' else '') + str(a[1])
    if op == 'idx': return s(a[0]) + '[' + ','.join(s(x) for x in a[1:]) + ']'
    if op == 'lidx': return 'i%d' % a[0]
    if op in ('lphi', 'post'): return '%s@%s' % (a[1], op)
    if op in ('+', '-', '*', '/', '%', '<', '<=', '>', '>=', '==', '!=', '&&', '||') and len(a) == 2:
        return '(' + s(a[0]) + op + s(a[1]) + ')'
    if op == 'call':
        return a[0].split('::')[-1] + '(' + ','.join(s(x) for x in a[1:] if x is not None) + ')'
    if op == 'ext': return s(a[0]) + '.extent(' + str(a[1]) + ')'
    if op == 'obj': return str(a[0]).split('::')[-1] + '{' + ','.join(s(x) for x in a[1:] if isinstance(x, Term)) + '}'
    return op + '(' + ','.join(s(x) for x in a if not isinstance(x, tuple)) + ')'

def INT(v): return T('int', int(v))
TRUE = lambda: T('bool', True)

def subterms(t, seen=None):
    seen = set() if seen is None else seen
    st = [t]
    while st:
        x = st.pop()
        if not isinstance(x, Term) or x.uid in seen: continue
        seen.add(x.uid); yield x
        st.extend(x.a)

# ---------------------------------------------------------- polynomials
def poly(t, ub=None):
    """Polynomial normal form {monomial(tuple of atom uids): coeff}; atoms by uid.
    Returns (dict, atoms dict)."""
    atoms = {}
    def atom(x): atoms[x.uid] = x; return {(x.uid,): 1}
    def go(x):
        op, a = x.op, x.a
        if op == 'int': return {(): a[0]} if a[0] else {}
        if op == 'bool': return {(): int(a[0])} if a[0] else {}
        if op == 'flt' and isinstance(a[0], (int, float)) and float(a[0]).is_integer(): return {(): int(a[0])} if a[0] else {}
        if op in ('+', '-'):
            p = dict(go(a[0])); q = go(a[1]); s = 1 if op == '+' else -1
            for m, c in q.items():
                p[m] = p.get(m, 0) + s * c
                if p[m] == 0: del p[m]
            return p
        if op == 'neg': return {m: -c for m, c in go(a[0]).items()}
        if op == '*':
            p, q, r = go(a[0]), go(a[1]), {}
            for m1, c1 in p.items():
                for m2, c2 in q.items():
                    m = tuple(sorted(m1 + m2)); r[m] = r.get(m, 0) + c1 * c2
                    if r[m] == 0: del r[m]
            return r
        if op == 'cast': return go(a[0])
        return atom(x)
    return go(t), atoms

def poly_sub(p, q):
    r = dict(p)
    for m, c in q.items():
        r[m] = r.get(m, 0) - c
        if r[m] == 0: del r[m]
    return r

def same(a, b):
    if a is b: return True
    if a is None or b is None: return False
    return not poly_sub(poly(a)[0], poly(b)[0])

def diff(a, b):
    """a-b as poly dict, atoms"""
    p, x = poly(a); q, y = poly(b); x.update(y)
    return poly_sub(p, q), x

# ------------------------------------------------------------- helpers
def is_view(ty): return bool(ty) and ty.replace('const ', '').startswith('Kokkos::View<')
def base_ty(ty):
    ty = (ty or '').strip()
    while True:
        o = ty
        for p in ('const ', 'volatile '):
            if ty.startswith(p): ty = ty[len(p):]
        ty = ty.rstrip()
        if ty.endswith('&'): ty = ty[:-1].rstrip()
        if ty.endswith(' const'): ty = ty[:-6]
        if ty == o: return ty
def is_ref(ty): return (ty or '').rstrip().endswith('&')
def is_ptr(ty): return base_ty(ty).endswith('*')
def is_smart(ty):
    b = base_ty(ty); return b.startswith('std::shared_ptr<') or b.startswith('std::unique_ptr<') or b.startswith('std::__shared_ptr')
SCALARS = {'int', 'unsigned int', 'long', 'unsigned long', 'bool', 'double', 'float', 'char', 'short', 'unsigned short', 'unsigned char', 'long long', 'unsigned long long', 'signed char', 'long double'}
def is_scalar(ty): b = base_ty(ty); return b in SCALARS or b.endswith('*') or (b.startswith('mpart::') and False)
def alias_copied(ty):
    """Copying this type copies a handle (or a scalar), not storage."""
    b = base_ty(ty)
    return is_scalar(b) or is_view(b) or is_smart(b) or b.startswith('Eigen::Map<') or b.startswith('Eigen::Ref<') or b.startswith('std::pair<') or 'TeamMember' in b or b.startswith('std::tuple')

def is_all(s):
    return s.op == 'ALL' or s.op == 'glob' and 'ALL' in str(s.a[0]) or s.op == 'copy' and is_all(s.a[0]) or s.op == 'obj' and 'ALL' in str(s.a[0])

STDIN = {'push_back', 'emplace_back', 'emplace', 'insert', 'push_front', 'find', 'count', 'at', 'operator[]', 'make_pair', 'make_shared', 'make_tuple', 'forward', 'move', 'erase', 'min', 'max', 'emplace_front', 'try_emplace', 'assign', 'resize', 'to_string'}
CMP = {'<', '<=', '>', '>=', '==', '!='}

class Loop:
    __slots__ = ('id', 'kind', 'lo', 'hi', 'step', 'par', 'line', 'file', 'cond', 'over', 'carried', 'node', 'var', 'exact', 'cinit', 'ccar')
    def __init__(s, i, kind, line, file):
        s.id = i; s.kind = kind; s.line = line; s.file = file; s.lo = s.hi = s.step = None; s.par = None; s.cond = None; s.over = None; s.carried = {}; s.node = None; s.var = None; s.exact = True; s.cinit = {}; s.ccar = {}

class Ev:
    __slots__ = ('k', 'line', 'file', 'func', 'guards', 'loops', 'i', 'd')
    def __getattr__(s, n):
        try: return s.d[n]
        except KeyError: raise AttributeError(n)
    def get(s, n, v=None): return s.d.get(n, v)
    def where(s): return '%s:%d (%s)' % (s.file, s.line, s.func)
    def __repr__(s): return '%s@%s:%d %s' % (s.k, s.file, s.line, {k: v for k, v in s.d.items() if k not in ('node',)})

class Frame:
    __slots__ = ('fn', 'this', 'rets', 'gh', 'name', 'file', 'lam')

class VF:
    def __init__(self, dbase, noinline=None, depth=9, max_events=60000, dyn=None, inline_pred=None):
        self.db = dbase; self.noinline = noinline or (lambda f: False); self.maxdepth = depth
        self.events = []; self.loops = {}; self.store = {}; self.refs = {}; self.frames = []
        self.guards = []; self.lstack = []; self.lams = {}; self.nloop = 0; self.objcls = {}; self.objsite = {}
        self.max_events = max_events; self.dead = False; self.dyn = dyn or {}; self.types = {}
        self.overflow = False; self.inlined = set(); self.unres = []; self.content = {}; self.probing = 0

    # ---- events
    def ev(self, k, n, **d):
        e = Ev(); e.k = k; fr = self.frames[-1] if self.frames else None
        e.line = (n or {}).get('l', 0) if isinstance(n, dict) else (n or 0); e.file = fr.file if fr else ''; e.func = fr.name if fr else ''
        e.guards = tuple((g[0], g[1]) for g in self.guards); e.loops = tuple(self.lstack); e.i = len(self.events); e.d = d
        if len(self.events) < self.max_events: self.events.append(e)
        else: self.overflow = True
        return e

    # ---- entry
    def run(self, fn, args=None, this=None, ctor=False):
        """Analyse fn as a root: parameters are symbolic."""
        this = this or T('this')
        if fn.ccls: self.objcls[this] = fn.ccls
        fr = self._frame(fn, this)
        for i, p in enumerate(fn.ps):
            a = args[i] if args and i < len(args) else T('param', i, p['n'])
            self.types[a] = p['t']
            if is_ref(p['t']): self.refs[p['id']] = a
            else: self.store[T('var', p['id'], p['n'])] = a
        self.frames.append(fr)
        if fn.d.get('isctor'): self._inits(fn, this)
        self.stmt(fn.body)
        self.frames.pop()
        self.ret = self._retval(fr)
        return self

    def _frame(self, fn, this):
        fr = Frame(); fr.fn = fn; fr.this = this; fr.rets = []; fr.gh = len(self.guards); fr.name = fn.cq; fr.file = fn.file; fr.lam = False
        return fr

    def _retval(self, fr):
        r = None
        for g, v in reversed(fr.rets):
            if v is None: continue
            if r is None: r = v; continue
            c = None
            for t, pol in g:
                x = t if pol else T('!', t)
                c = x if c is None else T('&&', c, x)
            r = v if c is None or v is r else T('ite', c, v, r)
        return r

    def _inits(self, fn, this):
        cl = self.db.cls(fn.ccls) if fn.ccls else None
        for I in fn.d.get('inits', []):
            if 'f' in I:
                loc = T('fld', this, I['f'])
                e = I.get('e')
                if e is None: continue
                v = self.ex(e)
                self.store[loc] = v
                self.ev('init', {'l': I.get('l', fn.line)}, loc=loc, val=v, field=I['f'], written=bool(I.get('w')), node=e)
            elif I.get('deleg') or 'base' in I:
                e = I.get('e')
                if isinstance(e, dict) and e.get('k') == 'ctor':
                    self._ctor_inline(e, this, base=True)
                elif e is not None: self.ex(e)

    # ---- store
    def read(self, loc):
        v = self.store.get(loc)
        if v is not None: return v
        if loc.op == 'fld' and isinstance(loc.a[0], Term):
            b = loc.a[0]
            if b.op == 'copy': return self.read(T('fld', b.a[0], loc.a[1]))
            if b.op == 'ite':
                x, y = self.read(T('fld', b.a[1], loc.a[1])), self.read(T('fld', b.a[2], loc.a[1]))
                return x if x is y else T('ite', b.a[0], x, y)
        if loc.op == 'var': return loc
        return loc

    def write(self, loc, v, n, op='=', ty=None):
        if loc is None: return
        if loc.op == 'ite':
            self.ev('write', n, loc=loc, val=v, op=op, ty=ty); self.store[loc] = v; return
        self.ev('write', n, loc=loc, val=v, op=op, ty=ty)
        if loc.op == 'idx' and self.lstack: self.elemwise(loc, v)
        self.store[loc] = v

    # ---- locations
    def loc(self, e):
        """Location term of an lvalue expression (or its value for rvalues)."""
        k = e['k']
        if k == 'ref':
            if e['d'] in ('param', 'local'):
                r = self.refs.get(e['id'])
                if r is not None: return r
                return T('var', e['id'], e['n'])
            if e['d'] == 'global': return T('glob', e.get('q', e['n']))
            return self.ex(e)
        if k == 'mem' and e.get('d') != 'func':
            b = self.base(e['b'])
            if e.get('d') == 'global': return T('glob', e.get('q'))
            l = T('fld', b, e['n']); self.types.setdefault(l, e.get('t', '')); return l
        if k == 'sub':
            b = self.ex(e['b']); i = self.ex(e['i']); return self.mkidx(b, i)
        if k == 'un' and e['op'] == '*':
            p = self.ex(e['e'])
            t = e.get('t', '')
            if is_scalar(t): return self.mkidx(p, INT(0))
            return p
        if k == 'un' and e['op'] in ('++', '--') and not e.get('post'):
            self.ex(e); return self.loc(e['e'])
        if k == 'asg': self.ex(e); return self.loc(e['x'])
        if k == 'cast': return self.loc(e['e']) if isinstance(e.get('e'), dict) else self.ex(e)
        if k == 'cond':
            c = self.ex(e['c']); x = self.loc(e['x']); y = self.loc(e['y'])
            return x if x is y else T('ite', c, x, y)
        if k == 'call':
            return self.call(e, want_loc=True)
        if k == 'this': return self.frames[-1].this
        return self.ex(e)

    def base(self, e):
        """Object term that a member access / method call goes through."""
        k = e['k']
        if k == 'this': return self.frames[-1].this
        if k == 'un' and e['op'] == '*': return self.ex(e['e'])
        ty = e.get('t', '')
        l = self.loc(e)
        if is_ptr(ty) or is_smart(ty) or is_view(ty): return self.read(l)
        v = self.store.get(l)
        if v is not None and v.op in ('obj', 'copy', 'ite', 'param', 'this', 'subview', 'lam', 'post', 'lphi', 'call', 'idx', 'fld'): return v
        return l

    def mkidx(self, b, *ix):
        ix = tuple(ix)
        if b.op == 'padd' and len(ix) == 1: return T('idx', b.a[0], self.add(b.a[1], ix[0]))
        if b.op == 'copy' and False: pass
        if b.op == 'ite' and len(ix) == 1 and b.a[1].op == 'padd': pass
        return T('idx', b, *ix)

    def add(self, a, b):
        if a.op == 'int' and b.op == 'int': return INT(a.a[0] + b.a[0])
        if a.op == 'int' and a.a[0] == 0: return b
        if b.op == 'int' and b.a[0] == 0: return a
        return T('+', a, b)

    def arith(self, op, a, b):
        if a.op == 'int' and b.op == 'int' and op in ('+', '-', '*', '<', '<=', '>', '>=', '==', '!='):
            x, y = a.a[0], b.a[0]
            r = {'+': x + y, '-': x - y, '*': x * y}.get(op)
            if r is not None: return INT(r)
            return T('bool', {'<': x < y, '<=': x <= y, '>': x > y, '>=': x >= y, '==': x == y, '!=': x != y}[op])
        if op == '+': return self.add(a, b)
        if op == '-' and b.op == 'int' and b.a[0] == 0: return a
        if op == '*':
            for x, y in ((a, b), (b, a)):
                if x.op == 'int' and x.a[0] == 1: return y
        if op == '>': return T('<', b, a)
        if op == '>=': return T('<=', b, a)
        if op in ('==', '!=') and b.uid < a.uid: a, b = b, a
        return T(op, a, b)

    # ---- expressions (values)
    def ex(self, e):
        if e is None: return T('none')
        m = getattr(self, 'x_' + e['k'], None)
        if m is None:
            for c in e.get('a', []) or []:
                if isinstance(c, dict) and 'k' in c: self.ex(c)
            return fresh('unk')
        return m(e)

    def x_int(self, e): return INT(e['v'])
    def x_flt(self, e): return T('flt', e['v'] if e['v'] is not None else e.get('s'))
    def x_bool(self, e): return T('bool', e.get('v'))
    def x_str(self, e): return T('str', e.get('v', ''))
    def x_chr(self, e): return T('chr', e['v'])
    def x_null(self, e): return T('null')
    def x_zero(self, e): return INT(0)
    def x_this(self, e): return self.frames[-1].this
    def x_sizeof(self, e): return T('sizeof', e['at'])
    def x_throw(self, e):
        v = self.ex(e['e']) if e.get('e') else T('none')
        self.ev('throw', e, val=v); return T('none')
    def x_assert(self, e):
        c = self.ex(e['c']); self.ev('assert', e, cond=c); return T('none')
    def x_dep(self, e):
        b = self.base(e['b']) if e.get('b') else (self.frames[-1].this if self.frames else T('none'))
        l = T('fld', b, e['n']) if e.get('b') else T('dep', e['n'])
        return self.read(l)
    def x_list(self, e): return T('list', *[self.ex(x) for x in e['a']])
    def x_new(self, e):
        sz = self.ex(e['sz']) if e.get('sz') else None
        if e.get('e'):
            v = self.ex(e['e'])
        else: v = None
        r = fresh('new', e['nt'], sz if sz is not None else T('none'), v if v is not None else T('none'))
        self.ev('new', e, val=r, nt=e['nt'])
        return v if v is not None and sz is None and v.op == 'obj' else r
    def x_del(self, e):
        v = self.ex(e['e']); self.ev('delete', e, val=v); return T('none')
    def x_cast(self, e): return self.ex(e['e']) if isinstance(e.get('e'), dict) else fresh('unk')
    def x_ref(self, e):
        d = e['d']
        if d == 'enum': return T('enum', strip_targs(e['q']))
        if d == 'func': return T('func', strip_targs(e['q']), e.get('u', ''))
        if 'cv' in e and d == 'global': return INT(e['cv'])
        if d in ('param', 'local'):
            l = self.loc(e)
            v = self.read(l)
            self.types.setdefault(v, e.get('t', ''))
            return v
        if d == 'global': return self.read(T('glob', e.get('q', e['n'])))
        return T('sym', e.get('q', e['n']))
    def x_mem(self, e):
        if e.get('d') == 'func':
            b = self.base(e['b']); return T('method', strip_targs(e['q']), b)
        l = self.loc(e); v = self.read(l); self.types.setdefault(v, e.get('t', ''))
        if is_scalar(e.get('t', '')): self.ev('read', e, loc=l)
        return v
    def x_sub(self, e):
        l = self.loc(e); self.ev('read', e, loc=l); return self.read(l)
    def x_un(self, e):
        op = e['op']
        if op in ('++', '--'):
            l = self.loc(e['e']); old = self.read(l)
            t = base_ty(e['e'].get('t', ''))
            one = INT(1)
            if t.endswith('*'): new = self.mkpadd(old, one if op == '++' else INT(-1))
            else: new = self.arith('+' if op == '++' else '-', old, one)
            self.write(l, new, e, op=op, ty=e.get('t'))
            return old if e.get('post') else new
        if op == '&':
            x = e['e']
            l = self.loc(x)
            if l.op == 'idx' and len(l.a) == 2: return self.mkpadd(l.a[0], l.a[1])
            if l.op in ('this', 'obj', 'param'): return l
            if not is_scalar(x.get('t', '')):
                return self.base(x)
            return T('addr', l)
        if op == '*':
            l = self.loc(e)
            if is_scalar(e.get('t', '')):
                self.ev('read', e, loc=l); return self.read(l)
            return l
        v = self.ex(e['e'])
        if op == '-': return INT(-v.a[0]) if v.op == 'int' else T('neg', v)
        if op == '+': return v
        if op == '!':
            if v.op == '!': return v.a[0]
            if v.op == 'bool' and v.a[0] is not None: return T('bool', not v.a[0])
            return T('!', v)
        if op == '~' and v.op == 'int' and v.a[0] == 0: return T('noidx')
        return T('un' + op, v)
    def mkpadd(self, p, off):
        if off.op == 'int' and off.a[0] == 0 and p.op == 'padd': return p
        if p.op == 'padd': return T('padd', p.a[0], self.add(p.a[1], off))
        if p.op == 'addr' : return T('padd', p, off)
        return T('padd', p, off)
    def x_bin(self, e):
        op = e['op']
        if op in ('&&', '||'):
            x = self.ex(e['x'])
            self.guards.append((x, op == '&&', 'sc')); y = self.ex(e['y']); self.guards.pop()
            if x.op == 'bool':
                if op == '&&': return y if x.a[0] else x
                return x if x.a[0] else y
            return T(op, x, y)
        if op == ',':
            self.ex(e['x']); return self.ex(e['y'])
        x = self.ex(e['x']); y = self.ex(e['y'])
        if op in ('+', '-') and is_ptr(e['x'].get('t', '')) and not is_ptr(e['y'].get('t', '')):
            return self.mkpadd(x, y if op == '+' else T('neg', y))
        return self.arith(op, x, y)
    def x_asg(self, e):
        op = e['op']
        if op == '=':
            # evaluate rhs first (value), then location
            v = self.ex(e['y']); l = self.loc(e['x'])
            if l.op == 'idx' : self.types.setdefault(l, e['x'].get('t', ''))
            self.write(l, v, e, ty=e['x'].get('t')); return v
        y = self.ex(e['y']); l = self.loc(e['x']); old = self.read(l)
        self.ev('read', e, loc=l, aug=True)
        if is_ptr(e['x'].get('t', '')): v = self.mkpadd(old, y if op == '+=' else T('neg', y))
        else: v = self.arith(op[:-1], old, y)
        self.write(l, v, e, op=op, ty=e['x'].get('t')); return v
    def x_cond(self, e):
        c = self.ex(e['c'])
        if c.op == 'bool' and c.a[0] is not None: return self.ex(e['x'] if c.a[0] else e['y'])
        s0 = dict(self.store)
        self.guards.append((c, True, 'sc')); x = self.ex(e['x']); self.guards.pop(); s1 = self.store
        self.store = dict(s0)
        self.guards.append((c, False, 'sc')); y = self.ex(e['y']); self.guards.pop()
        self.store = self.merge(c, s1, self.store)
        return x if x is y else T('ite', c, x, y)
    def x_lam(self, e):
        t = T('lam', e['lid'], len(self.lams)); self.lams[t] = (e, self.frames[-1].this if self.frames else None, self.frames[-1] if self.frames else None)
        return t

    # constructors
    def x_ctor(self, e):
        return self._ctor_inline(e, None)
    def _ctor_inline(self, e, this, base=False):
        cls = e.get('cls') or ''
        ccls = strip_targs(cls)
        ty = e.get('t', '')
        args = e.get('a', [])
        if (e.get('cp') or e.get('mv')) and len(args) >= 1 and not base:
            v = self.ex(args[0])
            if args[0].get('k') == 'ref' or args[0].get('k') == 'mem':
                v = self.base(args[0]) if not alias_copied(ty) else v
            if alias_copied(ty) or e.get('mv'): return v
            if v.op == 'obj' and args[0].get('k') in ('ctor', 'call'): return v
            c = fresh('copy', v); self.objcls[c] = ccls; self.types.setdefault(c, ty)
            return c
        # view conversions: same storage
        if is_view(ty) and len(args) >= 1 and is_view(args[0].get('t', '')) and all(a.get('k') in ('null', 'zero') for a in args[1:]):
            v = self.ex(args[0]); self.ev('viewconv', e, val=v, frm=args[0].get('t'), to=ty); return v
        if is_smart(ty) and len(args) == 1 : return self.ex(args[0])
        if is_smart(ty) and len(args) == 0: return T('null')
        if ccls == 'std::function' and len(args) == 1: return self.ex(args[0])
        vals = [self.argval(x) for x in args]
        while ccls.startswith('Kokkos::') and vals and (vals[-1].op == 'noidx' or args[len(vals) - 1].get('k') in ('null',)): vals.pop()
        fn = self.db.callee(e['u'], self.frames[-1].fn.tu if self.frames and self.frames[-1].fn else None, e.get('iu')) if e.get('root') and e.get('u') else None
        if e.get('inh') and fn is None: vals = []
        o = this if base and this is not None else fresh('obj', ccls, *vals)
        if not base:
            self.objcls[o] = ccls; self.types.setdefault(o, ty)
            self.objsite[o] = (fn.file, fn.line, (fn.iu or '').rsplit('@F@', 1)[0]) if fn is not None else (self.frames[-1].file if self.frames else '', e.get('l', 0), (e.get('iu') or '').rsplit('@F@', 1)[0])
        self.ev('ctor', e, cls=ccls, obj=o, args=vals, node=e, ty=ty)
        if fn is not None and len(self.frames) < self.maxdepth and not self._recursive(fn) and not self.noinline(fn) and fn.body is not None:
            self._inline(fn, o, args, vals, e)
        return o

    def argval(self, x):
        ty = x.get('t', '')
        k = x['k']
        if k in ('ref', 'mem') and x.get('d') != 'func' and not alias_copied(ty):
            if x.get('d') == 'enum': return self.ex(x)
            b = self.base(x); r = self.store.get(b) if b.op in ('var', 'fld') else None
            return r if r is not None and r.op == 'enum' else b
        return self.ex(x)

    def _recursive(self, fn): return sum(1 for f in self.frames if f.fn is fn) >= 1

    def _inline(self, fn, this, argnodes, vals, e):
        self.inlined.add(fn.u)
        fr = self._frame(fn, this)
        # bind parameters: references to lvalues alias, everything else by value
        for i, p in enumerate(fn.ps):
            if i < len(vals): a, v = (argnodes[i] if i < len(argnodes) else None), vals[i]
            elif 'dv' in p: a, v = p['dv'], self.ex(p['dv'])
            else: a, v = None, T('none')
            if is_ref(p['t']):
                if isinstance(a, dict) and a['k'] in ('ref', 'mem', 'sub') and a.get('d') not in ('enum', 'func') or (isinstance(a, dict) and a['k'] == 'un' and a['op'] == '*') or (isinstance(a, dict) and a['k'] == 'call' and is_scalar(a.get('t', ''))):
                    if is_scalar(a.get('t', '')) or not p['t'].startswith('const') and alias_copied(a.get('t', '')) or a['k'] == 'ref' and not is_view(a.get('t', '')):
                        self.refs[p['id']] = self.loc_noeffect(a, v)
                    else: self.refs[p['id']] = v
                    if not alias_copied(a.get('t', '')) and v.op in ('obj', 'copy', 'this', 'param', 'subview', 'lam'): self.refs[p['id']] = v
                else: self.refs[p['id']] = v
            else:
                self.refs.pop(p['id'], None)
                self.store[T('var', p['id'], p['n'])] = v
        self.frames.append(fr)
        if fn.d.get('isctor'): self._inits(fn, this)
        self.stmt(fn.body)
        self.frames.pop()
        # returned paths rejoin; thrown ones do not
        keep = [g for g in self.guards[fr.gh:] if g[2] == 'throw']
        del self.guards[fr.gh:]; self.guards.extend(keep)
        return self._retval(fr)

    def loc_noeffect(self, a, v):
        n = len(self.events)
        l = self.loc(a)
        del self.events[n:]
        return l

    # calls
    VIEWNS = 'Kokkos::View'
    def x_call(self, e): return self.call(e)

    def call(self, e, want_loc=False):
        q = strip_targs(e.get('q', '')); args = e.get('a', []); opr = e.get('opr'); obj = e.get('obj')
        ty = e.get('t', '')
        short = q.rsplit('::', 1)[-1]
        if e.get('dep') and 'fn' in e and isinstance(e['fn'], dict):
            f = e['fn']
            if f.get('k') == 'dep':
                short = f['n']; q = short
                if f.get('b'): obj = f['b']
            elif f.get('k') in ('ref', 'mem', 'lam', 'call', 'un'):
                fv = self.ex(f)
                if fv in self.lams: return self.call_lam(fv, args, e)
                vals = [self.argval(x) for x in args]
                self.ev('call', e, q='<indirect>', u='', obj=fv, args=vals, node=e, name='<indirect>')
                r = T('call', '<indirect>', fv, *vals); self.types.setdefault(r, ty); return r
        # ---- operator forms
        if opr in ('->', '*') and obj is not None and not args:
            oty = obj.get('t', '')
            if is_smart(oty) or 'iterator' in oty:
                v = self.ex(obj); return v if is_smart(oty) else self._iter_deref(v)
        if (e.get('cls') or '').endswith('ALL_t'): return T('ALL')
        if opr == '()' and obj is not None:
            oty = obj.get('t', '')
            if is_view(oty) or is_view(base_ty(oty)) or base_ty(oty).startswith('Eigen::'):
                b = self.base(obj) if not is_view(oty) else self.ex(obj)
                ix = [self.ex(x) for x in args]
                l = self.mkelem(b, ix); self.types.setdefault(l, ty)
                if want_loc: return l
                self.ev('read', e, loc=l); return self.read(l)
            v = self.ex(obj) if obj['k'] != 'ref' else self.base(obj)
            if v in self.lams: return self.call_lam(v, args, e)
        if opr == '[]' and obj is not None:
            b = self.ex(obj) if is_smart(obj.get('t', '')) or is_view(obj.get('t', '')) else self.base(obj)
            ix = [self.ex(x) for x in args]; l = self.mkelem(b, ix); self.types.setdefault(l, ty)
            if want_loc: return l
            if is_scalar(ty): self.ev('read', e, loc=l)
            return self.read(l)
        if opr == '=' and obj is not None:
            v = self.argval(args[0]); l = self.loc(obj)
            if not alias_copied(obj.get('t', '')) and v.op not in ('obj', 'list', 'call') : v = fresh('copy', v)
            self.write(l, v, e, ty=obj.get('t')); 
            fn = self._target(e)
            return v
        if opr in ('+=', '-=', '*=', '/=') and obj is not None and not e.get('root'):
            v = self.argval(args[0]); l = self.loc(obj)
            self.ev('read', e, loc=l, aug=True)
            self.write(l, T(opr[:-1], self.read(l), v), e, op=opr, ty=obj.get('t')); return self.read(l)
        if opr in ('++', '--') and obj is not None:
            l = self.loc(obj); old = self.read(l); new = T('iter+', old, INT(1 if opr == '++' else -1)); self.write(l, new, e, op=opr); return new
        if opr in CMP | {'+', '-', '*', '/', '%', '!', '<<', '>>', '&&', '||'} and not e.get('root'):
            vs = ([self.argval(obj)] if obj is not None else []) + [self.argval(a) for a in args]
            if opr in CMP and len(vs) == 2: return self.arith(opr, vs[0], vs[1])
            if opr == '!' and len(vs) == 1: return T('!', vs[0])
            return T('op' + opr, *vs)
        # ---- object / args
        ob = None
        if obj is not None:
            if is_smart(obj.get('t', '')) and (e.get('cls') or '').startswith('std::'):
                ob = self.ex(obj)
                if short in ('get',): return ob
                if short in ('operator bool',): return T('!=', ob, T('null'))
            else: ob = self.base(obj)
        if short in ('move', 'forward', 'ref', 'cref', 'addressof', 'as_const') and q.startswith('std::') and len(args) == 1:
            return self.loc(args[0]) if want_loc else self.argval(args[0])
        vals = [self.argval(x) for x in args]
        # ---- Kokkos / std knowledge
        r = self._known(q, short, ob, vals, e, args)
        if r is not None: return r
        # ---- repo functions
        fn = self._target(e, ob)
        if fn is not None and len(self.frames) < self.maxdepth and not self._recursive(fn) and not self.noinline(fn):
            self.ev('enter', e, q=fn.cq, u=fn.u, obj=ob, args=vals, node=e, fn=fn, name=fn.name)
            r = self._inline(fn, ob if ob is not None else T('none'), args, vals, e)
            self.ev('leave', e, q=fn.cq, u=fn.u, obj=ob, args=vals, node=e, name=fn.name)
            return r if r is not None else T('void')
        evn = self.ev('call', e, q=q, u=e.get('u', ''), obj=ob, args=vals, node=e, name=short, virt=bool(e.get('virt')) and not e.get('nonvirt'))
        # lambdas handed to unknown callees run there (any number of times)
        for v in vals:
            if v in self.lams and not q.startswith('Kokkos::'): self._callback(v, e)
        # out arguments of scalar type passed by reference become unknown
        pts = e.get('pt', [])
        for i, x in enumerate(args):
            if i < len(pts) and is_ref(pts[i]) and not pts[i].rstrip().endswith('&&') and not pts[i].startswith('const') and not (q.startswith('std::') and short in STDIN) and not q.startswith('cereal::OutputArchive') and x['k'] in ('ref', 'mem', 'sub'):
                l = self.loc_noeffect(x, None)
                if is_scalar(x.get('t', '')): self.store[l] = T('out', q, i, *vals)
        r = T('call', q, ob, *vals) if ob is not None else T('call', q, None, *vals)
        self.types.setdefault(r, ty); evn.d['val'] = r
        # array arguments the callee may write
        outs = [] if q.startswith('std::') else [i for i, x in enumerate(args) if i < len(pts) and is_view(base_ty(pts[i])) and not base_ty(pts[i]).startswith('Kokkos::View<const') and not pts[i].startswith('const')]
        ins = []
        for i, v in enumerate(vals):
            if i in outs: continue
            ins.append(self.cont(v) if i < len(pts) and is_view(base_ty(pts[i])) else v)
        evn.d['conts'] = [self.cont(v) if i < len(pts) and is_view(base_ty(pts[i])) else v for i, v in enumerate(vals)]
        for i in outs: self.setcont(vals[i], T('app', short, ob if ob is not None else T('none'), INT(i), *ins))
        return r

    def _iter_deref(self, v):
        if v.op == 'it': return self.read(T('idx', v.a[0], v.a[1]))
        return T('deref', v)

    def mkelem(self, b, ix):
        # resolve subviews to the parent
        return T('idx', b, *ix) if b.op != 'padd' or len(ix) != 1 else self.mkidx(b, ix[0])

    def _target(self, e, ob=None):
        if not e.get('root') or not e.get('u'): return None
        u = e['u']
        if e.get('virt') and not e.get('nonvirt'):
            c = self.objcls.get(ob) if ob is not None else None
            # dynamic type known only for objects built here or a declared root 'this'
            if ob is not None and (ob.op == 'this' or ob.op == 'obj') and c:
                f = self._dispatch(c, u)
                if f is not None: return f
            if ob is not None and ob.op == 'obj': return self.db.callee(u, None, e.get('iu'))
            return None
        return self.db.callee(u, self.frames[-1].fn.tu if self.frames and self.frames[-1].fn else None, e.get('iu'))

    def _dispatch(self, cls, u):
        """Body that a virtual call with this static callee runs on dynamic class cls."""
        for c in [cls] + self.db.all_bases(cls):
            for f in self.db.by_cls.get(c, []):
                if f.u == u: return f if f.body is not None else None
                if u in self._ovclosure(f): return f
        return None
    def _ovclosure(self, f):
        out, todo = set(), list(f.d.get('ov', []))
        while todo:
            x = todo.pop()
            if x in out: continue
            out.add(x)
            for g in self.db.by_u.get(x, []): todo.extend(g.d.get('ov', []))
        return out

    def call_lam(self, v, args, e, vals=None, loop=None):
        le, this, _fr = self.lams[v]
        if sum(1 for f in self.frames if f.lam == le['lid']) >= 1 or len(self.frames) > self.maxdepth + 3: return fresh('unk')
        fr = Frame(); fr.fn = self.frames[-1].fn; fr.this = this if this is not None else T('none'); fr.rets = []; fr.gh = len(self.guards); fr.name = _fr.name if _fr else self.frames[-1].name; fr.file = _fr.file if _fr else self.frames[-1].file; fr.lam = le['lid']
        if vals is None: vals = [self.argval(x) for x in args]
        for c in le.get('caps', []):
            if c.get('init') and 'id' in c: self.store[T('var', c['id'], c['n'])] = self.argval(c['init'])
        for i, p in enumerate(le['ps']):
            v_ = vals[i] if i < len(vals) else fresh('unk')
            a = args[i] if i < len(args) else None
            if is_ref(p['t']):
                if isinstance(a, dict) and a['k'] in ('ref', 'mem', 'sub') and is_scalar(a.get('t', '')) and a.get('d') != 'enum': self.refs[p['id']] = self.loc_noeffect(a, v_)
                else: self.refs[p['id']] = v_
            else:
                self.refs.pop(p['id'], None); self.store[T('var', p['id'], p['n'])] = v_
            self.types.setdefault(v_, p['t'])
        self.frames.append(fr)
        self.stmt(le['body'])
        self.frames.pop()
        keep = [g for g in self.guards[fr.gh:] if g[2] == 'throw']
        del self.guards[fr.gh:]; self.guards.extend(keep)
        r = self._retval(fr)
        return r if r is not None else T('void')

    def _callback(self, v, e, par=None, lo=None, hi=None, policy=None, dims=1):
        L = self.newloop('callback', e); L.par = par; L.lo = lo; L.hi = hi; L.over = policy; L.step = 1
        le = self.lams[v][0]
        vals = []
        for i, p in enumerate(le['ps']):
            vals.append(T('lidx', L.id, i) if i else T('lidx', L.id))
        pre = self._havoc(le['body'], L)
        def run():
            self.lstack.append(L.id); g0 = len(self.guards)
            L.cond = self.call_lam(v, [], e, vals)
            self.lstack.pop(); del self.guards[g0:]
        ch, cc = self._discover(run, L); self._generalise(ch, cc, L, pre)
        run()
        self._endloop(L, pre)

    # ---- API knowledge
    def _known(self, q, short, ob, vals, e, args):
        if ob is not None and short in ('extent', 'extent_int') and len(vals) == 1:
            return self.extent(ob, vals[0])
        if short in ('size',) and ob is not None and not e.get('root') and not vals:
            return self.size(ob)
        if q.startswith('Kokkos::'):
            if short == 'subview' and vals:
                r = T('subview', vals[0], *vals[1:]); self.types.setdefault(r, e.get('t', '')); return r
            if short in ('make_pair',): return T('pair', *vals)
            if short in ('max', 'min', 'fmax', 'fmin') and len(vals) == 2: return T(short, *sorted(vals, key=lambda t: t.uid))
            if short in ('parallel_for', 'parallel_reduce', 'parallel_scan'):
                return self._parallel(short, vals, args, e)
            if short.startswith('atomic_') and vals:
                t = vals[0]
                l = None
                if t.op == 'addr': l = t.a[0]
                elif t.op == 'padd': l = T('idx', t.a[0], t.a[1])
                else: l = self.mkidx(t, INT(0))
                self.ev('write', e, loc=l, val=T('atomic', *vals[1:]), op=short, ty=e.get('t'), atomic=True)
                return T('atomic', *vals)
            if short == 'deep_copy' and len(vals) >= 2:
                vv = [v for v in vals if v.op != 'null' and not (v.op == 'obj' and 'pace' in str(v.a[0]) and 'View' not in str(v.a[0]))]
                dst, src = (vv[0], vv[1]) if len(vv) >= 2 else (vals[0], vals[1])
                self.ev('deep_copy', e, dst=dst, src=src, args=vals, node=e)
                sty = [a.get('t', '') for a, v in zip(args, vals) if v is src]
                self.setcont(dst, T('fill', src) if sty and is_scalar(sty[0]) else self.cont(src))
                return T('void')
        if q in ('std::make_pair', 'std::tie') : return T('pair', *vals)
        if q.startswith('std::') and short in ('make_shared', 'make_unique'):
            # find the constructed class from the type
            r = fresh('obj', strip_targs((e.get('ta') or [''])[0]), *vals); self.objcls[r] = strip_targs((e.get('ta') or [''])[0]); self.types.setdefault(r, e.get('t', ''))
            self.ev('ctor', e, cls=self.objcls[r], obj=r, args=vals, node=e, ty=e.get('t'), shared=True)
            return r
        if q.startswith('std::') and short in ('max', 'min', 'fmax', 'fmin') and len(vals) == 2: return T(short, *sorted(vals, key=lambda t: t.uid))
        if short in ('begin', 'cbegin') and ob is not None: return T('it', ob, INT(0))
        if short in ('end', 'cend') and ob is not None: return T('it', ob, self.size(ob))
        if short in ('operator+', 'operator-'):
            xs = ([ob] if ob is not None else []) + vals
            if len(xs) == 2 and xs[0].op == 'it' and xs[1].op != 'it': return T('it', xs[0].a[0], self.arith(short[-1], xs[0].a[1], xs[1]))
        if q in ('std::next', 'std::prev') and vals and vals[0].op == 'it': return T('it', vals[0].a[0], self.arith('+' if q == 'std::next' else '-', vals[0].a[1], vals[1] if len(vals) > 1 else INT(1)))
        if short == 'at' and ob is not None and len(vals) == 1 and not e.get('root'):
            l = T('idx', ob, vals[0]); self.types.setdefault(l, e.get('t', '')); return self.read(l)
        if short in ('back', 'front') and ob is not None and not vals and not e.get('root'):
            l = T('idx', ob, self.arith('-', self.size(ob), INT(1)) if short == 'back' else INT(0)); return self.read(l)
        if short == 'data' and ob is not None and not vals and not e.get('root'):
            return T('data', ob)
        if short == 'stride' and ob is not None and len(args) == 1 and (e.get('cls') or '').endswith('View') and '*' in (e.get('pt') or [''])[0]:
            # writes one stride per dimension, then the total length
            rank = (e.get('obj') or {}).get('t', '').split(',')[0].count('*')
            a = args[0]
            while a.get('k') == 'cast': a = a['e']
            cap = None
            if a.get('k') == 'un' and a.get('op') == '&': l = self.loc(a['e']); cells = [l]; cap = 1
            else:
                l = self.base(a); m = re.search(r'\[(\d+)\]$', a.get('t', '')); cap = int(m.group(1)) if m else None
                cells = [T('idx', l, INT(i)) for i in range(rank)]
            for i, c in enumerate(cells[:rank]): self.write(c, T('call', 'stride', ob, INT(i)), e)
            self.ev('stridefill', e, obj=ob, rank=rank, cap=cap, node=e)
            return T('void')
        if q == 'std::get' and len(vals) == 1 and e.get('ta') and re.match(r'^\d+', str(e['ta'][0])):
            return T('call', 'std::get', None, vals[0], INT(int(re.match(r'^\d+', e['ta'][0]).group())))
        if q in ('std::accumulate', 'std::for_each', 'std::transform', 'std::all_of', 'std::any_of', 'std::find_if', 'std::sort', 'std::copy', 'std::fill'):
            self.ev('call', e, q=q, u='', obj=None, args=vals, node=e, name=short)
            for v in vals:
                if v in self.lams: self._callback(v, e)
            if q == 'std::accumulate' and len(vals) == 4 and vals[3] in self.lams: return T('fold', self.nloop, *vals[:3])
            return T('call', q, None, *vals)
        return None

    def size(self, ob):
        v = ob
        if v.op == 'copy': return self.size(v.a[0])
        if v.op == 'obj' and v.a[0] in ('std::vector',):
            args = [x for x in v.a[1:] if isinstance(x, Term)]
            if args and args[0].op not in ('list', 'it') : pass
        return T('call', 'size', ob)

    def extent(self, v, k):
        kk = k.a[0] if k.op == 'int' else None
        if kk is None: return T('ext', v, k)
        o = v
        if o.op == 'ite':
            x, y = self.extent(o.a[1], k), self.extent(o.a[2], k)
            if same(x, y): return x
        if o.op == 'obj' and o.a[0] == 'Kokkos::View':
            args = [x for x in o.a[1:] if isinstance(x, Term)]
            if args:
                dims = args[1:]
                if args[0].op in ('scratch',): dims = args[1:]
                if kk < len(dims) and not (dims[kk].op in ('obj',)): return dims[kk]
        if o.op == 'subview':
            specs = o.a[1:]; d = -1
            for i, s in enumerate(specs):
                if s.op == 'pair': 
                    d += 1
                    if d == kk: return self.arith('-', s.a[1], s.a[0])
                elif is_all(s):
                    d += 1
                    if d == kk: return self.extent(o.a[0], INT(i))
                elif s.op == 'obj' and str(s.a[0]).startswith('std::pair'):
                    d += 1
                    aa = [x for x in s.a[1:] if isinstance(x, Term)]
                    if d == kk and len(aa) == 2: return self.arith('-', aa[1], aa[0])
                elif s.op == 'list' and len(s.a) == 2:
                    d += 1
                    if d == kk: return self.arith('-', s.a[1], s.a[0])
        if o.op == 'call' and o.a[0].split('::')[-1] in ('create_mirror_view', 'create_mirror', 'create_mirror_view_and_copy') :
            aa = [x for x in o.a[2:] if isinstance(x, Term)]
            if aa: return self.extent(aa[-1], k)
        return T('ext', v, kk)

    def _parallel(self, short, vals, args, e):
        # (label?) policy functor (reducers…)
        i = 0
        if vals and (vals[0].op == 'str' or 'basic_string' in self.types.get(vals[0], '') or 'basic_string' in (args[0].get('t', '') if args else '')): i = 1
        if len(vals) <= i + 1: return T('void')
        policy, fun = vals[i], vals[i + 1]
        pty = args[i].get('t', '')
        L = self.newloop('parallel', e); L.par = short; L.over = policy; L.lo = INT(0); L.step = 1
        if is_scalar(pty): L.hi = policy
        elif policy.op == 'obj' and 'RangePolicy' in str(policy.a[0]) and 'MD' not in str(policy.a[0]):
            aa = [x for x in policy.a[1:] if isinstance(x, Term)]
            if len(aa) >= 2: L.lo, L.hi = aa[-2], aa[-1]
        elif policy.op == 'call' and 'TeamThreadRange' in policy.a[0] or policy.op == 'call' and 'ThreadVectorRange' in policy.a[0]:
            aa = [x for x in policy.a[2:] if isinstance(x, Term)]
            L.par = 'team:' + short
            if len(aa) == 2: L.hi = aa[1]
            elif len(aa) == 3: L.lo, L.hi = aa[1], aa[2]
        red = [v for v in vals[i + 2:] if v.op != 'null']
        self.ev('parallel', e, loop=L, policy=policy, functor=fun, reducers=red, kind=short, node=e)
        if fun in self.lams:
            le = self.lams[fun][0]
            body = le['body']; ps = le['ps']
        else:
            c = self.objcls.get(fun); fn = None
            if c:
                cand = [f for f in self.db.methods(c, 'operator()') if not f.dep] or self.db.methods(c, 'operator()')
                site = self.objsite.get(fun)
                if len({(f.file, f.line) for f in cand}) > 1 and site:
                    cand = sorted([f for f in cand if f.file == site[0]] or cand, key=lambda f: abs(f.line - site[1]))
                if len(cand) > 1 and site and site[2]: cand = [f for f in cand if (f.iu or '').rsplit('@F@', 1)[0] == site[2]] or cand
                fn = cand[0] if cand else None
            if fn is None: return T('void')
            body = fn.body; ps = fn.ps
        pre = self._havoc(body, L)
        pv = []
        nred = len(red) if short == 'parallel_reduce' else 0
        for j, p in enumerate(ps):
            if nred and j >= len(ps) - max(1, nred): pv.append(T('redvar', L.id, j))
            else: pv.append(T('lidx', L.id, j) if j else T('lidx', L.id))
            self.types.setdefault(pv[-1], p['t'])
        if len(ps) == 1 and ('Team' in ps[0]['t']):
            L.par = L.par + ':team'
        def run():
            self.lstack.append(L.id); g0 = len(self.guards)
            if fun in self.lams: self.call_lam(fun, [], e, pv)
            elif len(self.frames) < self.maxdepth and not self._recursive(fn): self._inline(fn, fun, [], pv, e)
            self.lstack.pop(); del self.guards[g0:]
        run()
        self._endloop(L, pre)
        for j, (rv, a) in enumerate(zip(red, args[i + 2:])):
            if a['k'] in ('ref', 'mem') and is_scalar(a.get('t', '')):
                l = self.loc_noeffect(a, rv); self.write(l, T('reduced', L.id, j), e, op='reduce', ty=a.get('t'))
        return T('void')

    # ---- loops
    def newloop(self, kind, n):
        self.nloop += 1
        L = Loop(self.nloop, kind, n.get('l', 0), self.frames[-1].file if self.frames else ''); self.loops[L.id] = L; L.node = n
        return L

    def assigned(self, n):
        """ids of scalars / names of fields that a subtree assigns (syntactic)."""
        ids, flds = {}, set()
        for x in walk(n):
            k = x.get('k'); tgt = None
            if k == 'asg': tgt = x['x']
            elif k == 'un' and x.get('op') in ('++', '--'): tgt = x['e']
            elif k == 'call' and x.get('opr') in ('=', '+=', '-=', '++', '--', '*=', '/='): tgt = x.get('obj')
            elif k == 'call':
                for i, a in enumerate(x.get('a', [])):
                    pt = x.get('pt', [])
                    if i < len(pt) and is_ref(pt[i]) and not pt[i].startswith('const') and not pt[i].rstrip().endswith('&&') and not ((x.get('q') or '').startswith('std::') and strip_targs(x.get('q')).rsplit('::', 1)[-1] in STDIN) and isinstance(a, dict) and a.get('k') == 'ref' and a.get('d') in ('local', 'param') and (is_scalar(a.get('t', '')) or is_view(a.get('t', ''))): ids[a['id']] = a['n']
                    if isinstance(a, dict) and a.get('k') == 'un' and a.get('op') == '&' and a['e'].get('k') == 'ref' and is_scalar(a['e'].get('t', '')): ids[a['e']['id']] = a['e']['n']
            elif k == 'lam':
                pass
            if isinstance(tgt, dict):
                while isinstance(tgt, dict) and tgt.get('k') == 'cast': tgt = tgt.get('e')
                if tgt.get('k') == 'ref' and tgt.get('d') in ('local', 'param'): ids[tgt['id']] = tgt['n']
                elif tgt.get('k') == 'mem' and tgt.get('b', {}).get('k') == 'this': flds.add(tgt['n'])
        return ids, flds

    def _snapshot(self):
        return (dict(self.store), dict(self.refs), len(self.events), self.nloop, list(self.guards), list(self.lstack), _uid[0], dict(self.content), dict(self.lams), dict(self.objcls), self.overflow)
    def _restore(self, sn):
        self.store, self.refs, n, self.nloop, self.guards, self.lstack, _uid[0], self.content, self.lams, self.objcls, self.overflow = sn[0], sn[1], sn[2], sn[3], sn[4], sn[5], sn[6], sn[7], sn[8], sn[9], sn[10]
        del self.events[n:]

    def _discover(self, run, L):
        """Run a loop body once speculatively; return the store locations and
        buffer contents it changes."""
        if self.probing >= 3: return [], []
        sn = self._snapshot(); self.probing += 1
        s0, c0 = dict(self.store), dict(self.content)
        fr = [list(f.rets) for f in self.frames]
        try: run()
        finally:
            self.probing -= 1
        ch = [k for k, v in self.store.items() if k in s0 and s0[k] is not v]
        new = [k for k, v in self.store.items() if k not in s0 and k.op in ('fld', 'idx', 'glob') and not any(x.op == 'lidx' and x.a[0] >= L.id for x in subterms(k))]
        cc = [k for k, v in self.content.items() if c0.get(k) is not v]
        for f, r in zip(self.frames, fr): f.rets[:] = r
        self._restore(sn)
        return ch + new, cc

    def _phiview(self, old, ph, L, name):
        if old in self.objcls: self.objcls[ph] = self.objcls[old]
        if old in self.objsite: self.objsite[ph] = self.objsite[old]
        if old in self.types: self.types.setdefault(ph, self.types[old])
        if is_view(self.types.get(old, '')) or old.op == 'obj' and old.a[0] == 'Kokkos::View':
            L.cinit[ph] = self.cont(old); self.content[ph] = T('cphi', L.id, str(name))

    def _generalise(self, ch, cc, L, pre):
        for k in ch:
            if k in pre: continue
            name = k.a[1] if k.op in ('var', 'fld') else show(k)
            pre[k] = self.read(k)
            ph = T('lphi', L.id, str(name)) if k.op == 'var' else T('lphi', L.id, str(name), k)
            self.store[k] = ph
            self._phiview(pre[k], ph, L, name)
        for k in cc:
            if k in L.cinit: continue
            L.cinit[k] = self.cont(k); self.content[k] = T('cphi', L.id, show(k))

    # ---- abstract contents of array buffers
    def cont(self, v):
        if v is None: return T('none')
        c = self.content.get(v)
        if c is not None: return c
        if v.op == 'subview': return T('slice', self.cont(v.a[0]), *[T('ALL') if is_all(x) else x for x in v.a[1:]])
        if v.op == 'ite': return T('ite', v.a[0], self.cont(v.a[1]), self.cont(v.a[2]))
        if v.op == 'copy' and v.a[0].op in ('subview', 'obj', 'param'): return self.cont(v.a[0])
        if v.op == 'var' : pass
        if v.op in ('post',) and v.a[0] in self.loops: return T('cpost', v.a[0], v.a[1])
        return T('content', v)
    def setcont(self, v, c):
        if v is None: return
        self.content[v] = c
        if v.op == 'subview':
            self.content[v.a[0]] = T('upd', self.cont(v.a[0]), c, *[T('ALL') if is_all(x) else x for x in v.a[1:]])
        # aliases of the parent are no longer known precisely
    def elemwise(self, loc, val):
        b, ix = loc.a[0], loc.a[1:]
        def sub(t, d=0):
            if not isinstance(t, Term) or d > 12: return t
            if t.op == 'idx' and t.a[1:] == ix: return self.cont(t.a[0])
            if t.op in ('+', '-', '*', '/', 'neg'): return T(t.op, *[sub(x, d + 1) for x in t.a])
            return t
        self.setcont(b, sub(val))

    def _havoc(self, n, L, skip=()):
        ids, flds = self.assigned(n)
        pre = {}
        declared = {v['id'] for x in walk(n) if x.get('k') in ('decl', 'rfor') for v in (x.get('a') if x.get('k') == 'decl' else [x['var']])}
        for i, name in ids.items():
            if i in skip or i in declared: continue
            l = self.refs.get(i) or T('var', i, name)
            pre[l] = self.read(l)
            ph = T('lphi', L.id, str(name)) if l.op == 'var' else T('lphi', L.id, str(name), l)
            self.store[l] = ph
            self._phiview(pre[l], ph, L, name)
        this = self.frames[-1].this if self.frames else T('this')
        for f in flds:
            l = T('fld', this, f); pre[l] = self.read(l); self.store[l] = T('lphi', L.id, f, l)
        return pre

    def _endloop(self, L, pre):
        for l, init in pre.items():
            name = l.a[1]
            end = self.read(l)
            L.carried[str(name)] = (init, end)
            po = T('post', L.id, str(name), init, end)
            self.store[l] = po
            if init in self.objcls: self.objcls[po] = self.objcls[init]
            if init in self.objsite: self.objsite[po] = self.objsite[init]
            if init in self.types: self.types.setdefault(po, self.types[init])
            ph = T('lphi', L.id, str(name)) if l.op == 'var' else T('lphi', L.id, str(name), l)
            if ph in L.cinit:
                L.ccar[str(name)] = (L.cinit[ph], self.cont(end), T('cphi', L.id, str(name)))
                self.content[po] = T('cpost', L.id, str(name))
        for k, ini in L.cinit.items():
            if k.op == 'lphi' and k.a[0] == L.id: continue
            L.ccar[show(k)] = (ini, self.cont(k), T('cphi', L.id, show(k))); self.content[k] = T('cpost', L.id, show(k))

    # ---- statements.  return True when control can fall through
    def stmt(self, s):
        if s is None: return True
        return getattr(self, 's_' + s['k'], self.s_other)(s)
    def s_other(self, s):
        for c in s.get('a', []) or []:
            if isinstance(c, dict): self.stmt(c)
        return True
    def s_nop(self, s): return True
    def s_label(self, s): return self.stmt(s['s'])
    def s_blk(self, s):
        for c in s['a']:
            if not self.stmt(c): return False
        return True
    def s_expr(self, s):
        e = s['e']
        self.ex(e)
        return not self._noreturn(e)
    def _noreturn(self, e):
        if e['k'] == 'throw': return True
        if e['k'] == 'call':
            q = strip_targs(e.get('q', ''))
            if q in ('abort', 'exit', 'std::abort', 'std::exit', 'std::terminate', 'Kokkos::abort', '__assert_fail'): return True
            if e.get('root') and e.get('u'):
                f = self.db.callee(e['u'])
                if f is not None and self._always_throws(f.body, 0): return True
        return False
    def _always_throws(self, b, d):
        if b is None or d > 4: return False
        k = b['k']
        if k == 'blk':
            for c in b['a']:
                if c['k'] == 'ret' : return False
                if any(x.get('k') == 'ret' for x in walk(c)) : return False
                if self._always_throws(c, d + 1): return True
            return False
        if k == 'expr':
            e = b['e']
            if e['k'] == 'throw': return True
            return False
        return False
    def s_decl(self, s):
        for v in s['a']: self.vardecl(v)
        return True
    def vardecl(self, v):
        ty = v['t']; l = T('var', v['id'], v['n'])
        self.refs.pop(v['id'], None)
        init = v.get('init')
        if init is None:
            self.store[l] = T('uninit', v['id'], v['n']) if is_scalar(ty) else fresh('obj', strip_targs(base_ty(ty)))
            if not is_scalar(ty): self.objcls[self.store[l]] = strip_targs(base_ty(ty)); self.types[self.store[l]] = ty
            self.ev('decl', v, var=l, val=self.store[l], ty=ty, name=v['n']); return
        if is_ref(ty):
            if init['k'] in ('ref', 'mem', 'sub', 'call', 'un', 'cond', 'cast'):
                t = self.loc(init)
                if not is_scalar(ty) and t.op in ('var', 'fld') and self.store.get(t) is not None and self.store[t].op in ('obj', 'copy', 'param', 'subview'): t = self.store[t] if self.store[t].op != 'param' or True else t
            else: t = self.ex(init)
            self.refs[v['id']] = t; self.types.setdefault(t, ty)
            self.ev('decl', v, var=l, val=t, ty=ty, name=v['n'], ref=True, init=init); return
        val = self.argval(init) if init['k'] in ('ref', 'mem') else self.ex(init)
        if init['k'] in ('ref', 'mem') and not alias_copied(ty): val = fresh('copy', val)
        if init['k'] == 'ref' and is_scalar(ty): pass
        self.store[l] = val
        self.types.setdefault(val, ty)
        if v.get('static'): self.ev('static', v, var=l, val=val, name=v['n'])
        self.ev('decl', v, var=l, val=val, ty=ty, name=v['n'], init=init)

    def merge(self, c, a, b):
        if a is b: return a
        out = dict(a) if len(a) >= len(b) else dict(b)
        for k in a.keys() | b.keys():
            x, y = a.get(k), b.get(k)
            if x is y: out[k] = x; continue
            if x is None: x = self._dflt(k)
            if y is None: y = self._dflt(k)
            out[k] = x if x is y else T('ite', c, x, y)
        return out
    def _dflt(self, k): return k

    def s_if(self, s):
        if s.get('init'): self.stmt(s['init'])
        if s.get('cv'): self.vardecl(s['cv'])
        if s.get('live'):
            return self.stmt(s['then'] if s['live'] == 'then' else s.get('els'))
        c = self.ex(s['c'])
        if c.op == 'bool' and c.a[0] is not None:
            return self.stmt(s['then'] if c.a[0] else s.get('els'))
        pol = True
        if c.op == '!': c, pol = c.a[0], False
        refs0 = dict(self.refs)
        s0 = dict(self.store); gh = len(self.guards); e0 = len(self.events); k0 = self.content; self.content = dict(k0)
        self.guards.append((c, pol, 'if')); ft1 = self.stmt(s['then']); k1 = self._exitkind(s['then'], ft1); inner1 = self.guards[gh + 1:]; del self.guards[gh:]
        st1 = self.store; self.store = dict(s0); self.refs = refs0; c1 = self.content; self.content = dict(k0)
        ft2 = True; k2 = None; inner2 = []
        if s.get('els'):
            self.guards.append((c, not pol, 'if')); ft2 = self.stmt(s['els']); k2 = self._exitkind(s['els'], ft2); inner2 = self.guards[gh + 1:]; del self.guards[gh:]
        if ft1 and not ft2: self.content = c1
        elif ft1 and ft2:
            c2 = self.content; out = dict(c2)
            for k in set(c1) | set(c2):
                if c1.get(k) is c2.get(k): continue
                self.content = c1; x = self.cont(k); self.content = c2; y = self.cont(k)
                out[k] = x if x is y else (T('ite', c, x, y) if pol else T('ite', c, y, x))
            self.content = out
        if ft1 and ft2:
            self.store = self.merge(c if pol else c, st1, self.store) if pol else self.merge(c, self.store, st1)
            # a conditional early exit inside a branch: remember it weakly
            for g in inner1: self.guards.append((T('=>', T('lit', c, pol), T('lit', g[0], g[1])), True, g[2]))
            for g in inner2: self.guards.append((T('=>', T('lit', c, not pol), T('lit', g[0], g[1])), True, g[2]))
            return True
        if ft1:
            self.store = st1; self.guards.append((c, pol, k2)); self.guards.extend(inner1); return True
        if ft2:
            self.guards.append((c, not pol, k1)); self.guards.extend(inner2); return True
        return False

    def _exitkind(self, s, ft):
        if ft or s is None: return None
        # what kind of exit ends this statement
        last = s
        kinds = set()
        for x in walk(s):
            k = x.get('k')
            if k in ('ret',): kinds.add('ret')
            elif k in ('break', 'cont'): kinds.add('loop')
            elif k == 'throw': kinds.add('throw')
        if 'ret' in kinds: return 'ret'
        if 'loop' in kinds: return 'loop'
        return 'throw'

    def s_ret(self, s):
        v = None
        fr = self.frames[-1]
        if s.get('e'):
            e = s['e']
            v = self.argval(e) if e['k'] in ('ref', 'mem') else self.ex(e)
            if e['k'] in ('ref', 'mem') and v.op == 'var': v = self.read(v)
        g = [(x[0], x[1]) for x in self.guards[fr.gh:]]
        fr.rets.append((g, v))
        e_ = self.ev('ret', s, val=v, depth=len(self.frames), lam=bool(fr.lam))
        if len(self.frames) == 1: e_.d['snap'] = dict(self.content); e_.d['sstore'] = dict(self.store)
        return False
    def s_break(self, s): self.ev('break', s); return False
    def s_cont(self, s): self.ev('continue', s); return False
    def s_goto(self, s): return False

    def s_switch(self, s):
        c = self.ex(s['c'])
        body = s['body']; groups = []
        items = body['a'] if body and body['k'] == 'blk' else [body]
        cur = None
        for it in items:
            labels = []
            x = it
            while isinstance(x, dict) and x['k'] in ('case', 'default'):
                labels.append(self.ex(x['v']) if x['k'] == 'case' else None); x = x['s']
            if labels:
                fall = cur is not None and cur['open']
                cur = {'labels': labels, 'stmts': [x], 'open': True, 'fall': fall}; groups.append(cur)
            elif cur is not None: cur['stmts'].append(x)
            if cur is not None:
                z = x
                if z is not None and self._ends(z): cur['open'] = False
        alllab = [l for g in groups for l in g['labels'] if l is not None]
        s0 = dict(self.store); outs = []; gh = len(self.guards)
        hasdef = any(None in g['labels'] for g in groups)
        anyft = False
        for gi, g in enumerate(groups):
            self.store = dict(s0)
            conds = []
            for l in g['labels']:
                if l is None:
                    t = None
                    for a in alllab:
                        n = T('!', self.arith('==', c, a)); t = n if t is None else T('&&', t, n)
                    conds.append(t or T('bool', True))
                else: conds.append(self.arith('==', c, l))
            cd = conds[0]
            for x in conds[1:]: cd = T('||', cd, x)
            self.guards.append((cd, True, 'if'))
            ft = True
            seq = list(g['stmts']); gj = gi
            while groups[gj]['open'] and gj + 1 < len(groups) and not self._ends_list(groups[gj]['stmts']):
                gj += 1; seq += groups[gj]['stmts']
                if not groups[gj]['open']: break
            brk = False
            for st in seq:
                r = self.stmt(st)
                if not r:
                    ft = False; brk = self._exitkind(st, False) == 'loop'; break
            del self.guards[gh:]
            if ft or brk: outs.append((cd, self.store)); anyft = True
        if not hasdef: outs.append((T('bool', True), s0)); anyft = True
        if outs:
            r = outs[-1][1]
            for cd, st in reversed(outs[:-1]): r = self.merge(cd, st, r)
            self.store = r
        return anyft
    def _ends(self, z):
        if z['k'] in ('break', 'ret', 'cont'): return True
        if z['k'] == 'blk': return bool(z['a']) and self._ends(z['a'][-1])
        if z['k'] == 'expr': return z['e']['k'] == 'throw'
        return False
    def _ends_list(self, l): return bool(l) and self._ends(l[-1])

    def s_for(self, s):
        if s.get('init'): self.stmt(s['init'])
        return self._loop(s, s.get('c'), s.get('inc'), s['body'], 'for')
    def s_while(self, s): return self._loop(s, s['c'], None, s['body'], 'while')
    def s_do(self, s): return self._loop(s, s['c'], None, s['body'], 'do')

    def _increments(self, n, vid):
        """(count, step) of modifications of scalar vid in subtree n."""
        out = []
        for x in walk(n):
            k = x.get('k')
            if k == 'un' and x.get('op') in ('++', '--') and x['e'].get('k') == 'ref' and x['e'].get('id') == vid: out.append(INT(1 if x['op'] == '++' else -1))
            elif k == 'asg' and x['x'].get('k') == 'ref' and x['x'].get('id') == vid:
                if x['op'] == '+=' and x['y'].get('k') == 'int': out.append(INT(x['y']['v']))
                elif x['op'] == '=' and x['y'].get('k') == 'bin' and x['y']['op'] == '+' and x['y']['x'].get('k') == 'ref' and x['y']['x'].get('id') == vid and x['y']['y'].get('k') == 'int': out.append(INT(x['y']['y']['v']))
                elif x['op'] == '-=' and x['y'].get('k') == 'int': out.append(INT(-x['y']['v']))
                else: out.append(None)
            elif k == 'call' and x.get('opr') in ('++',) and isinstance(x.get('obj'), dict) and x['obj'].get('id') == vid: out.append(INT(1))
        return out

    def _loop(self, s, c, inc, body, kind):
        body = self._nocont(body)
        # for(i = n; i-- > m; )   ->   i = n-1, ..., m
        dec = None
        if kind in ('for', 'while') and inc is None and isinstance(c, dict):
            cc = self._unc(c)
            if cc.get('k') == 'bin' and cc['op'] in ('>', '!='):
                x = self._unc(cc['x'])
                if x.get('k') == 'un' and x['op'] == '--' and x.get('post') and x['e'].get('k') == 'ref' and x['e'].get('d') in ('local', 'param') and not self._increments(body, x['e']['id']):
                    dec = (x['e'], cc['y'])
        L = self.newloop(kind, s)
        whole = {'k': 'blk', 'a': [body] + ([{'k': 'expr', 'l': 0, 'e': inc}] if inc else []) }
        # canonical induction variable:  v < hi, v += step, no other change
        ind = None
        conj = []
        def split(x):
            if isinstance(x, dict) and x.get('k') == 'bin' and x.get('op') == '&&': split(x['x']); split(x['y'])
            elif x is not None: conj.append(x)
        split(c)
        for cj in conj:
            if cj.get('k') == 'bin' and cj['op'] in ('<', '<=', '>', '>=', '!=') or cj.get('k') == 'call' and cj.get('opr') == '!=':
                if cj.get('k') == 'call':
                    sides = ([cj['obj']] if cj.get('obj') else []) + cj.get('a', [])
                    if len(sides) != 2: continue
                    a, b = sides; op = '!='
                else: a, b, op = cj['x'], cj['y'], cj['op']
                for x, y, o in ((a, b, op), (b, a, {'<': '>', '<=': '>=', '>': '<', '>=': '<=', '!=': '!='}[op])):
                    x = self._unc(x)
                    if x.get('k') == 'bin' and x.get('op') in ('+', '-'):   # i + c < n  ->  i < n - c
                        x1, x2 = self._unc(x['x']), self._unc(x['y'])
                        if x['op'] == '+' and x1.get('k') == 'int': x1, x2 = x2, x1
                        if x1.get('k') == 'ref' and x2.get('k') == 'int':
                            y = dict(x, op='-' if x['op'] == '+' else '+', x=y, y=x2); x = x1
                    if x.get('k') == 'ref' and x.get('d') in ('local', 'param'):
                        incs = self._increments(whole, x['id']) + (self._increments(c, x['id']))
                        if len(incs) == 1 and incs[0] is not None:
                            st = incs[0].a[0]
                            if st > 0 and o in ('<', '<=', '!=') or st < 0 and o in ('>', '>=', '!='):
                                ind = (x, y, o, st); break
                if ind: break
        lo = None
        if dec is not None:
            x, y = dec; ind = (x, y, '>', -1)
            l = self.refs.get(x['id']) or T('var', x['id'], x['n'])
            lo = self.arith('-', self.read(l), INT(1)); L.lo = lo; L.step = -1
        elif ind and kind != 'do':
            x, y, o, st = ind
            l = self.refs.get(x['id']) or T('var', x['id'], x['n'])
            lo = self.read(l)
            if lo.op == 'it':  # iterator loop
                hv = self.ex(y)
                L.over = lo.a[0]; L.lo = lo.a[1]; L.hi = hv.a[1] if hv.op == 'it' else None; L.step = st
            else:
                L.lo = lo; L.step = st
        pre = self._havoc(whole, L, skip=(ind[0]['id'],) if ind and kind != 'do' else ())
        L.var = ind[0]['n'] if ind else None
        if ind and kind != 'do':
            if lo.op == 'it': self.store[l] = T('it', lo.a[0], T('lidx', L.id))
            else:
                self.store[l] = T('lidx', L.id)
                n0 = len(self.events)
                hv = self.ex(ind[1]); del self.events[n0:]
                if dec is not None: hv = self.arith('-', hv, INT(1))
                L.hi = self.arith('+', hv, INT(1)) if o == '<=' else (self.arith('-', hv, INT(1)) if o == '>=' else hv)
                if len(conj) > 1: L.exact = False
        keepbox = []
        def run():
            self.lstack.append(L.id); gh = len(self.guards)
            if kind != 'do' and c is not None and dec is None:
                cv = self.ex(c); L.cond = cv
            self.stmt(body)
            # drop guards that only concern break/continue; returns and throws persist
            keepbox[:] = [g for g in self.guards[gh:] if g[2] in ('ret', 'throw')]
            del self.guards[gh:]
            if inc: self.ex(inc)
            if kind == 'do' and c is not None: L.cond = self.ex(c)
            self.lstack.pop()
        if self._own_breaks(body): L.exact = False
        ch, cc = self._discover(run, L)
        indl = (self.refs.get(ind[0]['id']) or T('var', ind[0]['id'], ind[0]['n'])) if ind and kind != 'do' else None
        self._generalise([k for k in ch if k is not indl], cc, L, pre)
        run(); keep = keepbox
        for g in keep: self.guards.append((T('inloop', L.id, g[0], g[1]), True, g[2]))
        self._endloop(L, pre)
        if ind and kind != 'do':
            self.store[l] = T('post', L.id, ind[0]['n'], lo, L.hi if L.hi is not None else T('none'))
        if c is None and kind != 'do' and not any(x.get('k') == 'break' for x in walk(body)): return False
        return True

    @staticmethod
    def _nocont(body):
        """if(c) continue; rest   ->   if(!c) { rest }   at the top level of a loop body"""
        if not isinstance(body, dict) or body.get('k') != 'blk': return body
        a = body['a']
        for j, st in enumerate(a):
            if isinstance(st, dict) and st.get('k') == 'if' and not st.get('els') and not st.get('live') and not st.get('init') and not st.get('cv'):
                th = st['then']; last = th
                pre = []
                while isinstance(last, dict) and last.get('k') == 'blk' and last['a']: pre += last['a'][:-1]; last = last['a'][-1]
                if isinstance(last, dict) and last.get('k') == 'cont' and not any(x.get('k') in ('cont',) for p in pre for x in walk(p)):
                    rest = VF._nocont({'k': 'blk', 'l': st.get('l', 0), 'a': a[j + 1:]})
                    new = dict(st); new['then'] = {'k': 'blk', 'l': st.get('l', 0), 'a': pre}; new['els'] = rest
                    if not pre:
                        new['c'] = {'k': 'un', 'op': '!', 'e': st['c'], 't': 'bool', 'l': st.get('l', 0)}; new['then'] = rest; new['els'] = None
                    return {'k': 'blk', 'l': body.get('l', 0), 'a': a[:j] + [new]}
        return body

    def _own_breaks(self, n):
        """break statements of this loop, and returns; not those of nested loops/switches/lambdas."""
        def go(x, inl, lp=False):
            if isinstance(x, list):
                for y in x: yield from go(y, inl, lp)
            elif isinstance(x, dict):
                k = x.get('k')
                if k == 'lam': return
                if k == 'break' and not inl: yield x
                if k == 'cont' and not lp: yield x
                if k == 'ret': yield x
                nl = inl or k in ('for', 'while', 'do', 'rfor', 'switch'); lp = lp or k in ('for', 'while', 'do', 'rfor')
                for v in x.values():
                    if isinstance(v, (dict, list)): yield from go(v, nl, lp)
        return list(go(n, False))

    def _unc(self, x):
        while x.get('k') == 'cast' and isinstance(x.get('e'), dict): x = x['e']
        return x

    def s_rfor(self, s):
        s = dict(s); s['body'] = self._nocont(s['body'])
        L = self.newloop('rfor', s)
        rng = self.argval(s['range']) if s['range']['k'] in ('ref', 'mem') else self.ex(s['range'])
        L.over = rng; L.lo = INT(0); L.hi = self.size(rng); L.step = 1; L.var = s['var']['n']
        if self._own_breaks(s['body']): L.exact = False
        pre = self._havoc(s['body'], L)
        v = s['var']; el = T('idx', rng, T('lidx', L.id)); self.types.setdefault(el, v['t'])
        self.ev('rfor', s, loop=L, rng=rng, byref=is_ref(v['t']), var=v)
        if is_ref(v['t']): self.refs[v['id']] = el if is_scalar(v['t']) or True else el
        else:
            self.refs.pop(v['id'], None); self.store[T('var', v['id'], v['n'])] = self.read(el)
        keepbox = []
        def run():
            self.lstack.append(L.id); gh = len(self.guards)
            self.stmt(s['body'])
            keepbox[:] = [g for g in self.guards[gh:] if g[2] in ('ret', 'throw')]
            del self.guards[gh:]
            self.lstack.pop()
        ch, cc = self._discover(run, L); self._generalise(ch, cc, L, pre)
        run(); keep = keepbox
        for g in keep: self.guards.append((T('inloop', L.id, g[0], g[1]), True, g[2]))
        self._endloop(L, pre)
        return True

    def s_try(self, s):
        s0 = dict(self.store); gh = len(self.guards)
        ft = self.stmt(s['body']); del self.guards[gh:]
        st = self.store
        for h in s['h']:
            self.store = dict(s0); c = fresh('caught')
            self.guards.append((c, True, 'if'))
            self.ev('catch', h)
            f2 = self.stmt(h['body']); del self.guards[gh:]
            if f2: st = self.merge(c, self.store, st); ft = True
        self.store = st
        return ft


def precedes(a, b):
    """a happens before b on every path that reaches b."""
    if a.i >= b.i: return False
    bg = set(b.guards)
    if not all(g in bg for g in a.guards): return False
    # a must not sit in a loop that b is not in
    return a.loops == b.loops[:len(a.loops)]
