"""Abstract interpretation of the resolved source in the domain of formal expressions (formal.py).

Integers, extents and control are evaluated per enumerated case; every real value is a formal expression.  Nothing of the
library is compiled or executed; calls to Kokkos, the standard library and uninterpreted classes have built-in meanings."""
import functools, re
from db import strip_targs, CheckError, walk
import formal as F
from formal import E, K, NoAnswer

class Throw(Exception):
    def __init__(s, what, where): s.what = what; s.where = where; Exception.__init__(s, '%s at %s' % (what, where))
class Violation(Exception):
    """a definite error on the analysed path"""
    def __init__(s, kind, msg, where): s.kind = kind; s.msg = msg; s.where = where; Exception.__init__(s, '%s: %s at %s' % (kind, msg, where))
class _Ret(Exception):
    def __init__(s, v): s.v = v
class _Brk(Exception): pass
class _Cnt(Exception): pass

class LV:
    __slots__ = ('c', 'k')
    def __init__(s, c, k): s.c = c; s.k = k
class Buf:
    """n cells of storage; cells not written yet are unset (or zero)"""
    nb = 0
    def __init__(s, n, name='', zero=None, owner=None):
        Buf.nb += 1; s.id = Buf.nb; s.n = n; s.name = name; s.d = {}; s.zero = zero; s.freed = False; s.iter = None
    def __repr__(s): return 'Buf(%s,%s)' % (s.name, s.n)
class Ptr:
    __slots__ = ('b', 'o')
    def __init__(s, b, o=0): s.b = b; s.o = o
class Obj:
    def __init__(s, cls, f=None): s.cls = cls; s.f = f if f is not None else {}; s.ty = None
    def __repr__(s): return 'Obj(%s)' % s.cls
class SObj(Obj):
    """object owned by a shared_ptr: slots hold a reference to it"""
def elt(c):
    """element type of a vector type"""
    e = c[len('std::vector<'):].rsplit('>', 1)[0].strip()
    i = e.find(', std::allocator<')
    return e[:i] if i >= 0 and e.count('<', 0, i) == e.count('>', 0, i) else e
ASSOC = re.compile(r'std::(?:unordered_)?(?:set|map)<')
def inplace(x): return isinstance(x, (Obj, Vec, Assoc)) and not isinstance(x, SObj)
class View:
    def __init__(s, buf, off, ext, st, label=''): s.buf = buf; s.off = off; s.ext = tuple(ext); s.st = tuple(st)
    def __repr__(s): return 'View(%s,%s)' % (s.buf, s.ext)
class Vec:
    def __init__(s, items=(), et=None): s.v = list(items); s.et = et; s.ep = 0; s.cap = 0
    def grow(s):
        """the storage may move: references into it end"""
        if len(s.v) + 1 > s.cap: s.ep += 1
class Assoc:
    """std::set (value None) or std::map: keys in order"""
    def __init__(s, map_, t=''): s.map = map_; s.t = t; s.d = {}; s.keys = {}; s.k = None
    def order(s):
        if s.k is None: s.k = sorted(s.d)
        return s.k
    def nxt(s, k):
        from bisect import bisect_right
        o = s.order(); i = bisect_right(o, k)
        return o[i] if i < len(o) else None
class SIt:
    """iterator of an Assoc; key None is the end"""
    def __init__(s, c, k): s.c = c; s.k = k
class Fn:
    """uninterpreted callable"""
    def __init__(s, f, name=''): s.f = f; s.name = name
class It:
    def __init__(s, c, i): s.c = c; s.i = i
class Lam:
    def __init__(s, node, env, this, fn): s.node = node; s.env = env; s.this = this; s.fn = fn
class Str(str): pass
ALL = Str('ALL')
class Pair:
    def __init__(s, a, b): s.a = a; s.b = b
class Opaque:
    def __init__(s, what=''): s.what = what
    def __repr__(s): return 'Opaque(%s)' % s.what
class Policy:
    def __init__(s, kind, lo=(0,), hi=(0,), league=0, team=1): s.kind = kind; s.lo = lo; s.hi = hi; s.league = league; s.team = team; s.scratch = 0
class Member:
    def __init__(s, p, l, r): s.p = p; s.l = l; s.r = r; s.used = 0

UNSIGNED = {'unsigned int': 32, 'unsigned long': 64, 'size_t': 64, 'std::size_t': 64, 'unsigned': 32, 'unsigned short': 16, 'unsigned char': 8, 'uint32_t': 32, 'uint64_t': 64}
SIGNED = {'int': 32, 'long': 64, 'short': 16, 'char': 8, 'ptrdiff_t': 64, 'long long': 64, 'int64_t': 64}
@functools.lru_cache(None)
def ct(t):
    t = (t or '').strip()
    while True:
        u = t
        for p in ('const ', 'volatile '):
            if t.startswith(p): t = t[len(p):]
        for p in (' const', '&', '&&'):
            if t.endswith(p): t = t[:-len(p)].strip()
        if u == t: return t
@functools.lru_cache(None)
def isptr(t): return ct(t).endswith('*')
@functools.lru_cache(None)
def isfloat(t): return ct(t) in ('double', 'float', 'long double')
@functools.lru_cache(None)
def isint(t): c = ct(t); return c in UNSIGNED or c in SIGNED or c == 'bool'
@functools.lru_cache(None)
def isview(t): return ct(t).startswith('Kokkos::View<')
ARR = re.compile(r'^(.*?)\s*\[(\d+)\]$')
MATH = {'sqrt': 'sqrt', 'exp': 'exp', 'log': 'log', 'tanh': 'tanh', 'cos': 'cos', 'sin': 'sin', 'fabs': 'abs', 'acos': 'acos'}

class Interp:
    def __init__(self, db, models=None, budget=400000, opaque=None):
        self.db = db; self.M = models or F.Models(); self.budget = budget; self.steps = 0; self.frames = []; self.own = {}; self.at_throws = False; self.hooks = {}; self.opaque = opaque or {}
        self.where_ = ''; self.asserts = 0; self.calls = set(); self.races = []; self.iterlog = None; self.nbounds = 0; self.nscratch = 0; self.fail_on = None; self.team = 2; self.sobj = False; self.notes = []
    # ---- utilities
    def w(self, e=None):
        f = self.frames[-1]['fn'] if self.frames else None
        return '%s:%s' % (f.file if f is not None else '?', (e or {}).get('l', f.line if f is not None else 0))
    def real(self, v):
        if isinstance(v, E): return v
        if isinstance(v, bool): return K(int(v))
        if isinstance(v, int): return K(v)
        raise NoAnswer('not a number: %r' % (v,))
    def conv(self, v, t):
        """conversion on initialisation / assignment / passing"""
        c = ct(t)
        if isinstance(v, E):
            if isint(c):
                if c == 'bool': return self.truth(v)
                if v.op == 'k' :
                    x = v.a[0]; i = int(x); return self.wrap(i, c)
                return self._toint(v, c)
            return v
        if isinstance(v, (int, bool)) and not isinstance(v, E):
            if isfloat(c): return K(int(v))
            if c == 'bool': return bool(v)
            return self.wrap(int(v), c)
        return v
    def _toint(self, v, c):
        r = {int(m.ev(v)) for m in self.M.ms}
        if len(r) == 1: return self.wrap(r.pop(), c)
        raise NoAnswer('integer value of ' + F.sh(v))
    def wrap(self, i, t):
        c = ct(t)
        if c in UNSIGNED: return i % (1 << UNSIGNED[c])
        if c in SIGNED:
            n = SIGNED[c]
            if not -(1 << (n - 1)) <= i < (1 << (n - 1)):
                i = (i + (1 << (n - 1))) % (1 << n) - (1 << (n - 1))
        return i
    def truth(self, v):
        if isinstance(v, E): return self.M.decide('!=', v, F.ZERO)
        if isinstance(v, (int, bool)): return bool(v)
        if v is None: return False
        if isinstance(v, (Ptr, Obj, View, Vec, Lam, Fn)): return True
        raise NoAnswer('truth of %r' % (v,))
    # ---- storage
    def get(self, lv):
        if isinstance(lv, LV):
            c = lv.c
            if isinstance(c, Buf):
                self.bound(c, lv.k)
                if self.iterlog is not None: self._logr(c, lv.k)
                v = c.d.get(lv.k)
                if v is None:
                    v = c.zero if c.zero is not None else F.undef('%s[%d]' % (c.name, lv.k)); c.d[lv.k] = v
                return v
            if isinstance(c, dict):
                if lv.k not in c: raise NoAnswer('read of %s' % lv.k)
                if self.iterlog is not None and isinstance(lv.k, str): self._logr(c, lv.k)
                return c[lv.k]
            return c[lv.k]
        return lv
    def set(self, lv, v):
        if not isinstance(lv, LV): 
            if isinstance(lv, Obj) and isinstance(v, Obj): lv.f.clear(); lv.f.update(v.f); lv.cls = v.cls; return
            if isinstance(lv, Vec) and isinstance(v, Vec): lv.v[:] = v.v; lv.ep += 1; return
            if isinstance(lv, Assoc) and isinstance(v, Assoc): lv.d = dict(v.d); lv.keys = dict(v.keys); lv.k = None; return
            raise NoAnswer('assignment to %r' % (lv,))
        c = lv.c
        if isinstance(c, Buf):
            self.bound(c, lv.k)
            if self.iterlog is not None: self._logw(c, lv.k)
            c.d[lv.k] = v
        else:
            if self.iterlog is not None and isinstance(c, dict) and isinstance(lv.k, str): self._logw(c, lv.k)
            c[lv.k] = v
    def bound(self, b, i):
        self.nbounds += 1
        if b.freed: raise Violation('bounds', 'access to freed %s' % b.name, self.where_)
        if not (0 <= i < b.n): raise Violation('bounds', 'index %d of %s (%d elements)' % (i, b.name or 'storage', b.n), self.where_)
    def _logw(self, c, k):
        if isinstance(c, Buf) and c.iter is self.iterlog['cur']: return
        if isinstance(c, dict) and id(c) in self.iterlog['own']: return
        self.iterlog['w'].setdefault((id(c), k), set()).add(self.iterlog['i']); self.iterlog['name'][(id(c), k)] = '%s[%s]' % (getattr(c, 'name', 'object'), k) ; self.iterlog['at'].setdefault((id(c), k), self.where_); self.iterlog['keep'].append(c)
    def _logr(self, c, k):
        if isinstance(c, Buf) and c.iter is self.iterlog['cur']: return
        self.iterlog['r'].setdefault((id(c), k), set()).add(self.iterlog['i'])
    def newbuf(self, n, name='', zero=None):
        b = Buf(n, name, zero)
        if self.iterlog is not None: b.iter = self.iterlog['cur']
        return b
    def copyval(self, v):
        if isinstance(v, SObj): return v
        if isinstance(v, Obj): return self.copyobj(v)
        if isinstance(v, Vec): return Vec([self.copyval(x) for x in v.v], v.et)
        if isinstance(v, Assoc):
            c = Assoc(v.map, v.t); c.keys = dict(v.keys); c.d = {k: self.copyval(x) for k, x in v.d.items()}; return c
        return v
    def copyobj(self, v):
        o = Obj(v.cls, {k: self.copyval(x) for k, x in v.f.items()}); o.ty = v.ty
        if self.iterlog is not None: self.iterlog['own'].add(id(o.f)); self.iterlog['keep'].append(o)
        return o
    def default(self, t, name=''):
        c = ct(t)
        m = ARR.match(c)
        if m:
            inner, n = m.group(1), int(m.group(2))
            if ARR.match(inner): return Ptr(self._arr2(inner, n, name))
            return Ptr(self.newbuf(n, name))
        if isfloat(c): return F.undef(name)
        if isint(c) or isptr(c): return Opaque('unset ' + name)
        if isview(c): return View(None, 0, self._rank0(c), ())
        if c.startswith('std::vector<'): return Vec([], c)
        if ASSOC.match(c): return Assoc('map<' in c.split('<')[0] + '<', c)
        if c.startswith('std::shared_ptr') or c.startswith('std::unique_ptr'): return None
        if c in ('std::string',) or c.startswith('std::basic_string<'): return Str('')
        cl = strip_targs(c)
        if cl in self.db.classes: return self.construct(c, None, [], None)
        return Opaque(c)
    def _rank0(self, c): return (0,) * self.rank(c)
    def rank(self, t):
        m = re.match(r'Kokkos::View<(?:const )?[\w: ]+?((?: ?\*)+)', ct(t).replace('const ', ''))
        return m.group(1).count('*') if m else 1
    def fields(self, t):
        cq = strip_targs(ct(t)); out = []
        cs = self.db.classes.get(cq, [])
        c = next((x for x in cs if x.get('tn') == ct(t)), None) or next((x for x in cs if not x.get('dep')), None) or (cs[0] if cs else None)
        if c is None: return [], []
        return c['bases'], c['fields']

    # ---- running functions
    def asint(self, x):
        if isinstance(x, E):
            if F.isk(x): return int(x.a[0])
            raise NoAnswer('extent %s' % F.sh(x))
        if isinstance(x, (int, bool)): return int(x)
        raise NoAnswer('extent %r' % (x,))
    def call_func(self, fn, this, args, argl=None):
        try: return self._call_func(fn, this, args, argl)
        except (TypeError, AttributeError, KeyError, IndexError, ValueError, AssertionError, RecursionError, StopIteration) as x:
            raise NoAnswer('not interpreted (%s: %s) at %s' % (type(x).__name__, x, self.where_))
    def _call_func(self, fn, this, args, argl=None):
        """args: values (or LVs for references)"""
        if fn.body is None: raise NoAnswer('no body: %s' % fn.cq)
        self.calls.add(fn.u)
        if len(self.frames) > 60: raise NoAnswer('recursion in %s' % fn.cq)
        env = {}
        fr = {'fn': fn, 'env': env, 'this': this}
        self.frames.append(fr); sw = self.where_
        try:
            for i, p in enumerate(fn.ps):
                if i < len(args): v = args[i]
                elif 'dv' in p: v = self.ex(p['dv'])
                else: raise NoAnswer('missing argument %s of %s' % (p['n'], fn.cq))
                self.bind(env, p, v)
            try: self.stmt(fn.body); r = None
            except _Ret as x: r = x.v
            rt = fn.d.get('ret', '')
            if r is not None and not rt.rstrip().endswith('&') :
                r = self.conv(self.val(r), rt) if not isinstance(r, (Obj, Vec)) else r
            return r
        finally: self.frames.pop(); self.where_ = sw
    def bind(self, env, p, v):
        t = p['t']
        if t.rstrip().endswith('&'):
            if isinstance(v, LV) or isinstance(v, (Obj, Vec, Assoc, View, Lam, Fn, Ptr, Policy, Member, Opaque)) : 
                if isview(t) and isinstance(v, LV): env[p['id']] = v
                elif isinstance(v, SObj): env[p['id']] = LV([v], 0)
                else: env[p['id']] = v if isinstance(v, LV) else LV([v], 0) if isinstance(v, (View, Ptr)) else v
            else: env[p['id']] = LV([self.conv(v, t) if v is not None else v], 0)
        else:
            v = self.val(v); v = self.conv(v, t)
            v = self.copyval(v)
            env[p['id']] = v if inplace(v) else LV([v], 0)
    def val(self, x): return self.get(x) if isinstance(x, LV) else x

    # ---- statements
    def stmt(self, s):
        if s is None: return
        self.steps += 1
        if self.steps > self.budget: raise NoAnswer('budget')
        k = s['k']
        if 'l' in s and self.frames: self.where_ = '%s:%s' % (self.frames[-1]['fn'].file, s['l'])
        m = getattr(self, 's_' + k, None)
        if m is None: raise NoAnswer('statement ' + k)
        m(s)
    def s_nop(self, s): pass
    def s_label(self, s): self.stmt(s['s'])
    def s_blk(self, s):
        for c in s['a']: self.stmt(c)
    def s_expr(self, s): self.ex(s['e'])
    def s_ret(self, s):
        if not s.get('e'): raise _Ret(None)
        fn = self.frames[-1]['fn']; 
        ref = fn is not None and fn.d.get('ret', '').rstrip().endswith('&') and not self.frames[-1].get('lam')
        raise _Ret(self.loc(s['e']) if ref else self.copyret(self.ex(s['e'])))
    def copyret(self, v): return v
    def s_decl(self, s):
        for v in s['a']: self.vardecl(v)
    def vardecl(self, v):
        env = self.frames[-1]['env']; t = v['t']; init = v.get('init')
        if t.rstrip().endswith('&') and init is not None:
            x = self.loc(init) if init['k'] in ('ref', 'mem', 'sub', 'un', 'call', 'cast', 'cond') else self.ex(init)
            env[v['id']] = x if isinstance(x, LV) or inplace(x) else LV([x], 0)
            self.borrow(env, v['id'], v['n'], x)
            if v.get('binds'): self.binds(v, x, env)
            return
        if init is None or (init.get('k') == 'ctor' and init.get('def') and isview(t)):
            x = self.default(t, v['n'])
        else:
            if isview(t): self._label = v['n']
            x = self.ex(init)
            if init['k'] == 'list': x = self.listinit(init, x, t, v['n'])
            elif init['k'] in ('ref', 'mem', 'sub', 'cond', 'call') or init.get('cp'): x = self.copyval(x)
            x = self.conv(x, t)
        if isinstance(x, View) and x.buf is not None and not x.buf.name: x.buf.name = v['n']
        env[v['id']] = x if inplace(x) else LV([x], 0)
        if v.get('binds'): self.binds(v, x, env)
        if isinstance(x, Obj) and self.iterlog is not None: self.iterlog['own'].add(id(x.f)); self.iterlog['keep'].append(x)
    def binds(self, v, x, env):
        """the names of a structured binding"""
        if isinstance(x, LV): x = self.val(x)
        for i, b in enumerate(v['binds']):
            if isinstance(x, Pair): y = x.b if i else x.a
            elif isinstance(x, Obj) and b.get('f') in x.f: y = x.f[b['f']]
            else: raise NoAnswer('structured binding of %r' % type(x).__name__)
            env[b['id']] = y if isinstance(y, LV) or inplace(y) else LV([y], 0)
            self.borrow(env, b['id'], b['n'], y)
    def owner(self, x):
        if isinstance(x, LV): return self.own.get(id(x.c)) if isinstance(x.c, list) else None
        return getattr(x, 'par', None)
    def borrow(self, env, i, name, x):
        """a reference into a growing vector is followed"""
        o = self.owner(x); ch = []
        while o is not None and len(ch) < 4: ch.append((o, o.ep)); o = getattr(o, 'par', None)
        if ch: env.setdefault('#ref', {})[i] = (name, ch, self.where_)
        elif '#ref' in env: env['#ref'].pop(i, None)
    def stale(self, r):
        if any(o.ep != ep for o, ep in r[1]): raise Violation('dangling', 'the reference %s into a vector is used after the vector grew' % r[0], self.where_)
    def listinit(self, node, x, t, name=''):
        c = ct(t); m = ARR.match(c)
        items = x if isinstance(x, list) else [x]
        if m:
            b = self.newbuf(int(m.group(2)), name, zero=F.ZERO if isfloat(m.group(1)) else 0)
            for i, y in enumerate(items): b.d[i] = self.conv(y, m.group(1))
            return Ptr(b)
        if isfloat(c) or isint(c) or isptr(c): return items[0] if items else (F.ZERO if isfloat(c) else 0 if isint(c) else None)
        if c.startswith('std::vector<'): return Vec(items, c)
        if strip_targs(c) in self.db.classes:
            o = Obj(strip_targs(c)); o.ty = c
            _, fs = self.fields(c)
            for f, y in zip(fs, items): o.f[f['n']] = self.conv(y, f['t'])
            for f in fs[len(items):]: o.f[f['n']] = self.default(f['t'], f['n'])
            return o
        return x
    def s_if(self, s):
        if s.get('init'): self.stmt(s['init'])
        if s.get('cv'): self.vardecl(s['cv'])
        if s.get('live'): self.stmt(s['then'] if s['live'] == 'then' else s.get('els')); return
        c = self.truth(self.ex(s['c']))
        self.stmt(s['then'] if c else s.get('els'))
    def s_for(self, s):
        self.stmt(s.get('init'))
        while s.get('c') is None or self.truth(self.ex(s['c'])):
            self.steps += 1
            if self.steps > self.budget: raise NoAnswer('budget')
            try: self.stmt(s['body'])
            except _Brk: break
            except _Cnt: pass
            if s.get('inc'): self.ex(s['inc'])
    def s_while(self, s):
        while self.truth(self.ex(s['c'])):
            self.steps += 1
            if self.steps > self.budget: raise NoAnswer('budget')
            try: self.stmt(s['body'])
            except _Brk: break
            except _Cnt: pass
    def s_do(self, s):
        while True:
            self.steps += 1
            if self.steps > self.budget: raise NoAnswer('budget')
            try: self.stmt(s['body'])
            except _Brk: break
            except _Cnt: pass
            if not self.truth(self.ex(s['c'])): break
    def s_break(self, s): raise _Brk()
    def s_cont(self, s): raise _Cnt()
    def s_switch(self, s):
        v = self.ex(s['c']); body = s['body']['a']; on = False
        def flat(items):
            for x in items:
                y = x; labs = []
                while y is not None and y['k'] in ('case', 'default'):
                    labs.append(None if y['k'] == 'default' else self.ex(y['v'])); y = y['s']
                yield labs, y
        items = list(flat(body)); start = None
        for i, (labs, y) in enumerate(items):
            if any(l is not None and l == v for l in labs): start = i; break
        if start is None: start = next((i for i, (l, y) in enumerate(items) if None in l), None)
        if start is None: return
        try:
            for labs, y in items[start:]: self.stmt(y)
        except _Brk: pass
    def s_rfor(self, s):
        r = self.ex(s['range']); env = self.frames[-1]['env']; v = s['var']; t = v['t']
        ch = []; o = r if isinstance(r, (Vec, Assoc)) else None
        while o is not None and len(ch) < 4:
            if isinstance(o, Vec): ch.append((o, o.ep))
            o = getattr(o, 'par', None)
        chk = ('of this loop', ch, '')
        def walk():
            if isinstance(r, Assoc):
                k = next(iter(r.order()), None)
                while k is not None:
                    yield self.deref_s(r, k)
                    self.stale(chk)
                    if k not in r.d: raise Violation('dangling', 'the element the loop stands on was erased', self.where_)
                    k = r.nxt(k)
            else:
                for x in self.items(r): yield x; self.stale(chk)
        for x in walk():
            self.steps += 1
            if t.rstrip().endswith('&'): env[v['id']] = x; self.borrow(env, v['id'], v['n'], x)
            else:
                y = self.copyval(self.val(x)); y = self.conv(y, t); env[v['id']] = y if inplace(y) else LV([y], 0)
            if v.get('binds'): self.binds(v, env[v['id']], env)
            try: self.stmt(s['body'])
            except _Brk: break
            except _Cnt: pass
    def items(self, r):
        if isinstance(r, Vec):
            self.own[id(r.v)] = r
            for x in r.v:
                if inplace(x): x.par = r
            return [x if inplace(x) else LV(r.v, i) for i, x in enumerate(list(r.v))]
        if isinstance(r, list): return list(r)
        raise NoAnswer('range over %r' % (r,))
    def s_try(self, s):
        try: self.stmt(s['body'])
        except Throw: 
            hs = s.get('h') or []
            if not hs: raise
            self.stmt(hs[0]['body'])

    # ---- expressions
    def ex(self, e):
        self.steps += 1
        if self.steps > self.budget: raise NoAnswer('budget')
        m = getattr(self, 'x_' + e['k'], None)
        if m is None: raise NoAnswer('expression %s at %s' % (e['k'] + ' ' + e.get('sc', ''), self.w(e)))
        return m(e)
    def x_int(self, e): return e['v']
    def x_chr(self, e): return e['v']
    def x_bool(self, e): return bool(e.get('v'))
    def x_flt(self, e):
        if e['v'] is None: return E('inf')
        if abs(e['v'] - 3.141592653589793) < 1e-15: return F.PI
        return K(str(repr(e['v'])))
    def x_str(self, e): return Str(e.get('v', ''))
    def x_null(self, e): return None
    def x_zero(self, e): return F.ZERO if isfloat(e.get('t')) else None if isptr(e.get('t')) else 0
    def x_this(self, e): return self.frames[-1]['this']
    def x_sizeof(self, e): c = ct(e['at']); return {'double': 8, 'float': 4, 'unsigned int': 4, 'int': 4}.get(c, 8)
    def x_throw(self, e): raise Throw('exception', self.w(e))
    def x_assert(self, e):
        self.asserts += 1
        if not self.truth(self.ex(e['c'])): raise Throw('assertion', self.w(e))
        return None
    def x_list(self, e): return [self.ex(x) for x in e['a']]
    def x_cast(self, e): return self.conv(self.ex(e['e']), e.get('t', ''))
    def x_ref(self, e):
        d = e['d']
        if d == 'enum': return e['v']
        if d == 'func': return ('func', e)
        if 'cv' in e: return e['cv']
        return self.val(self.loc(e))
    def x_mem(self, e):
        if e.get('d') == 'func': return ('method', e)
        return self.val(self.loc(e))
    def x_sub(self, e): return self.val(self.loc(e))
    def x_cond(self, e): return self.ex(e['x'] if self.truth(self.ex(e['c'])) else e['y'])
    def x_lam(self, e):
        fr = self.frames[-1]; env = {}
        this = fr['this']
        for c in e.get('caps', []):
            if c.get('n') == 'this' and 'id' not in c:
                if not c.get('ref') and isinstance(this, Obj): this = self.copyobj(this)
                continue
            x = fr['env'].get(c.get('id'))
            if c.get('init') is not None: x = self.ex(c['init']); x = x if isinstance(x, (Obj, Vec)) else LV([x], 0)
            elif not c.get('ref'):
                y = self.copyval(self.val(x)); x = y if isinstance(y, (Obj, Vec)) else LV([y], 0)
            env[c['id']] = x
        return Lam(e, env, this, fr['fn'])
    def x_un(self, e):
        op = e['op']
        if op in ('++', '--'):
            l = self.loc(e['e']); old = self.val(l)
            if isinstance(old, Ptr): new = Ptr(old.b, old.o + (1 if op == '++' else -1))
            elif isinstance(old, It): new = It(old.c, old.i + (1 if op == '++' else -1))
            elif isinstance(old, E): new = F.add(old, K(1 if op == '++' else -1))
            elif isinstance(old, int): new = self.wrap(old + (1 if op == '++' else -1), e['e'].get('t', 'int'))
            else: raise NoAnswer('++ of %r' % (old,))
            self.set(l, new); return old if e.get('post') else new
        if op == '&':
            l = self.loc(e['e'])
            if isinstance(l, LV):
                v = l.c
                if isinstance(v, Buf): return Ptr(v, l.k)
                x = v[l.k] if not isinstance(v, dict) or l.k in v else None
                if isinstance(x, (Obj, Vec, View)): return x
                if isinstance(v, list) and id(v) in self.own and self.own[id(v)].v is v:
                    b = Buf(len(v), 'vector'); b.d = ListDict(v); return Ptr(b, l.k)
                return Ptr(CellBuf(v, l.k), 0)
            return l
        if op == '*':
            return self.val(self.loc(e))
        v = self.ex(e['e'])
        if op == '-': return F.neg(v) if isinstance(v, E) else self.wrap(-v, e.get('t', 'int'))
        if op == '+': return v
        if op == '!': return not self.truth(v)
        if op == '~': return self.wrap(~v, e.get('t', 'int'))
        raise NoAnswer('unary ' + op)
    def x_bin(self, e):
        op = e['op']
        if op == '&&': return self.truth(self.ex(e['x'])) and self.truth(self.ex(e['y']))
        if op == '||': return self.truth(self.ex(e['x'])) or self.truth(self.ex(e['y']))
        if op == ',': self.ex(e['x']); return self.ex(e['y'])
        x = self.ex(e['x']); y = self.ex(e['y'])
        return self.binop(op, x, y, e)
    def cmpint(self, x, y, e):
        tx, ty = ct(e['x'].get('t', '')) if 'x' in e else '', ct(e['y'].get('t', '')) if 'y' in e else ''
        for t in (tx, ty):
            if UNSIGNED.get(t, 0) >= 32:
                n = max(UNSIGNED.get(tx, SIGNED.get(tx, 32)), UNSIGNED.get(ty, SIGNED.get(ty, 32)))
                if UNSIGNED.get(t) >= n: return x % (1 << n), y % (1 << n)
        return x, y
    def cmpvec(self, op, x, y):
        e = {'t': 'bool', 'x': {}, 'y': {}}
        if op == '!=': return not self.cmpvec('==', x, y)
        if op == '>': return self.cmpvec('<', y, x)
        if op == '<=': return not self.cmpvec('<', y, x)
        if op == '>=': return not self.cmpvec('<', x, y)
        if op == '==': return len(x.v) == len(y.v) and all(self.truth(self.binop('==', a, b, e)) for a, b in zip(x.v, y.v))
        for a, b in zip(x.v, y.v):
            if self.truth(self.binop('<', a, b, e)): return True
            if self.truth(self.binop('<', b, a, e)): return False
        return len(x.v) < len(y.v)
    def binop(self, op, x, y, e):
        x = self.val(x); y = self.val(y)
        for o in (x, y):
            if isinstance(o, Opaque): 
                if o.what.startswith('unset '): raise Violation('unset', 'value of %s used before it is set' % o.what[6:], self.where_)
                raise NoAnswer('operand %r' % (o,))
        if op in ('<', '>', '<=', '>=', '==', '!='):
            if isinstance(x, E) or isinstance(y, E): return self.M.decide(op, self.real(x), self.real(y))
            if isinstance(x, bool) or isinstance(y, bool) or isinstance(x, int) and isinstance(y, int):
                x, y = self.cmpint(int(x), int(y), e)
                return {'<': x < y, '>': x > y, '<=': x <= y, '>=': x >= y, '==': x == y, '!=': x != y}[op]
            if isinstance(x, Ptr) and isinstance(y, Ptr):
                if x.b is y.b: return {'<': x.o < y.o, '>': x.o > y.o, '<=': x.o <= y.o, '>=': x.o >= y.o, '==': x.o == y.o, '!=': x.o != y.o}[op]
                if op in ('==', '!='): return op == '!='
            if isinstance(x, It) and isinstance(y, It): return {'<': x.i < y.i, '>': x.i > y.i, '<=': x.i <= y.i, '>=': x.i >= y.i, '==': x.i == y.i, '!=': x.i != y.i}[op]
            if isinstance(x, Vec) and isinstance(y, Vec): return self.cmpvec(op, x, y)
            if op in ('==', '!=') and (x is None or y is None): return (x is y) == (op == '==')
            if isinstance(x, str) and isinstance(y, str): return {'==': x == y, '!=': x != y}[op]
            raise NoAnswer('comparison %r %s %r' % (x, op, y))
        if isinstance(x, Ptr) and isinstance(y, int): return Ptr(x.b, x.o + (y if op == '+' else -y))
        if isinstance(y, Ptr) and isinstance(x, int): return Ptr(y.b, y.o + x)
        if isinstance(x, Ptr) and isinstance(y, Ptr) and op == '-' and x.b is y.b: return x.o - y.o
        if isinstance(x, It) and isinstance(y, int): return It(x.c, x.i + (y if op == '+' else -y))
        if isinstance(x, It) and isinstance(y, It) and op == '-': return x.i - y.i
        if isinstance(x, E) or isinstance(y, E):
            x, y = self.real(x), self.real(y)
            return {'+': F.add, '-': F.sub, '*': F.mul, '/': F.div}[op](x, y) if op in '+-*/' else self._no(op)
        if isinstance(x, (int, bool)) and isinstance(y, (int, bool)):
            x, y = int(x), int(y); t = e.get('t', 'int')
            if op.endswith('='): t = e['x'].get('t', 'int')
            if op in '/%':
                if y == 0: raise Violation('division', 'integer division by zero', self.where_)
                q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
                return self.wrap(q if op == '/' else x - y * q, t)
            r = {'+': lambda: x + y, '-': lambda: x - y, '*': lambda: x * y, '&': lambda: x & y, '|': lambda: x | y, '^': lambda: x ^ y, '<<': lambda: x << y, '>>': lambda: x >> y}[op]()
            if ct(t) == 'bool': return bool(r)
            return self.wrap(r, t)
        if isinstance(x, str) or isinstance(y, str) or isinstance(x, Opaque): return Str('')
        raise NoAnswer('%r %s %r' % (x, op, y))
    def _no(self, op): raise NoAnswer('operator ' + op)
    def x_asg(self, e):
        op = e['op']
        y = self.ex(e['y'])
        l = self.loc(e['x'])
        t = e['x'].get('t', '')
        if op == '=':
            y = self.conv(self.copyval(y), t)
            if isinstance(l, (Obj, Vec)): self.set(l, y)
            else: self.set(l, y)
            return y
        old = self.val(l)
        v = self.conv(self.binop(op[:-1], old, y, dict(e, t=t)), t)
        self.set(l, v); return v
    # ---- locations
    def loc(self, e):
        k = e['k']
        if k == 'ref':
            if e['d'] in ('param', 'local'):
                env = self.frames[-1]['env']; x = env.get(e['id'])
                if '#ref' in env and e['id'] in env['#ref']: self.stale(env['#ref'][e['id']])
                if x is None:
                    if 'cv' in e: return e['cv']
                    raise NoAnswer('unbound %s' % e['n'])
                return x
            if e['d'] == 'global':
                q = e.get('q', e['n'])
                if 'ALL' in q: return ALL
                if q in ('std::cout', 'std::cerr', 'std::clog'): return Opaque(q)
                if q.endswith('::pi_v') or q.endswith('::pi'): return LV([F.A('pi')], 0)
                for g in self.db.globals:
                    if g['q'] == q and isinstance(g.get('init'), dict): return LV([self.ex(g['init'])], 0)
                raise NoAnswer('global ' + q)
            return self.ex(e)
        if k == 'mem':
            b = self.ex(e['b']) if e['b']['k'] != 'this' else self.frames[-1]['this']
            if isinstance(b, LV): b = self.val(b)
            if isinstance(b, Ptr) and isinstance(b.b, CellBuf): b = b.b.get()
            if isinstance(b, SIt): b = self.deref_s(b.c, b.k)
            if isinstance(b, Pair): return b.a if e['n'] == 'first' else b.b
            if isinstance(b, Obj):
                if e.get('d') == 'global': raise NoAnswer('static member')
                if e['n'] not in b.f:
                    if b.cls in self.opaque: raise NoAnswer('field of an uninterpreted class')
                    ty = e.get('t', ''); b.f[e['n']] = self.default(ty, e['n'])
                x = b.f[e['n']]
                return x if inplace(x) else LV(b.f, e['n'])
            raise NoAnswer('member %s of %r' % (e['n'], b))
        if k == 'sub':
            b = self.ex(e['b']); i = self.ex(e['i'])
            if isinstance(b, Ptr): return LV(b.b, b.o + i) if not isinstance(b.b, CellBuf) else b.b.at(b.o + i, self)
            if isinstance(b, Vec): return self.velem(b, i)
            raise NoAnswer('subscript of %r' % (b,))
        if k == 'un' and e['op'] == '*':
            b = self.ex(e['e'])
            if isinstance(b, Ptr): return LV(b.b, b.o) if not isinstance(b.b, CellBuf) else b.b.at(b.o, self)
            if isinstance(b, It): return self.velem(b.c, b.i)
            if isinstance(b, SIt): return self.deref_s(b.c, b.k)
            return b
        if k == 'un' and e['op'] in ('++', '--'): self.ex(e); return self.loc(e['e'])
        if k == 'cond': return self.loc(e['x'] if self.truth(self.ex(e['c'])) else e['y'])
        if k == 'cast': return self.loc(e['e'])
        if k == 'asg': self.ex(e); return self.loc(e['x'])
        if k == 'call': return self.call(e, True)
        return self.ex(e)
    def velem(self, b, i):
        self.nbounds += 1
        if not 0 <= i < len(b.v): raise Violation('bounds', 'index %d of a vector of %d' % (i, len(b.v)), self.where_)
        x = b.v[i]
        if inplace(x): x.par = b; return x
        self.own[id(b.v)] = b
        return LV(b.v, i)
    # ---- construction
    def x_new(self, e):
        if e.get('sz'):
            n = self.ex(e['sz']); return Ptr(self.newbuf(n, 'new'))
        if e.get('e'): return self.ex(e['e'])
        return self.default(e['nt'])
    def x_del(self, e):
        v = self.ex(e['e'])
        if isinstance(v, Ptr): v.b.freed = True
        return None
    def x_ctor(self, e):
        t = e.get('t', ''); c = ct(t); args = e.get('a', [])
        cl = strip_targs(e.get('cls') or c)
        if (e.get('cp') or e.get('mv')) and args:
            return self.copyval(self.ex(args[0]))
        if isview(c): return self.mkview(c, args, e)
        if cl.startswith('Kokkos::') and 'Policy' in cl: return self.mkpolicy(cl, [self.ex(a) for a in args], e)
        if cl in ('Kokkos::ParallelForTag',) : return Opaque(cl)
        if cl in ('std::shared_ptr', 'std::unique_ptr', 'std::function', 'std::__cxx11::basic_string', 'std::basic_string'):
            if not args: return None if 'ptr' in cl else Str('')
            return self.ex(args[0])
        if (cl.endswith('__normal_iterator') or cl.startswith('std::_Rb_tree')) and len(args) == 1: return self.ex(args[0])
        if cl == 'std::vector':
            vs = [self.ex(a) for a in args if a['k'] != 'dep']
            et = elt(c)
            vs = [v for v in vs if not isinstance(v, Opaque)]
            if not vs: return Vec([], c)
            if isinstance(vs[0], list): return Vec(vs[0], c)
            if isinstance(vs[0], Vec): return self.copyval(vs[0])
            if isinstance(vs[0], It) and len(vs) > 1: return Vec([self.copyval(x) for x in vs[0].c.v[vs[0].i:vs[1].i]], c)
            if isinstance(vs[0], SIt) and len(vs) > 1: return Vec([self.copyval(self.val(self.deref_s(vs[0].c, k))) for k in self.srange(vs[0], vs[1])], c)
            if isinstance(vs[0], int):
                return Vec([self.copyval(self.conv(vs[1], et)) if len(vs) > 1 else (F.ZERO if isfloat(et) else 0 if isint(et) else self.default(et)) for _ in range(vs[0])], c)
            raise NoAnswer('vector constructor')
        if ASSOC.match(cl + '<'):
            vs = [self.ex(a) for a in args if a['k'] != 'dep']; vs = [v for v in vs if not isinstance(v, Opaque)]
            s = Assoc('map' in cl, c)
            if not vs: return s
            if isinstance(vs[0], Assoc): return self.copyval(vs[0])
            if isinstance(vs[0], list): src = vs[0]
            elif isinstance(vs[0], It): src = vs[0].c.v[vs[0].i:vs[1].i]
            elif isinstance(vs[0], SIt): src = [self.deref_s(vs[0].c, k) for k in self.srange(vs[0], vs[1])]
            else: raise NoAnswer('set constructor')
            for x in src: self.s_put(s, x)
            return s
        if cl.startswith('std::pair') or cl == 'Kokkos::pair':
            vs = [self.ex(a) for a in args]
            return Pair(LV([vs[0]], 0), LV([vs[1]], 0)) if len(vs) == 2 else Pair(LV([0], 0), LV([0], 0))
        if cl in self.opaque or cl.rsplit('::', 1)[-1] in self.opaque:
            o = Obj(cl); o.ty = c; o.f['#args'] = [self.ex(a) for a in args]
            h = self.opaque.get(cl) or self.opaque[cl.rsplit('::', 1)[-1]]
            if hasattr(h, 'ctor'): h.ctor(self, o)
            return o
        if cl in self.db.classes: return self.construct(c, e, args, None)
        if cl.startswith('Eigen::') and len(args) == 1:
            v = self.ex(args[0])
            if isinstance(v, Opaque): return v
        return Opaque(cl)
    def construct(self, c, e, args, this, base=False):
        cl = strip_targs(c)
        o = this if this is not None else Obj(cl)
        if this is None: o.ty = c
        if self.iterlog is not None: self.iterlog['own'].add(id(o.f)); self.iterlog['keep'].append(o)
        fn = self.db.callee(e['u'], None, e.get('iu')) if e is not None and e.get('u') else None
        if fn is None and e is None: fn = next((f for f in self.db.methods(cl) if f.d.get('isctor') and (not f.ps or all('dv' in p for p in f.ps))), None)
        if fn is None:
            self.init_fields(c, o, {})
            return o
        vals = self.bindargs(fn.ps, args)
        self.run_ctor(fn, o, vals, c)
        return o
    def bindargs(self, ps, args):
        out = []
        for i, a in enumerate(args):
            p = ps[i] if i < len(ps) else None
            if p is not None and p['t'].rstrip().endswith('&') and a['k'] in ('ref', 'mem', 'sub', 'un', 'call', 'cast', 'cond', 'asg'): out.append(self.loc(a))
            else: out.append(self.ex(a))
        return out
    def run_ctor(self, fn, o, vals, c):
        try: return self._run_ctor(fn, o, vals, c)
        except (TypeError, AttributeError, KeyError, IndexError, ValueError, AssertionError, RecursionError, StopIteration) as x:
            raise NoAnswer('not interpreted (%s: %s) at %s' % (type(x).__name__, x, self.where_))
    def _run_ctor(self, fn, o, vals, c):
        env = {}; self.calls.add(fn.u)
        self.frames.append({'fn': fn, 'env': env, 'this': o})
        sw = self.where_
        try:
            for i, p in enumerate(fn.ps):
                self.bind(env, p, vals[i] if i < len(vals) else self.ex(p['dv']))
            inits = fn.d.get('inits', []); done = {}
            deleg = next((I for I in inits if I.get('deleg')), None)
            if deleg is not None:
                x = deleg['e']
                if x['k'] == 'ctor':
                    f2 = self.db.callee(x['u'], None, x.get('iu')); self.run_ctor(f2, o, self.bindargs(f2.ps, x.get('a', [])), c)
            else:
                for I in inits:
                    if 'f' not in I and 'base' in I:
                        x = I.get('e')
                        if isinstance(x, dict) and x.get('k') == 'ctor' and x.get('u'):
                            f2 = self.db.callee(x['u'], None, x.get('iu'))
                            if f2 is not None: self.run_ctor(f2, o, self.bindargs(f2.ps, x.get('a', [])), I['base']); done['#' + strip_targs(I['base'])] = 1
                    elif 'f' in I:
                        x = I.get('e')
                        ft = self.ftype(c, I['f'])
                        self.where_ = '%s:%s' % (fn.file, I.get('l', fn.line))
                        if x is None: o.f[I['f']] = self.default(ft, I['f'])
                        else:
                            if ft.rstrip().endswith('&') and x['k'] in ('ref', 'mem', 'sub', 'un', 'call', 'cast'):
                                v = self.loc(x); v = self.val(v)
                            else: v = self.ex(x)
                            if x['k'] == 'list': v = self.listinit(x, v, ft, I['f'])
                            if not ft.rstrip().endswith('&'): v = self.copyval(v)
                            o.f[I['f']] = self.conv(v, ft)
                        done[I['f']] = 1
                self.init_fields(c, o, done)
            try: self.stmt(fn.body)
            except _Ret: pass
        finally: self.frames.pop(); self.where_ = sw
    def ftype(self, c, n):
        bs, fs = self.fields(c)
        for f in fs:
            if f['n'] == n: return f['t']
        return ''
    def init_fields(self, c, o, done):
        bs, fs = self.fields(c)
        for b in bs:
            bt = b['t']
            if '#' + strip_targs(bt) not in done and strip_targs(bt) in self.db.classes:
                f2 = next((f for f in self.db.methods(strip_targs(bt)) if f.d.get('isctor') and not f.ps), None)
                if f2 is not None: self.run_ctor(f2, o, [], bt)
                else: self.init_fields(bt, o, {})
        for f in fs:
            if f['n'] in done or f['n'] in o.f: continue
            if isinstance(f.get('init'), dict): o.f[f['n']] = self.conv(self.ex(f['init']), f['t'])
            else: o.f[f['n']] = self.default(f['t'], f['n'])
    # ---- Kokkos
    def mkview(self, c, args, e):
        r = self.rank(c)
        vals = [self.ex(a) for a in args]
        vals = [v for v, a in zip(vals, args) if not (a['k'] == 'un' and a.get('op') == '~') and not (isinstance(v, int) and v >= (1 << 63))]
        if not vals: return View(None, 0, (0,) * r, (0,) * r)
        h = vals[0]
        if isinstance(h, View): return h
        if isinstance(h, Opaque) and h.what.startswith('scratch'):
            n = 1
            ext = [self.asint(x) for x in vals[1:1 + r]]
            for x in ext: n *= x
            mem = h.mem; mem.used += n; self.nscratch += 1
            if mem.used * 8 > mem.p.scratch: raise Violation('scratch', '%d doubles of team scratch used, %d requested' % (mem.used, mem.p.scratch // 8), self.where_)
            if getattr(h, 'shared', False):
                key = (mem.l, mem.used); tb = mem.p.__dict__.setdefault('teambufs', {})
                if key not in tb: b = self.newbuf(n, 'team scratch'); b.iter = None; tb[key] = b
                b = tb[key]
            else: b = self.newbuf(n, 'scratch')
            return self._contig(b, 0, ext, 'LayoutLeft' in c)
        if isinstance(h, Ptr):
            ext = [self.asint(x) for x in vals[1:1 + r]]
            if len(vals) > 1 and isinstance(vals[1], Opaque) and hasattr(vals[1], 'lay'):
                lay = vals[1].lay; return View(h.b, h.o, lay[0::2], lay[1::2])
            return self._contig(h.b, h.o, ext, 'LayoutLeft' in c)
        if isinstance(h, (str, Opaque)):
            ext = [self.asint(x) for x in vals[1:1 + r]]
            n = 1
            for x in ext: n *= x
            b = self.newbuf(n, str(h) if isinstance(h, str) else '', zero=None if isinstance(h, Opaque) and 'noinit' in h.what else (F.ZERO if 'double' in c.split(',')[0] else 0))
            return self._contig(b, 0, ext, 'LayoutLeft' in c)
        if isinstance(h, int):
            raise NoAnswer('view of extents')
        if h is None: return View(None, 0, (0,) * r, (0,) * r)
        raise NoAnswer('view from %r' % (h,))
    def _contig(self, b, off, ext, left=False):
        st = []; s = 1
        for x in (ext if left else reversed(ext)): st.append(s); s *= x
        if not left: st.reverse()
        return View(b, off, ext, st)
    def mkpolicy(self, cl, vals, e):
        vals = [v for v in vals if not isinstance(v, Opaque)]
        if 'MDRange' in cl: return Policy('md', tuple(self._ints(vals[0])), tuple(self._ints(vals[1])))
        if 'RangePolicy' in cl: return Policy('range', (vals[0],), (vals[1],)) if len(vals) >= 2 else Policy('range', (0,), (0,))
        if 'TeamPolicy' in cl:
            if not vals: return Policy('team')
            if isinstance(vals[0], Policy): return vals[0]
            return Policy('team', league=int(vals[0]), team=int(vals[1]) if isinstance(vals[1], int) else 1)
        raise NoAnswer('policy ' + cl)
    def _ints(self, x):
        if isinstance(x, list): return [int(y) for y in (x[0] if x and isinstance(x[0], list) else x)]
        raise NoAnswer('policy bounds')
    def invoke(self, f, args):
        if isinstance(f, Lam):
            n = f.node
            env = dict(f.env)
            for p, v in zip(n['ps'], args):
                self.bind(env, p, v)
            self.frames.append({'fn': f.fn, 'env': env, 'this': f.this, 'lam': True})
            try: self.stmt(n['body']); return None
            except _Ret as r: return r.v
            finally: self.frames.pop()
        if isinstance(f, Obj):
            fs = [g for g in self.db.methods(f.cls, 'operator()') if len(g.ps) == len(args) and not g.dep] or [g for g in self.db.methods(f.cls, 'operator()') if len(g.ps) == len(args)]
            fs = self.pick(fs, f)
            if not fs: raise NoAnswer('operator() of %s' % f.cls)
            return self.call_func(fs[0], f, args)
        raise NoAnswer('call of %r' % (f,))
    def pick(self, fs, o):
        if o.ty:
            x = [g for g in fs if g.d.get('clst') == o.ty]
            if x: return x
        return fs
    def parallel(self, short, args):
        args = [self.val(a) for a in args]
        if args and isinstance(args[0], str): args = args[1:]
        pol, f = args[0], args[1]
        if isinstance(pol, int): pol = Policy('range', (0,), (pol,))
        if not isinstance(pol, Policy): raise NoAnswer('policy %r' % (pol,))
        f0 = f
        its = []
        if pol.kind == 'range': its = [[i] for i in range(pol.lo[0], pol.hi[0])]
        elif pol.kind == 'md':
            its = [[]]
            for lo, hi in zip(pol.lo, pol.hi): its = [x + [i] for x in its for i in range(lo, hi)]
        else: its = [[Member(pol, l, r)] for l in range(pol.league) for r in range(pol.team)]
        if short == 'parallel_scan':
            acc = 0; cell = [0]
            for x in its: 
                if isinstance(f, Obj): self.invoke(f, x + [LV(cell, 0), True])
                else: self.invoke(f, x + [LV(cell, 0), True])
            return
        if short == 'parallel_reduce':
            cell = [F.ZERO]; tgt = args[2] if len(args) > 2 else None
            raise NoAnswer('parallel_reduce')
        outer = self.iterlog
        self.iterlog = {'w': {}, 'r': {}, 'name': {}, 'at': {}, 'i': 0, 'cur': None, 'own': set(), 'keep': []}
        try:
            for n, x in enumerate(its):
                self.iterlog['i'] = n; self.iterlog['cur'] = object()
                self.invoke(f, x)
            L = self.iterlog
        finally: self.iterlog = outer
        for k, ws in L['w'].items():
            if len(ws) > 1: self.races.append((L['at'][k], '%s is written by %d iterations' % (L['name'][k], len(ws))))
            elif L['r'].get(k, set()) - ws: self.races.append((L['at'][k], '%s is written by one iteration and read by another' % L['name'][k]))
    # ---- calls
    def x_call(self, e):
        r = self.call(e, False)
        return self.val(r) if isinstance(r, LV) else r
    def call(self, e, want):
        q = strip_targs(e.get('q', '') or ''); short = q.rsplit('::', 1)[-1]; a = e.get('a', [])
        if not e.get('q') and e.get('fn'):
            f = self.ex(e['fn']); return self.invoke(f, [self.ex(x) for x in a])
        obn = e.get('obj'); ob = None
        if obn is not None:
            ob = self.frames[-1]['this'] if obn['k'] == 'this' else self.loc(obn) if obn['k'] in ('ref', 'mem', 'sub', 'un', 'call', 'cond') else self.ex(obn)
            oblv = ob
            ob = self.val(ob)
            if isinstance(ob, Ptr) and isinstance(ob.b, CellBuf): ob = ob.b.get()
        if q == 'std::_Bit_reference::operator bool': return bool(ob)
        if e.get('opr') in ('->', '*') and not a and isinstance(ob, Obj) and 'ptr' in q: return ob
        key = (q if q in self.hooks else short if short in self.hooks else None)
        if key is not None:
            r = self.hooks[key](self, e, ob, a)
            if r is not NotImplemented: return r
        if isinstance(ob, Obj) and (ob.cls in self.opaque or ob.cls.rsplit('::', 1)[-1] in self.opaque):
            return self.opaque[ob.cls if ob.cls in self.opaque else ob.cls.rsplit('::', 1)[-1]](self, short, ob, a, e)
        if obn is None and '::' in q:
            cl = q.rsplit('::', 1)[0]
            k = cl if cl in self.opaque else cl.rsplit('::', 1)[-1] if cl.rsplit('::', 1)[-1] in self.opaque else None
            if k: return self.opaque[k](self, short, None, a, e)
        if obn is not None and isinstance(ob, (Lam,)) and (e.get('opr') == '()'):
            return self.invoke(ob, self.bindargs(ob.node['ps'], a))
        if isinstance(ob, Fn) and e.get('opr') == '()': return ob.f(self, [self.ex(x) for x in a])
        if q == 'std::function::operator()' and isinstance(ob, Obj): return self.invoke(ob, [self.loc(x) if x['k'] in ('ref', 'mem', 'sub', 'call') else self.ex(x) for x in a])
        if q == 'std::function::operator bool': return ob is not None
        if isinstance(ob, Assoc): return self.assoc_call(short, e.get('opr'), ob, a, e)
        if isinstance(ob, SIt) and e.get('opr'): return self.sit_call(e['opr'], ob, oblv, a, e)
        if isinstance(ob, View): return self.view_call(short, e.get('opr'), ob, oblv, a, e)
        if isinstance(ob, Vec): return self.vec_call(short, e.get('opr'), ob, a, e)
        if isinstance(ob, (Policy, Member)): return self.pol_call(short, ob, [self.ex(x) for x in a], e)
        if isinstance(ob, It) and e.get('opr'): return self.it_call(e, ob, oblv, a)
        if isinstance(ob, str) and ob is not ALL and e.get('opr') in ('=', '+=') and isinstance(oblv, LV):
            y = self.ex(a[0]); y = Str(y) if isinstance(y, str) else Str('')
            self.set(oblv, y if e['opr'] == '=' else Str(ob + y)); return oblv
        if e.get('opr') == '=' and isinstance(oblv if obn is not None else None, LV) and isinstance(ob, SObj) and 'ptr' in q: self.set(oblv, self.ex(a[0])); return oblv
        if e.get('opr') in ('==', '!=') and isinstance(ob, str) and a:
            y = self.ex(a[0])
            if isinstance(y, str): return (ob == y) == (e['opr'] == '==')
        if isinstance(ob, Opaque) and hasattr(ob, 'lvs') and e.get('opr') == '=':
            y = self.ex(a[0]); vs = [self.val(y.a), self.val(y.b)] if isinstance(y, Pair) else list(y)
            for l, x in zip(ob.lvs, vs): self.set(l, x)
            return ob
        if isinstance(ob, (Opaque, str)) and not q.startswith('mpart::'):
            return self.other_method(short, ob, a, e)
        fn = self.db.callee(e['u'], self.frames[-1]['fn'].tu if self.frames else None, e.get('iu')) if e.get('u') else None
        if fn is not None and isinstance(ob, Obj) and fn.d.get('virt') and not e.get('nonvirt'): fn = self.dispatch(fn, ob)
        if fn is not None and fn.body is not None and (q.startswith('mpart') or fn.file.startswith(('MParT', 'src')) or e.get('root')):
            this = ob if obn is not None else None
            if isinstance(this, Ptr): raise NoAnswer('call through pointer')
            return self.call_func(fn, this, self.bindargs(fn.ps, a))
        if isinstance(ob, Obj) and e.get('opr') == '=' and len(a) == 1:
            y = self.copyval(self.ex(a[0])); self.set(ob, y); return ob
        if obn is not None and ob is None and e.get('opr') == '=' and isinstance(oblv, LV): self.set(oblv, self.ex(a[0])); return oblv
        if e.get('u') and fn is None and isinstance(ob, Obj):
            fs = [g for g in self.db.methods(ob.cls, short) if len(g.ps) == len(a) and g.body is not None]
            if len(fs) == 1: return self.call_func(fs[0], ob, self.bindargs(fs[0].ps, a))
        if e.get('opr') and isinstance(oblv if obn is not None else None, LV) and e['opr'] == '=': 
            self.set(oblv, self.ex(a[0])); return oblv
        return self.lib(q, short, ob, a, e)
    def dispatch(self, fn, ob):
        cls = [ob.cls] + self.db.all_bases(ob.cls)
        seen = {fn.u}; cand = [fn]; todo = [fn.u]
        while todo:
            for g in self.db.overriders.get(todo.pop(), []):
                cand.append(g)
                if g.u not in seen: seen.add(g.u); todo.append(g.u)
        for c in cls:
            x = [g for g in cand if g.ccls == c]
            if x: return (self.pick(x, ob) or x)[0]
        return fn
    def view_call(self, short, opr, v, lv, a, e):
        if opr == '()' or opr == '[]':
            ix = [self.ex(x) for x in a]
            if v.buf is None: raise Violation('bounds', 'element of an unallocated view', self.where_)
            off = v.off
            for d, i in enumerate(ix):
                if not isinstance(i, int): raise NoAnswer('index %r' % (i,))
                i = int(i); self.nbounds += 1
                if not 0 <= i < v.ext[d]: raise Violation('bounds', 'index %d of extent %d in %s' % (i, v.ext[d], v.buf.name), self.where_)
                off += i * v.st[d]
            return LV(v.buf, off)
        if opr == '=':
            y = self.ex(a[0]); self.set(lv, y); return lv
        if short == 'extent' or short == 'extent_int': 
            k = self.ex(a[0]); return v.ext[k] if k < len(v.ext) else 1
        if short in ('size', 'span'):
            n = 1
            for x in v.ext: n *= x
            return n
        if short == 'data': return Ptr(v.buf, v.off) if v.buf is not None else None
        if short == 'is_allocated': return v.buf is not None
        if short in ('stride_0', 'stride_1', 'stride'): return v.st[int(short[-1]) if short[-1].isdigit() else self.ex(a[0])]
        if short == 'label': return Str('')
        if short == 'use_count': return 1
        if short.startswith('shmem_size') : return self.shmem(a)
        raise NoAnswer('view method ' + short)
    def shmem(self, a):
        n = 8
        for x in a:
            y = self.ex(x)
            if isinstance(y, int) and y < (1 << 62): n *= y
        return n
    def vec_call(self, short, opr, v, a, e):
        if opr == '[]' or short == 'at':
            i = self.ex(a[0])
            if short == 'at' and self.at_throws and not 0 <= i < len(v.v): raise Throw('out of range', self.w(e))
            return self.velem(v, i)
        if opr == '=': y = self.ex(a[0]); v.v[:] = self.copyval(y).v if isinstance(y, Vec) else y; v.ep += 1; return v
        if opr in ('==', '!='): raise NoAnswer('vector comparison')
        if short == 'size': return len(v.v)
        if short == 'empty': return not v.v
        if short == 'begin' or short == 'cbegin': return It(v, 0)
        if short == 'end' or short == 'cend': return It(v, len(v.v))
        if short == 'front': return self.velem(v, 0)
        if short == 'back': return self.velem(v, len(v.v) - 1)
        if short in ('push_back', 'emplace_back'):
            et = elt(ct(v.et or '')) if v.et else ''
            x = self.conv(self.ex(a[0]), et)
            if isinstance(x, SObj) and 'ptr' not in ct(a[0].get('t', '')): y = Obj(x.cls); y.ty = x.ty; y.f = {k: self.copyval(z) for k, z in x.f.items()}; x = y
            x = self.copyval(x); v.grow(); v.v.append(x); return self.velem(v, len(v.v) - 1) if short[0] == 'e' else None
        if short == 'reserve':
            n = self.ex(a[0])
            if isinstance(n, int) and n > v.cap: v.cap = n; v.ep += 1
            return None
        if short == 'resize':
            n = self.ex(a[0]); et = elt(ct(v.et or '')) if v.et else 'double'
            v.ep += 1; del v.v[n:]
            while len(v.v) < n: v.v.append(self.copyval(self.conv(self.ex(a[1]), et)) if len(a) > 1 and a[1]['k'] != 'dep' else (F.ZERO if isfloat(et) else 0 if isint(et) else self.default(et)))
            return None
        if short == 'data':
            b = Buf(len(v.v), 'vector'); b.d = ListDict(v.v); return Ptr(b)
        if short == 'clear': v.v.clear(); v.ep += 1; return None
        if short == 'pop_back': v.v.pop(); v.ep += 1; return None
        if short == 'insert' and len(a) == 2:
            p = self.ex(a[0]); x = self.ex(a[1]); v.v.insert(p.i, self.copyval(x)); v.ep += 1; return It(v, p.i)
        if short == 'insert' and len(a) == 3:
            p, x, y = [self.ex(z) for z in a]
            xs = [self.copyval(z) for z in x.c.v[x.i:y.i]] if isinstance(x, It) else [self.val(self.deref_s(x.c, k)) for k in self.srange(x, y)] if isinstance(x, SIt) else None
            if xs is None: raise NoAnswer('vector insert')
            v.v[p.i:p.i] = xs; v.ep += 1; return It(v, p.i)
        if short == 'erase':
            p = [self.ex(x) for x in a]; lo = p[0].i; hi = p[1].i if len(p) > 1 else lo + 1; self.nbounds += 1
            if not 0 <= lo <= hi <= len(v.v): raise Violation('bounds', 'erase of [%d,%d) of a vector of %d' % (lo, hi, len(v.v)), self.where_)
            del v.v[lo:hi]; v.ep += 1; return It(v, lo)
        if short == 'assign':
            p = [self.ex(x) for x in a]
            if isinstance(p[0], int) and len(p) == 2: v.v[:] = [self.copyval(p[1]) for _ in range(p[0])]; return None
            if isinstance(p[0], It): v.v[:] = [self.copyval(x) for x in p[0].c.v[p[0].i:p[1].i]]; return None
        if short == 'swap': y = self.ex(a[0]); v.v[:], y.v[:] = list(y.v), list(v.v); return None
        raise NoAnswer('vector method ' + short)
    # ---- std::set and std::map
    def s_key(self, x):
        x = self.val(x)
        if isinstance(x, Obj):
            m = self.opaque.get(x.cls) or self.opaque.get(x.cls.rsplit('::', 1)[-1])
            if m is not None and hasattr(m, 'key'): return m.key(self, x)
            raise NoAnswer('key %r' % (x,))
        if isinstance(x, (int, str)) and not isinstance(x, E): return x
        if isinstance(x, Vec): return tuple(self.s_key(y) for y in x.v)
        if isinstance(x, Pair): return (self.s_key(x.a), self.s_key(x.b))
        raise NoAnswer('key %r' % (x,))
    def deref_s(self, c, k):
        if k is None or k not in c.d: raise Violation('dangling', 'iterator at the end of the set or at an erased element', self.where_)
        x = c.keys[k]; x = x if inplace(x) else LV([x], 0)
        if not c.map: return x
        v = c.d[k]; return Pair(x, v if inplace(v) else LV(c.d, k))
    def s_put(self, s, x, over=False):
        x = self.val(x)
        if s.map:
            if isinstance(x, list): x = Pair(x[0] if isinstance(x[0], LV) or inplace(x[0]) else LV([x[0]], 0), x[1] if isinstance(x[1], LV) or inplace(x[1]) else LV([x[1]], 0))
            if not isinstance(x, Pair): raise NoAnswer('map entry %r' % (x,))
            kv, vv = self.val(x.a), self.copyval(self.val(x.b))
        else: kv, vv = x, True
        if isinstance(kv, int) and s.t: kv = self.conv(kv, re.split(r'[<,>]', s.t)[1].strip())
        k = self.s_key(kv)
        if k in s.d:
            if over: s.d[k] = vv
            return k, False
        s.d[k] = vv; s.keys[k] = self.copyval(kv); s.k = None
        return k, True
    def srange(self, x, y):
        out = []; k = x.k
        while k is not None and k != y.k: out.append(k); k = x.c.nxt(k)
        return out
    def assoc_call(self, short, opr, s, a, e):
        if opr == '=':
            y = self.ex(a[0])
            if isinstance(y, list): z = Assoc(s.map, s.t); [self.s_put(z, x) for x in y]; y = z
            self.set(s, self.copyval(y)); return s
        if opr in ('==', '!='):
            y = self.ex(a[0]); return (sorted(s.d) == sorted(y.d)) == (opr == '==')
        if opr == '[]' or short == 'at':
            x = self.val(self.ex(a[0])); k = self.s_key(x)
            if k not in s.d:
                if opr != '[]': raise Throw('out of range', self.w(e))
                t = ct(e.get('t', '')).rstrip('& '); s.d[k] = 0 if isint(t) else self.default(t); s.keys[k] = self.copyval(x); s.k = None
            v = s.d[k]; return v if inplace(v) else LV(s.d, k)
        if short in ('insert', 'emplace', 'insert_or_assign', 'try_emplace', 'emplace_hint'):
            vs = [self.ex(x) for x in a]
            if vs and isinstance(vs[0], SIt) and len(vs) == 2 and isinstance(vs[1], SIt):
                for k in self.srange(vs[0], vs[1]): self.s_put(s, self.deref_s(vs[0].c, k))
                return None
            if vs and isinstance(vs[0], It) and len(vs) == 2:
                for x in vs[0].c.v[vs[0].i:vs[1].i]: self.s_put(s, x)
                return None
            if vs and isinstance(vs[0], SIt): vs = vs[1:]
            if s.map and len(vs) == 2: vs = [Pair(*[z if isinstance(z, LV) or inplace(z) else LV([z], 0) for z in vs])]
            if len(vs) != 1: raise NoAnswer(short)
            if isinstance(vs[0], list) and not s.map:
                for x in vs[0]: self.s_put(s, x)
                return None
            k, new = self.s_put(s, vs[0], short == 'insert_or_assign')
            return Pair(LV([SIt(s, k)], 0), LV([new], 0))
        if short in ('find', 'count', 'contains', 'lower_bound', 'upper_bound'):
            k = self.s_key(self.ex(a[0]))
            if short == 'find': return SIt(s, k if k in s.d else None)
            if short == 'lower_bound': return SIt(s, k if k in s.d else s.nxt(k))
            if short == 'upper_bound': return SIt(s, s.nxt(k))
            return (k in s.d) if short == 'contains' else int(k in s.d)
        if short == 'erase':
            x = self.ex(a[0])
            if isinstance(x, SIt):
                if x.k not in s.d: raise Violation('dangling', 'erase of an element that is not there', self.where_)
                n = s.nxt(x.k); del s.d[x.k], s.keys[x.k]; s.k = None; return SIt(s, n)
            k = self.s_key(x)
            if k in s.d: del s.d[k], s.keys[k]; s.k = None; return 1
            return 0
        if short == 'size': return len(s.d)
        if short == 'empty': return not s.d
        if short == 'clear': s.d.clear(); s.keys.clear(); s.k = None; return None
        if short in ('begin', 'cbegin'): return SIt(s, next(iter(s.order()), None))
        if short in ('end', 'cend'): return SIt(s, None)
        if short == 'swap': y = self.ex(a[0]); s.d, y.d, s.keys, y.keys = y.d, s.d, y.keys, s.keys; s.k = y.k = None; return None
        raise NoAnswer('set method ' + short)
    def sit_call(self, o, it, lv, a, e):
        if o in ('*', '->') : return self.deref_s(it.c, it.k)
        if o == '=': self.set(lv, self.ex(a[0])); return lv
        if o == '++':
            if it.k is None or it.k not in it.c.d: raise Violation('dangling', 'iterator advanced past the end or from an erased element', self.where_)
            n = SIt(it.c, it.c.nxt(it.k)); self.set(lv, n); return it if a else n
        if o in ('==', '!='): y = self.val(self.ex(a[0])); return (it.k == y.k) == (o == '==')
        raise NoAnswer('set iterator ' + o)
    def it_call(self, e, it, lv, a):
        o = e['opr']
        if o == '*': return self.velem(it.c, it.i)
        if o == '=': y = self.ex(a[0]); self.set(lv, It(y.c, y.i)); return lv
        if o == '+=': self.set(lv, It(it.c, it.i + self.ex(a[0]))); return lv
        if o in ('++', '--'):
            n = It(it.c, it.i + (1 if o == '++' else -1)); self.set(lv, n); return it if a else n
        if o in ('==', '!=', '<', '-', '+'): return self.binop(o, it, self.ex(a[0]), e)
        raise NoAnswer('iterator ' + o)
    def pol_call(self, short, p, vals, e):
        if short == 'operator=' and vals and isinstance(vals[0], type(p)): p.__dict__.update(vals[0].__dict__); return p
        if isinstance(p, Member):
            if short == 'league_rank': return p.l
            if short == 'team_rank': return p.r
            if short == 'team_size': return p.p.team
            if short == 'league_size': return p.p.league
            if short in ('thread_scratch', 'team_scratch'): o = Opaque('scratch'); o.mem = p; o.shared = short == 'team_scratch'; return o
            if short == 'team_barrier': return None
        else:
            if short == 'set_scratch_size':
                for v in vals[1:]:
                    if isinstance(v, tuple) and v[0] == 'PerThread': p.scratch = v[1]
                return p
            if short == 'team_size_recommended': return self.team
            if short == 'team_size_max': return self.team
            if short == 'league_size': return p.league
            if short == 'team_size': return p.team
        raise NoAnswer('policy method ' + short)
    def other_method(self, short, ob, a, e):
        if short == 'c_str' and isinstance(ob, str): return ob
        if short in ('str', 'c_str', 'operator<<', 'what'): return Str('')
        if ob is ALL and e.get('opr') == '()': return ALL
        if e.get('opr') in ('<<', '+', '+=', '='):
            return ob
        if short in ('size', 'length') and isinstance(ob, str): return len(ob)
        if isinstance(ob, Opaque) and short == 'count': return 0
        raise NoAnswer('method %s of %r' % (short, ob))
    def lib(self, q, short, ob, a, e):
        if short in ('operator==', 'operator!=', 'operator<', 'operator>', 'operator<=', 'operator>=', 'operator-') and len(a) == 2:
            x, y = self.val(self.ex(a[0])), self.val(self.ex(a[1]))
            if isinstance(x, str) and isinstance(y, str) and short in ('operator==', 'operator!='): return (x == y) == (short == 'operator==')
            if isinstance(x, SIt) and isinstance(y, SIt) and short in ('operator==', 'operator!='): return (x.k == y.k) == (short == 'operator==')
            if isinstance(x, It) or isinstance(y, It) or isinstance(x, Vec): return self.binop(short[8:], x, y, e)
        if short in ('parallel_for', 'parallel_scan', 'parallel_reduce'): return self.parallel(short, [self.ex(x) for x in a])
        if short == 'fence': return None
        if short.startswith('atomic_') and short[7:] in ('max', 'min', 'add', 'sub', 'fetch_add', 'inc', 'increment', 'store', 'fetch_max', 'fetch_min', 'assign'):
            p = self.ex(a[0]); v = self.ex(a[1]) if len(a) > 1 else 1; op = short.rsplit('_', 1)[-1]
            if not isinstance(p, Ptr): raise NoAnswer(short)
            lv = p.b.at(p.o, self) if isinstance(p.b, CellBuf) else LV(p.b, p.o)
            sv, self.iterlog = self.iterlog, None
            try:
                old = self.get(lv); num = isinstance(old, int) and isinstance(v, int) and not isinstance(old, E) and not isinstance(v, E)
                if op in ('store', 'assign'): new = v
                elif op in ('add', 'inc', 'increment', 'sub'): new = self.binop('-' if op == 'sub' else '+', old, v, {'t': a[1].get('t', 'int') if len(a) > 1 else 'int', 'x': {}, 'y': {}})
                elif num: new = (max if op == 'max' else min)(old, v)
                else: new = E('f' + op, self.real(old), self.real(v))
                self.set(lv, new)
            finally: self.iterlog = sv
            return old if 'fetch' in short else None
        if short == 'subview':
            v = self.ex(a[0]); sl = [self.ex(x) for x in a[1:]]
            if not isinstance(v, View): raise NoAnswer('subview of %r' % (v,))
            off = v.off; ext = []; st = []
            for d, s in enumerate(sl):
                if s is ALL or isinstance(s, str): ext.append(v.ext[d]); st.append(v.st[d])
                elif isinstance(s, Pair):
                    lo, hi = int(self.val(s.a)), int(self.val(s.b))
                    if not 0 <= lo <= hi <= v.ext[d]: raise Violation('bounds', 'subview [%d,%d) of extent %d' % (lo, hi, v.ext[d]), self.where_)
                    off += lo * v.st[d]; ext.append(hi - lo); st.append(v.st[d])
                elif isinstance(s, int):
                    if not 0 <= s < v.ext[d]: raise Violation('bounds', 'subview %d of extent %d' % (s, v.ext[d]), self.where_)
                    off += s * v.st[d]
                else: raise NoAnswer('subview argument %r' % (s,))
            return View(v.buf, off, ext, st)
        if short == 'deep_copy':
            x = self.ex(a[0]); y = self.ex(a[1])
            if not isinstance(x, View): raise NoAnswer('deep_copy')
            if isinstance(y, View):
                if x.ext != y.ext: raise Violation('bounds', 'deep_copy of %s into %s' % (y.ext, x.ext), self.where_)
                vals = [self.get(LV(y.buf, o)) for o in self.offsets(y)]
                for o, v in zip(self.offsets(x), vals): self.set(LV(x.buf, o), v)
            else:
                for o in self.offsets(x): self.set(LV(x.buf, o), self.conv(y, 'double') if isinstance(y, (int, E)) else y)
            return None
        if short in ('make_pair', 'pair'): vs = [self.ex(x) for x in a]; return Pair(LV([vs[0]], 0), LV([vs[1]], 0))
        if short == 'ALL': return ALL
        if short in ('PerThread', 'PerTeam'): return (short, self.ex(a[0]))
        if short == 'shmem_size': return self.shmem(a)
        if short == 'tie': o = Opaque('tie'); o.lvs = [self.loc(x) for x in a]; return o
        if short in ('make_tuple',): return [self.ex(x) for x in a]
        if short == 'back_inserter': o = Opaque('back inserter'); o.back = self.ex(a[0]); return o
        if short == 'LayoutStride':
            o = Opaque('layout'); o.lay = [self.ex(x) for x in a]; return o
        if short == 'create_mirror_view': return self.ex(a[-1])
        if short == 'create_mirror':
            v = self.ex(a[-1]); n = 1
            for x in v.ext: n *= x
            return self._contig(self.newbuf(n, 'mirror', v.buf.zero if v.buf is not None else None), 0, v.ext)
        if short == 'view_alloc' or short == 'ViewAllocateWithoutInitializing': return Opaque('noinit')
        if short in ('ToHost', 'create_mirror_view_and_copy', 'move', 'forward', 'ref', 'get'):
            v = self.ex(a[-1] if short == 'create_mirror_view_and_copy' else a[0]) if a else ob
            return v
        if short in ('operator->', 'operator*') or e.get('opr') in ('->',): return ob if ob is not None else self.ex(a[0])
        if short in MATH or short in ('abs', 'pow', 'fmax', 'fmin', 'max', 'min', 'ceil', 'floor', 'isinf', 'isnan', 'isfinite', 'log2', 'log1p', 'expm1', 'swap', 'round', 'log10'):
            if short == 'swap':
                x, y = self.loc(a[0]), self.loc(a[1]); vx, vy = self.val(x), self.val(y); self.set(x, vy); self.set(y, vx); return None
            vs = [self.ex(x) for x in a if not (isinstance(x, dict) and x.get('k') == 'dep')]
            if short in ('max', 'min'):
                if len(vs) == 1 and isinstance(vs[0], list): vs = vs[0]
                if all(isinstance(v, int) and not isinstance(v, E) for v in vs): return (max if short == 'max' else min)(vs)
                r = vs[0]
                for v in vs[1:]: r = E('f' + short, self.real(r), self.real(v))
                return r
            if short in ('isinf', 'isnan'): return bool(self.fail_on and self.fail_on(short, vs[0]))
            if short == 'isfinite': return True
            if short == 'abs' and isinstance(vs[0], int) and not isinstance(vs[0], E): return abs(vs[0])
            r = [self.real(v) for v in vs]
            if short in MATH: return F.f1(MATH[short], r[0])
            if short == 'abs': return F.f1('abs', r[0])
            if short == 'pow': return F.power(r[0], r[1])
            if short in ('fmax', 'fmin'): return E(short, r[0], r[1])
            if short == 'log1p': return F.f1('log', F.add(F.ONE, r[0]))
            if short == 'expm1': return F.sub(F.f1('exp', r[0]), F.ONE)
            if short == 'log2': return F.div(F.f1('log', r[0]), F.f1('log', K(2)))
            if short in ('ceil', 'floor', 'round') and r[0].op == 'k':
                import math
                x = r[0].a[0]; return K({'ceil': math.ceil, 'floor': math.floor, 'round': lambda z: math.floor(z + K(1).a[0] / 2)}[short](x))
            raise NoAnswer('%s of %s' % (short, F.sh(r[0])))
        if 'numeric_limits' in (e.get('q') or ''):
            if short in ('quiet_NaN', 'signaling_NaN'): return E('nan')
            if short == 'infinity': return E('inf')
            if short == 'epsilon': return K('2.220446049250313e-16')
            if short == 'max' : return (1 << 31) - 1
        if short in ('printf', 'fprintf', 'operator<<', 'endl'):
            for x in a:
                if x.get('k') in ('asg', 'un') and x.get('op') in ('++', '--'): self.ex(x)
            return Opaque('io')
        if short in ('make_shared', 'make_unique'):
            t = ct(e.get('t', '')); m = re.match(r'std::(?:shared|unique)_ptr<(.*)>$', t)
            cl = strip_targs(m.group(1)) if m else ''
            fs = [f for f in self.db.methods(cl) if f.d.get('isctor') and len(f.ps) >= len(a) and all('dv' in p for p in f.ps[len(a):])]
            if len(fs) != 1: raise NoAnswer('make_shared<%s>' % cl)
            o = (SObj if self.sobj else Obj)(cl); o.ty = m.group(1); self.run_ctor(fs[0], o, self.bindargs(fs[0].ps, a), m.group(1)); return o
        if q == 'mpart::ProcAgnosticError::error' or short == 'error' and 'ProcAgnostic' in (e.get('q') or ''): raise Throw('error', self.w(e))
        if short in ('abort', '__assert_fail', 'terminate', 'exit'): raise Throw(short, self.w(e))
        if short in ('find', 'lower_bound', 'sort', 'accumulate', 'fill', 'copy', 'iota', 'max_element', 'min_element', 'find_if', 'find_if_not', 'any_of', 'all_of', 'none_of', 'count', 'count_if', 'remove_if', 'remove', 'for_each', 'distance', 'upper_bound', 'binary_search', 'stable_sort', 'transform', 'copy_if', 'next', 'advance', 'equal'):
            return self.algo(short, a, e)
        raise NoAnswer('call %s at %s' % (q or e.get('n', '?'), self.w(e)))
    def algo(self, short, a, e):
        vs = [self.ex(x) for x in a]
        sit = None
        if len(vs) >= 2 and isinstance(vs[0], SIt) and isinstance(vs[1], SIt):
            sit = vs[0].c; ks = self.srange(vs[0], vs[1]) + [vs[1].k]; tv = Vec([self.val(self.deref_s(sit, k)) for k in ks[:-1]]); vs[0] = It(tv, 0); vs[1] = It(tv, len(tv.v))
        r = self._algo(short, vs, a, e)
        return SIt(sit, ks[r.i]) if sit is not None and isinstance(r, It) and r.c is tv else r
    def _algo(self, short, vs, a, e):
        if short == 'distance': return vs[1].i - vs[0].i if isinstance(vs[0], It) else vs[1].o - vs[0].o
        if short in ('sort', 'stable_sort') and len(vs) == 2 and isinstance(vs[0], It):
            c = vs[0].c; c.v[vs[0].i:vs[1].i] = sorted(c.v[vs[0].i:vs[1].i], key=self.s_key); return None
        if short in ('lower_bound', 'upper_bound', 'binary_search') and isinstance(vs[0], It) and len(vs) == 3:
            ks = [self.s_key(x) for x in vs[0].c.v[vs[0].i:vs[1].i]]; k = self.s_key(vs[2])
            if ks != sorted(ks): raise Violation('order', short + ' on an unsorted range', self.where_)
            n = vs[0].i + sum(1 for x in ks if (x <= k if short[0] == 'u' else x < k))
            return k in ks if short[0] == 'b' else It(vs[0].c, n)
        if short == 'accumulate' and isinstance(vs[0], It):
            r = vs[2]
            for i in range(vs[0].i, vs[1].i): r = self.val(self.invoke(vs[3], [r, vs[0].c.v[i]])) if len(vs) > 3 else self.binop('+', r, vs[0].c.v[i], {'t': a[2].get('t', 'int'), 'x': {}, 'y': {}})
            return r
        if short == 'fill' and isinstance(vs[0], It):
            for i in range(vs[0].i, vs[1].i): vs[0].c.v[i] = vs[2]
            return None
        if short == 'fill' and isinstance(vs[0], Ptr):
            for i in range(vs[0].o, vs[1].o): self.set(LV(vs[0].b, i), self.conv(vs[2], 'double') if isinstance(vs[2], (int,)) else vs[2])
            return None
        if short in ('max_element', 'min_element') and isinstance(vs[0], It):
            xs = vs[0].c.v[vs[0].i:vs[1].i]; return It(vs[0].c, vs[0].i + xs.index((max if short[1] == 'a' else min)(xs)))
        if len(vs) >= 2 and isinstance(vs[0], (It, Ptr)) and type(vs[1]) is type(vs[0]):
            n = (vs[1].i - vs[0].i) if isinstance(vs[0], It) else (vs[1].o - vs[0].o)
            def cell(p, k):
                if isinstance(p, It):
                    self.nbounds += 1
                    if not 0 <= p.i + k < len(p.c.v): raise Violation('bounds', 'element %d of a vector of %d' % (p.i + k, len(p.c.v)), self.where_)
                    return LV(p.c.v, p.i + k)
                return deref(p, k, self)
            rd = lambda p, k: self.val(cell(p, k))
            at = lambda k: It(vs[0].c, vs[0].i + k) if isinstance(vs[0], It) else Ptr(vs[0].b, vs[0].o + k)
            if short == 'copy':
                for k in range(n): self.set(cell(vs[2], k), self.copyval(rd(vs[0], k)))
                return It(vs[2].c, vs[2].i + n) if isinstance(vs[2], It) else Ptr(vs[2].b, vs[2].o + n)
            if short in ('find', 'find_if', 'find_if_not', 'any_of', 'all_of', 'none_of', 'count', 'count_if', 'remove_if', 'remove'):
                if short in ('find', 'count', 'remove'): p = lambda x: self.truth(self.binop('==', x, vs[2], {'t': 'bool', 'x': {}, 'y': {}}))
                else: p = lambda x: self.truth(self.val(self.invoke(vs[2], [x])))
                m = [p(rd(vs[0], k)) for k in range(n)]
                if short in ('find', 'find_if'): return at(m.index(True) if True in m else n)
                if short == 'find_if_not': return at(m.index(False) if False in m else n)
                if short == 'any_of': return any(m)
                if short == 'all_of': return all(m)
                if short == 'none_of': return not any(m)
                if short in ('count', 'count_if'): return sum(m)
                keep = [rd(vs[0], k) for k in range(n) if not m[k]]
                for k, x in enumerate(keep): self.set(cell(vs[0], k), x)
                return at(len(keep))
            if short in ('transform', 'copy_if') and isinstance(vs[2], (It, Opaque)):
                out = []
                for k in range(n):
                    x = cell(vs[0], k)
                    if short == 'transform' and len(vs) == 4: out.append(self.copyval(self.val(self.invoke(vs[3], [x]))))
                    elif short == 'copy_if':
                        if self.truth(self.val(self.invoke(vs[3], [x]))): out.append(self.copyval(self.val(x)))
                    else: raise NoAnswer(short)
                if isinstance(vs[2], Opaque):
                    if not hasattr(vs[2], 'back'): raise NoAnswer(short)
                    vs[2].back.v.extend(out); vs[2].back.ep += 1; return vs[2]
                for k, x in enumerate(out): self.set(cell(vs[2], k), x)
                return It(vs[2].c, vs[2].i + len(out))
            if short == 'equal' and len(vs) == 4 and not isinstance(vs[3], It):
                return all(self.truth(self.val(self.invoke(vs[3], [cell(vs[0], k), cell(vs[2], k)]))) for k in range(n))
            if short == 'equal' and len(vs) == 4:
                if vs[3].i - vs[2].i != n: return False
                vs = vs[:3]
            if short == 'equal' and len(vs) == 3:
                return all(self.truth(self.binop('==', rd(vs[0], k), rd(vs[2], k), {'t': 'bool', 'x': {}, 'y': {}})) for k in range(n))
            if short == 'for_each':
                for k in range(n): self.invoke(vs[2], [cell(vs[0], k)])
                return vs[2]
        raise NoAnswer('algorithm ' + short)
    def offsets(self, v):
        out = [v.off]
        for n, s in zip(v.ext, v.st): out = [o + i * s for o in out for i in range(n)]
        return out

def deref(p, k, it):
    """the k-th cell after pointer p"""
    if not isinstance(p, Ptr): raise NoAnswer('pointer %r' % (p,))
    return p.b.at(p.o + k, it) if isinstance(p.b, CellBuf) else LV(p.b, p.o + k)
class CellBuf:
    """pointer to one variable"""
    def __init__(s, c, k): s.c = c; s.k = k; s.name = 'variable'; s.n = 1; s.freed = False
    def get(s): return s.c[s.k]
    def at(s, o, it):
        it.nbounds += 1
        if o != 0: raise Violation('bounds', 'index %d from the address of one variable' % o, it.where_)
        return LV(s.c, s.k)
class ListDict:
    """dict interface on a list (vector storage)"""
    def __init__(s, l): s.l = l
    def get(s, k): return s.l[k]
    def __setitem__(s, k, v): s.l[k] = v

def symview(name, *ext, left=True, const=None):
    """a view of distinct atoms name[i,j]"""
    n = 1
    for x in ext: n *= x
    b = Buf(n, name); st = []; s = 1
    for x in (ext if left else reversed(ext)): st.append(s); s *= x
    if not left: st.reverse()
    v = View(b, 0, ext, st)
    def rec(ix):
        if len(ix) == len(ext):
            b.d[sum(i * t for i, t in zip(ix, st))] = F.A('%s[%s]' % (name, ','.join(map(str, ix)))); return
        for i in range(ext[len(ix)]): rec(ix + (i,))
    rec(())
    return v
def staleview(name, *ext, left=True):
    n = 1
    for x in ext: n *= x
    b = Buf(n, name); st = []; s = 1
    for x in (ext if left else reversed(ext)): st.append(s); s *= x
    if not left: st.reverse()
    return View(b, 0, ext, st)
def elem(v, *ix):
    o = v.off + sum(i * s for i, s in zip(ix, v.st)); return v.buf.d.get(o)
