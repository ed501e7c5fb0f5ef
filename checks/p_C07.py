"""C07: parallel kernels: iterations touch disjoint data, reducers combine partial results, generator states are exclusive."""
import importlib, itertools, os
from harness import Check
from db import DB, REPO, VERIF, CheckError, strip_targs, walk, src_tus
from vf import VF, T, Term, INT, subterms, show, is_all
from formal import A, K, E, ONE, ZERO, Models, NoAnswer, Undefined
import absint
from util import ceval, truthy, NoVal
from absint import Interp, Obj, Buf, Ptr, View, LV, Violation, Throw
RULE = ("Footprint analysis of every Kokkos launch. For flat launches the writes and reads of the kernel (callees inlined) are value-flow locations: a location outside the iteration must be indexed by every iteration index, injectively, and may not be read by another iteration; generator states are drawn, used and "
        "given back inside the iteration; reduction variables are only added to, and init/join of a reducer zero and add every entry. Team launches and workers are interpreted for small sizes with every memory word logged per iteration: no word written by one iteration is touched by another, and a scan writes nothing in its first pass.")
KN = ('parallel_for', 'parallel_reduce', 'parallel_scan')
def launches(f): return [x for x in walk(f.body) if x.get('k') == 'call' and strip_targs(x.get('q') or '').startswith('Kokkos::') and strip_targs(x['q']).rsplit('::', 1)[-1] in KN]
def team_only(f, call):
    """the launch runs over a team policy: interpreted instead"""
    return any('TeamPolicy' in (a.get('t') or '') for a in call.get('a', []))
def uncopy(t):
    while t.op in ('copy', 'cast') and t.a and isinstance(t.a[-1 if t.op == 'cast' else 0], Term): t = t.a[-1 if t.op == 'cast' else 0]
    return t
ALL = T('ALL')
def chain(loc):
    """(root, coordinates) of a location; a coordinate ALL is the whole extent"""
    t = uncopy(loc)
    if t.op == 'idx':
        r, co = chain(t.a[0]); ix = [uncopy(x) for x in t.a[1:]]
        if co is None: return r, ix
        out = []
        for c in co:
            if is_all(c) and ix: out.append(ix.pop(0))
            elif c.op == 'from' and ix: x = ix.pop(0); out.append(T('+', x, c.a[0]))
            else: out.append(c)
        return r, out + ix
    if t.op == 'subview':
        r, co = chain(t.a[0]); sl = []
        for s in t.a[1:]:
            s = uncopy(s)
            if is_all(s): sl.append(ALL)
            elif s.op == 'pair': sl.append(T('from', s.a[0], s.a[1]))
            elif s.op == 'obj' and 'pair' in str(s.a[0]): 
                aa = [x for x in s.a[1:] if isinstance(x, Term)]; sl.append(T('from', *aa[:2]) if len(aa) >= 2 else T('range?', s))
            else: sl.append(s)
        if co is None: return r, sl
        out = []
        for c in co:
            if is_all(c) and sl: out.append(sl.pop(0))
            elif c.op == 'from' and sl: x = sl.pop(0); out.append(T('from', T('+', x.a[0], c.a[0]), x.a[1]) if x.op == 'from' else c if is_all(x) else T('+', x, c.a[0]))
            else: out.append(c)
        return r, out + sl
    if t.op == 'padd': r, co = chain(t.a[0]); return r, (co or []) + [t.a[1]]
    if t.op in ('data', 'addr', '&', 'deref') and t.a and isinstance(t.a[-1], Term): return chain(t.a[-1])
    return t, None

class Kernel:
    def __init__(s, v, ev):
        s.v = v; s.ev = ev; s.L = ev.loop; s.id = s.L.id
        fun = ev.functor; ps = None
        if fun in v.lams: ps = v.lams[fun][0]['ps']
        else:
            c = v.objcls.get(fun); fs = [f for f in v.db.methods(c, 'operator()')] if c else []
            if fs: ps = fs[0].ps
        s.ps = ps or []
        s.team = any('Team' in p['t'] or 'member_type' in p['t'] for p in s.ps)
        n = len(s.ps) - (1 if ev.kind == 'parallel_reduce' else 2 if ev.kind == 'parallel_scan' else 0)
        s.dims = [T('lidx', s.id, j) if j else T('lidx', s.id) for j in range(max(1, n))]
        s.events = [e for e in v.events if s.id in e.loops]
        s.own = set()
        for e in s.events:
            if e.k == 'decl':
                s.own.add(e.var)
                x = e.val
                if x is not None and x.op in ('uninit', 'obj', 'lphi') : s.own.add(x)
            elif e.k in ('ctor', 'new'): s.own.add(e.d.get('obj') or e.d.get('val'))
        s.written = {}
    def dep(s, t):
        """'no', 'yes' or '?': does the term vary over the iterations"""
        r = 'no'
        for x in subterms(t):
            if x.op == 'lidx' and x.a[0] == s.id: return 'yes'
            if x.op == 'lidx' and s.inner(x.a[0]): r = r if r == '?' else 'inner'
            elif x.op in ('lphi', 'post', 'uninit', 'call', 'atomic', 'redvar', 'reduced', 'mut') or x in s.own and x.op != 'lidx': r = '?'
        return r
    def inner(s, lid):
        for e in s.events:
            if lid in e.loops: return e.loops.index(lid) > e.loops.index(s.id)
        return False
    def dims_of(s, t): return [d for d in range(len(s.dims)) if any(x is s.dims[d] for x in subterms(t))]
    def inj(s, t, d):
        """'yes' if the coordinate determines the iteration index of dimension d, 'no' if it cannot, '?'"""
        t = uncopy(t); x = s.dims[d]
        if t is x: return 'yes'
        if t.op == 'from': return s.inj(t.a[0], d)
        if t.op in ('+', '-') and len(t.a) == 2:
            a, b = t.a
            ia, ib = d in s.dims_of(a), d in s.dims_of(b)
            if ia and ib: return '?'
            o = b if ia else a
            if s.dims_of(o) or s.dep(o) not in ('no',): return '?'
            return s.inj(a if ia else b, d)
        if t.op == '*' and len(t.a) == 2:
            for a, b in (t.a, t.a[::-1]):
                if b.op == 'int' and b.a[0] != 0 and d in s.dims_of(a): return s.inj(a, d)
            return '?'
        if t.op in ('%', '/') and len(t.a) == 2 and d in s.dims_of(t.a[0]) and not s.dims_of(t.a[1]):
            if t.op == '/' and t.a[1].op == 'int' and t.a[1].a[0] == 1: return s.inj(t.a[0], d)
            return 'no'
        return '?'
    def single(s, d):
        from util import lidx_range
        try: r = lidx_range(s.v, s.dims[d])
        except Exception: r = None
        if r is None: return False
        lo, hi = r[0], r[1]
        while isinstance(lo, Term) and lo.op == 'copy': lo = lo.a[0]
        while isinstance(hi, Term) and hi.op == 'copy': hi = hi.a[0]
        return isinstance(lo, Term) and isinstance(hi, Term) and lo.op == hi.op == 'int' and hi.a[0] - lo.a[0] <= 1
    def guarded(s, e):
        """is the event restricted to some iterations by a condition on the iteration index"""
        return any(isinstance(g[0], Term) and s.dims_of(g[0]) for g in e.guards)
    def private(s, root): return root.op in ('redvar',) or root in s.own or root.op == 'uninit'

def concrete(k, writes, reads):
    """enumerates small iteration spaces: 'ok', (event, text, 'w' or 'r') for a word written twice or read elsewhere, or None if an index or guard is not an expression of the loop indices"""
    ids = {}
    def leaves(t):
        for x in subterms(t):
            if x.op == 'lidx' and x.a[0] != k.id: ids[x] = None
    for e, r, co in writes + reads:
        if co is None: return None
        for t in co: leaves(t)
        for g, p in e.guards: leaves(g)
    from util import lidx_range
    n = 5 if len(k.dims) == 1 else 4
    touched = {'w': {}, 'r': {}}
    for it in itertools.product(range(n), repeat=len(k.dims)):
        base = dict(zip(k.dims, it))
        for kind, evs in (('w', writes), ('r', reads)):
            for e, r, co in evs:
                inner = sorted({x for t in list(co) + [g for g, p in e.guards] for x in subterms(t) if x.op == 'lidx' and x.a[0] != k.id}, key=lambda x: (e.loops.index(x.a[0]) if x.a[0] in e.loops else -1))
                outer = [x for x in inner if x.a[0] not in e.loops or e.loops.index(x.a[0]) < e.loops.index(k.id)]
                inner = [x for x in inner if x not in outer]
                env = dict(base); env.update({x: 1 for x in outer})
                def rec(i):
                    if i == len(inner):
                        for g, p in e.guards:
                            try: v = truthy(ceval(g, env.get))
                            except NoVal:
                                if k.dims_of(g) or any(x in inner for x in subterms(g)): return False
                                continue
                            if v != p: return True
                        try: key = tuple(('all' if is_all(t) or t.op == 'ALL' else ceval(t, env.get)) for t in co)
                        except NoVal: return False
                        if any(isinstance(y, Term) for y in key): return False
                        if any(y != 'all' and y < 0 for y in key): return True
                        touched[kind].setdefault(key, {}).setdefault(it, e)
                        return True
                    x = inner[i]; R = lidx_range(k.v, x); rg = None
                    if R is not None:
                        try: lo, hi, st = ceval(R[0], env.get), ceval(R[1], env.get), R[2]; rg = range(lo, min(hi, lo + 5), st if isinstance(st, int) else ceval(st, env.get))
                        except (NoVal, TypeError): rg = None
                    if rg is None:
                        if any(x in subterms(t) and k.dims_of(t) for t in co): return False
                        rg = range(2)
                    for y in rg:
                        env[x] = y
                        if not rec(i + 1): return False
                    env.pop(x, None)
                    return True
                if not rec(0): return None
    for key, its in touched['w'].items():
        if len(its) > 1:
            e = list(its.values())[-1]; return (e, 'iterations %s write %s' % (' and '.join(map(str, sorted(its)[:2])), show(e.loc)[:60]), 'w')
    for key, its in touched['r'].items():
        w = touched['w'].get(key)
        if w and set(its) - set(w): e = list(its.values())[0]; return (e, 'iteration %s reads what iteration %s writes' % (sorted(set(its) - set(w))[0], sorted(w)[0]), 'r')
    return 'ok'
deferred = []   # undecided by value flow: decided by interpretation where the launch site is interpreted
def kernel(c, f, k):
    R1, R2 = 'no two iterations write the same word', 'no iteration reads what another writes'
    who = f.cq.replace('mpart::', '')
    acc = {}
    for e in k.events:
        if e.k == 'write':
            if e.d.get('atomic'): c.count('atomic updates'); continue
            root, co = chain(e.loc)
            if e.loc.op == 'ite' or root.op == 'ite':
                roots = [x for x in subterms(root) if x.op in ('param', 'obj', 'var', 'fld')]
            if k.private(root): c.count('private writes'); continue
            if root.op == 'var' and co is None and e.loc not in k.own and e.loc.op == 'var':
                pass
            acc.setdefault(show(root)[:60], []).append((e, root, co))
    for name, l in sorted(acc.items()):
        verdict = 'ok'; why = ''; at = l[0][0]
        inj_pos = None
        for e, root, co in l:
            if k.guarded(e): verdict = verdict if verdict == 'bad' else '?'; why = why or 'write under a condition on the iteration'; continue
            pos = set()
            for d in range(len(k.dims)):
                if k.single(d): continue
                st = []
                for p, t in enumerate(co or []):
                    if d in k.dims_of(t): st.append((k.inj(t, d), p))
                if any(x[0] == 'yes' for x in st): pos.add((d, next(x[1] for x in st if x[0] == 'yes'))); continue
                if not st:
                    if any(k.dep(t) == '?' for t in (co or [])) or root.op in ('ite', 'call', 'lphi') and not co:
                        verdict = verdict if verdict == 'bad' else '?'; why = why or 'index %s' % [show(t)[:30] for t in co or []]; continue
                    verdict = 'bad'; at = e; why = 'every iteration%s writes %s' % ('' if len(k.dims) == 1 else ' of dimension %d' % d, show(e.loc)[:80]); break
                if all(x[0] == 'no' for x in st): verdict = 'bad'; at = e; why = 'several iterations write %s' % show(e.loc)[:80]; break
                verdict = verdict if verdict == 'bad' else '?'; why = why or 'index %s' % [show(t)[:40] for t in co]
            else:
                inj_pos = pos if inj_pos is None else inj_pos & pos
                continue
            break
        w = '%s:%d' % (at.file, at.line)
        if verdict == 'bad': c.bad(R1, w, '%s: %s' % (who, why), '%s|%s' % (who, name)); continue
        if verdict == '?':
            t = concrete(k, [x for x in l], [])
            if t == 'ok': verdict = 'ok'; why = 'is written at its own index (indices enumerated)'
            elif t: verdict = 'bad'; why = t[1]; at = t[0]
        if verdict == 'bad': c.bad(R1, '%s:%d' % (at.file, at.line), '%s: %s' % (who, why), '%s|%s' % (who, name)); continue
        if verdict == '?': deferred.append(('%s:%d' % (k.ev.file, k.ev.line), R1, w, '%s: %s' % (who, why))); continue
        c.ok(R1, w, '%s: %s is written at its own index' % (who, name))
        if not inj_pos: inj_pos = {(d, p) for e, r, co in l for p in range(len(co or [])) for d in k.dims_of(co[p])}
        if not inj_pos: continue
        # reads of the same array
        roots = {id(r) for _, r, _ in l}; bad = None; n = 0
        wc = {p: {uncopy(co[p]) for e, r, co in l if co} for d, p in inj_pos}
        for e in k.events:
            if e.k != 'read' or not isinstance(e.d.get('loc'), Term) or e.loc.op != 'idx': continue
            r, co = chain(e.loc)
            if id(r) not in roots or co is None: continue
            n += 1
            if any(uncopy(co[p]) in wc[p] for d, p in inj_pos if p < len(co)) and len(inj_pos) == 1: continue
            for d, p in sorted(inj_pos):
                if p >= len(co): continue
                t = uncopy(co[p])
                if t in wc[p]: continue
                dp = k.dep(t)
                if dp != '?' and (k.guarded(e) or dp == 'yes'):
                    x = concrete(k, l, [(e, r, co)])
                    if x and x != 'ok' and x[2] == 'r': bad = (e, show(e.loc)[:80])
                    continue
                if k.guarded(e) or dp == '?': continue
                if dp in ('no', 'inner'): bad = (e, show(e.loc)[:80])
                elif t.op in ('+', '-') and any(uncopy(x) is k.dims[d] for x in t.a if isinstance(x, Term)) and any(x.op == 'int' and x.a[0] != 0 for x in t.a if isinstance(x, Term)): bad = (e, show(e.loc)[:80])
        c.ob(bad is None, R2, w if bad is None else '%s:%d' % (bad[0].file, bad[0].line), '%s: %s%s' % (who, name, '' if bad is None else ' is written per iteration and read at %s' % bad[1]), '%s|%s|read' % (who, name))

def reduction(c, f, k):
    R = 'reduction variables are only added to'
    who = f.cq.replace('mpart::', ''); n = 0
    if any('Kokkos::' in show(r) and '{' in show(r) and 'View' not in show(r) for r in k.ev.reducers): c.count('built-in reducers'); return
    bad = None
    for e in k.events:
        if e.k != 'write': continue
        r = e.loc.a[0] if e.loc.op == 'idx' else e.loc
        if uncopy(r).op != 'redvar': continue
        n += 1
        v = uncopy(e.val); loc = e.loc
        def same(t): return uncopy(t) is loc or uncopy(t) is uncopy(loc)
        def has(t): return any(x is loc for x in subterms(t))
        def addends(t, sg):
            t0 = t; t = uncopy(t)
            if t is loc or t0 is loc: return [(t, sg)]
            if t.op == '+' and len(t.a) == 2: return addends(t.a[0], sg) + addends(t.a[1], sg)
            if t.op == '-' and len(t.a) == 2: return addends(t.a[0], sg) + addends(t.a[1], -sg)
            return [(t, sg)]
        ad = addends(v, 1)
        own = [sg for t, sg in ad if t is loc]; rest = [t for t, sg in ad if t is not loc]
        good = own == [1] and not any(has(t) for t in rest) or any(x.op in ('lphi', 'post', 'ite') for x in subterms(v)) and not (own and any(has(t) for t in rest))
        if not good:
            bad = e
    if n: c.ob(bad is None, R, '%s:%d' % ((bad or k.ev).file, (bad or k.ev).line), '%s: %s' % (who, '%d updates' % n if bad is None else 'the reduction variable becomes %s' % show(bad.val)[:80]), who)

def rng(c, f, k):
    R = 'each iteration uses and returns its own generator state'
    who = f.cq.replace('mpart::', '')
    got = [e for e in k.events if e.k == 'call' and e.d.get('name') == 'get_state']
    fre = [e for e in k.events if e.k == 'call' and e.d.get('name') == 'free_state']
    use = [e for e in k.events if e.k == 'call' and e.d.get('name') in ('normal', 'drand', 'urand', 'rand', 'frand', 'urand64', 'rand64') and 'Random' in (e.d.get('q') or '')]
    if not (got or use): return
    w = '%s:%d' % (k.ev.file, k.ev.line)
    states = {e.d['val'] for e in got if e.d.get('val') is not None}
    for e in use:
        o = uncopy(e.d['obj']) if e.d.get('obj') is not None else None
        if o is None: continue
        if o in states or any(x in states for x in subterms(o)): c.ok(R, '%s:%d' % (e.file, e.line), who + ': drawn from a state of this iteration'); continue
        if o.op in ('ite', 'lphi') : c.skip(R, w, who + ': generator'); continue
        c.bad(R, '%s:%d' % (e.file, e.line), '%s: the generator %s is shared between iterations' % (who, show(o)[:60]), who + '|shared generator')
    for g in got:
        m = [e for e in fre if any(g.d.get('val') is uncopy(a) or any(x is g.d.get('val') for x in subterms(a)) for a in e.d.get('args', []))]
        okc = [e for e in m if set(x for x in e.guards) <= set(x for x in g.guards) and e.loops == g.loops]
        c.ob(bool(okc), R, '%s:%d' % (g.file, g.line), '%s: the state drawn is given back%s' % (who, '' if okc else ' on every path: no'), who + '|free_state')
        if okc: c.ob(all(uncopy(e.d['obj']) is uncopy(g.d['obj']) for e in okc if e.d.get('obj') is not None), R, '%s:%d' % (g.file, g.line), who + ': to the pool it came from', who + '|pool')

NOTSAFE = {'rand', 'srand', 'std::rand', 'std::srand', 'strtok', 'drand48', 'lrand48', 'lgamma', 'std::lgamma', 'setlocale'}
def statics(c, db):
    """no function a kernel can reach keeps state between calls"""
    R = 'kernel code keeps no static state'
    todo = []; seen = set()
    for f in db.funcs:
        if f.body is None or f.dep: continue
        if any(True for x in launches(f)): 
            todo += [(l, f) for l in walk(f.body) if l.get('k') == 'lam' or l.get('k') == 'ctor']
        elif f.name == 'operator()' and f.ccls and f.ccls.startswith('mpart'): todo.append((f.body, f))
    todo = [(n, f) for n, f in todo if n.get('k') != 'ctor'] 
    hdr = {f.file for f in db.funcs if f.tu.startswith(VERIF) and f.file.startswith('MParT/')}
    for f in db.funcs:
        if f.body is not None and not f.dep and f.file in hdr and not f.d.get('isctor') and not launches(f): todo.append((f.body, f))
    nf = set()
    while todo:
        n, f = todo.pop()
        if id(n) in seen: continue
        seen.add(id(n)); nf.add((f.cq, f.line))
        for x in walk(n):
            k = x.get('k')
            if k in ('var', 'decl') or x.get('static'):
                if x.get('static') and not str(x.get('t', '')).startswith('const ') and 'constexpr' not in str(x) and not x.get('tls'):
                    c.bad(R, '%s:%s' % (f.file, x.get('l') or x.get('line') or f.line), '%s keeps the static variable %s' % (f.cq, x.get('n')), '%s|%s' % (f.cq, x.get('n')))
            if k == 'call':
                q = strip_targs(x.get('q') or '')
                if q in NOTSAFE: c.bad(R, '%s:%s' % (f.file, x.get('l')), '%s calls %s' % (f.cq, q), '%s|%s' % (f.cq, q))
                try: g = db.callee(x.get('u'), f.tu, x.get('iu'))
                except Exception: g = None
                if g is not None and g.body is not None and id(g.body) not in seen and not launches(g): todo.append((g.body, g))
            if k in ('asg', 'assign', 'bin', 'un', 'cas'):
                t = x.get('x') or x.get('lhs')
                if isinstance(t, dict) and t.get('k') == 'ref' and t.get('d') == 'global' and (k != 'un' and '=' in str(x.get('op')) and x.get('op') not in ('==', '!=', '<=', '>=') or k == 'un' and x.get('op') in ('++', '--', 'p++', 'p--')):
                    c.bad(R, '%s:%s' % (f.file, x.get('l')), '%s writes the global %s' % (f.cq, t.get('n') or t.get('q')), '%s|%s' % (f.cq, t.get('n')))
    c.count('functions reachable from kernels', len(nf))
    if len(nf) > 20: c.ok(R, 'MParT', '%d functions' % len(nf))

def reducers(c, db):
    """init and join of every reducer with an array result"""
    R = 'reducers zero and add every entry'
    seen = set()
    for f in db.funcs:
        if f.name != 'join' or not f.ccls or not f.ccls.startswith('mpart') or f.body is None: continue
        ini = [g for g in db.methods(f.ccls, 'init') if g.d.get('clst') == f.d.get('clst') and g.body is not None] or [g for g in db.methods(f.ccls, 'init') if g.body is not None]
        if len(f.ps) != 2: continue
        if (f.file, f.line) in seen: continue
        seen.add((f.file, f.line)); w = f.loc()
        for n in (1, 3):
            o = Obj(f.ccls); o.ty = f.d.get('clst') or f.ccls; o.f = {'value_count': n}
            def arr(p): b = Buf(n, p); b.d = {i: A('%s%d' % (p, i)) for i in range(n)}; return b
            I = Interp(db, Models(n=1), budget=20000)
            try:
                d, s = arr('d'), arr('s'); I.call_func(f, o, [Ptr(d), Ptr(s)])
                c.ob(all(I.M.same(d.d[i], absint.F.add(A('d%d' % i), A('s%d' % i))) for i in range(n)) and all(s.d[i] is A('s%d' % i) for i in range(n)), R, w, '%s: join adds the %d partial results' % (f.ccls, n), f.ccls + '|join')
                for g in ini:
                    if len(g.ps) != 1: continue
                    d = arr('d'); I.call_func(g, o, [Ptr(d)])
                    c.ob(all(isinstance(d.d[i], E) and I.M.same(d.d[i], ZERO) for i in range(n)), R, g.loc(), '%s: init zeroes the %d entries' % (f.ccls, n), f.ccls + '|init')
            except (NoAnswer, Undefined, Throw, AttributeError) as x: c.skip(R, w, '%s: %s' % (f.ccls, x)); break
            except Violation as x: c.bad(R, x.where, '%s: %s' % (f.ccls, x.msg), f.ccls + '|' + x.kind); break

class Log:
    sites = {}; races = {}; scan = {}
def instrument():
    """records per launch what the interpreted iterations touch"""
    orig = Interp.parallel
    def parallel(self, short, args):
        w = self.where_; n0 = len(self.races); s0 = self.sites_ if hasattr(self, 'sites_') else None
        if short == 'parallel_scan':
            a = [self.val(x) for x in args]
            a = a[1:] if a and isinstance(a[0], str) else a
            pol, fn = a[0], a[1]
            its = range(pol, ) if isinstance(pol, int) else range(pol.lo[0], pol.hi[0])
            outer = self.iterlog
            L = self.iterlog = {'w': {}, 'r': {}, 'name': {}, 'at': {}, 'i': 0, 'cur': None, 'own': set(), 'keep': []}
            try:
                for n, i in enumerate(its): L['i'] = n; L['cur'] = object(); self.invoke(fn, [i, LV([0], 0), False])
            finally: self.iterlog = outer
            Log.scan.setdefault(w, []).append(sorted({L['name'][k] for k, ws in L['w'].items() if 'list' not in str(k)} ) if L['w'] else [])
        r = orig(self, short, args)
        Log.sites[w] = Log.sites.get(w, 0) + 1
        for at, msg in self.races[n0:]: Log.races.setdefault((w, at, msg.split(' is ')[0]), msg)
        return r
    Interp.parallel = parallel
    return orig

def interpreted(c):
    R = 'interpreted iterations touch disjoint words'
    orig = instrument()
    try:
        for m in ('p_C10', 'p_C20'):
            try: importlib.import_module(m).check()
            except CheckError as x: c.skip(R, m, str(x))
            except Exception as x: c.skip(R, m, '%s: %s' % (type(x).__name__, x))
    finally: Interp.parallel = orig
    bad = {}
    for (w, at, what), msg in Log.races.items(): bad.setdefault(w, []).append((at, msg, what))
    for w, n in sorted(Log.sites.items()):
        if w not in bad: c.ok(R, w, '%d launches interpreted' % n)
        else:
            for at, msg, what in bad[w][:3]: c.bad(R, at or w, 'launch at %s: %s' % (w, msg), 'launch|%s|%s' % (w.split(':')[0], what))
    for w, l in sorted(Log.scan.items()):
        x = [y for y in l if y]
        c.ob(not x, 'a scan writes nothing before its final pass', w, '%d scans interpreted%s' % (len(l), '' if not x else ': writes ' + str(x[0])), 'scan|' + w.split(':')[0])
    c.count('launch sites interpreted', len(Log.sites))
    for site, R1, w, why in deferred:
        if site in Log.sites: c.count('writes decided by interpretation')
        else: c.skip(R1, w, why)

def check():
    c = Check('C07', RULE)
    ts = [t for t in src_tus() if 'parallel_' in open(t).read()]
    ts += [t for t in src_tus() if t.rsplit('/', 1)[1] in ('MapFactoryImpl1.cpp', 'PushforwardDensity.cpp')]
    db = DB(sorted(set(ts)) + [VERIF + '/tool/inst.cpp', VERIF + '/tool/basis.cpp', VERIF + '/tool/quad.cpp'], max_inst=3, keep_variants=3)
    done = set(); seen_calls = 0
    for f in db.funcs:
        if f.dep or f.body is None or '/lambda' in f.q: continue
        ls = launches(f)
        if not ls or (f.file, f.line) in done: continue
        done.add((f.file, f.line))
        seen_calls += len(ls)
        if all(team_only(f, x) for x in ls): c.count('team launches (interpreted)', len(ls)); continue
        try: v = VF(db); v.run(f)
        except CheckError: raise
        except Exception as x: c.skip('no two iterations write the same word', f.loc(), '%s: %s' % (f.cq, type(x).__name__)); continue
        for e in v.events:
            if e.k != 'parallel': continue
            k = Kernel(v, e)
            if k.team: c.count('team launches (interpreted)'); continue
            c.count('flat launches'); kernel(c, f, k); reduction(c, f, k) if e.kind == 'parallel_reduce' else None; rng(c, f, k)
    c.count('launching functions', len(done)); c.count('launch calls', seen_calls)
    reducers(c, db); statics(c, db)
    interpreted(c)
    selftests(c)
    c.need('no two iterations write the same word', 12); c.need('interpreted iterations touch disjoint words', 8); c.need('reducers zero and add every entry', 2); c.need('reduction variables are only added to', 2)
    c.assume('distinct view parameters of one operation do not overlap; Kokkos runs every iteration of a launch exactly once, in any order and concurrently')
    return c

def selftests(c):
    class L: id = 1
    class EV: kind = 'parallel_for'; functor = None; loop = L
    class V: lams = {}; objcls = {}; events = []; db = None
    k = Kernel.__new__(Kernel); k.v = V; k.id = 1; k.dims = [T('lidx', 1)]; k.own = set(); k.events = []
    i = k.dims[0]
    c.selftest('shifted index is injective', k.inj(T('+', i, INT(3)), 0) == 'yes')
    c.selftest('remainder is not injective', k.inj(T('%', i, INT(2)), 0) == 'no')
