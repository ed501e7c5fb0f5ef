"""C12: multi-index sets.  MultiIndexSet is interpreted over an uninterpreted limiter, neighbourhood and multi-index type; the states
of a set (up to the numbering of its terms) are explored from the constructors under every operation until no new state appears, and
each operation and query is compared with the definition in terms of the active terms and the limiter alone."""
import os, itertools
from harness import Check
from db import DB, REPO, CheckError
import formal as F
from formal import Models, NoAnswer
from absint import Interp, Obj, Vec, Assoc, LV, Pair, Fn, Throw, Violation, Opaque, Str
RULE = 'every operation of a multi-index set keeps it consistent with its active terms and limiter'
TUS = [os.path.join(REPO, 'src/MultiIndices', f) for f in ('MultiIndexSet.cpp', 'MultiIndex.cpp', 'MultiIndexNeighborhood.cpp', 'MultiIndexLimiter.cpp', 'FixedMultiIndexSet.cpp')]
MS = 'mpart::MultiIndexSet'
MI = 'mpart::MultiIndex'

def mi(t):
    o = Obj(MI); o.ty = MI; fill(o, tuple(int(x) for x in t)); return o
def fill(o, t):
    o.f['#mi'] = Opaque('mi'); o.f['#mi'].t = t
    o.f['nzInds'] = Vec([i for i, x in enumerate(t) if x], 'std::vector<unsigned int>')
    o.f['nzVals'] = Vec([x for x in t if x], 'std::vector<unsigned int>')
    o.f['length'] = len(t); o.f['maxValue'] = max(t, default=0); o.f['totalOrder'] = sum(t)
def tup(I, o):
    o = I.val(o) if isinstance(o, LV) else o
    if not isinstance(o, Obj) or '#mi' not in o.f: raise NoAnswer('not a multi-index: %r' % (o,))
    return o.f['#mi'].t
def mkey(t): return (len(t), sum(t), max(t, default=0), t)
class MIndex:
    """the multi-index type at its word (its own methods are decided separately)"""
    def ctor(s, I, o):
        a = [x for x in o.f.pop('#args') if not isinstance(x, Opaque) or hasattr(x, 'row') or not x.what.startswith('std::')]
        if any(isinstance(x, Opaque) and not hasattr(x, 'row') for x in a): raise NoAnswer('multi-index from %r' % (a,))
        if not a: t = ()
        elif isinstance(a[0], list) and len(a) == 1: t = tuple(a[0])
        elif isinstance(a[0], Vec): t = tuple(I.val(x) for x in a[0].v)
        elif isinstance(a[0], Opaque): t = a[0].row
        elif isinstance(a[0], Obj): t = tup(I, a[0])
        elif isinstance(a[0], int): t = (a[1] if len(a) > 1 else 0,) * a[0]
        else: raise NoAnswer('multi-index from %r' % (a,))
        if not all(isinstance(x, int) for x in t): raise NoAnswer('multi-index of unknown entries')
        fill(o, t)
    def key(s, I, o): return mkey(tup(I, o))
    def __call__(s, I, short, ob, a, e):
        if ob is None: raise NoAnswer('static ' + short)
        v = [I.ex(x) for x in a]
        if short == 'operator=': fill(ob, tup(I, v[0])); return ob
        t = tup(I, ob)
        if short == 'Vector': return Vec(list(t), 'std::vector<unsigned int>')
        if short == 'Get': 
            if not 0 <= v[0] < len(t): raise Violation('bounds', 'entry %d of a multi-index of length %d' % (v[0], len(t)), I.where_)
            return t[v[0]]
        if short == 'Set': fill(ob, t[:v[0]] + (v[1],) + t[v[0] + 1:]); return t[v[0]] != 0
        if short == 'NumNz': return sum(1 for x in t if x)
        if short in ('Length', 'size'): return len(t)
        if short == 'Max': return max(t)
        if short == 'Sum': return sum(t)
        if short == 'String': return Str('')
        if short == 'AnyBounded': return any(x >= y for x, y in zip(t, tup(I, v[0])))
        if short.startswith('operator'):
            x, y = mkey(t), mkey(tup(I, v[0])); o = short[8:]
            return {'==': x == y, '!=': x != y, '<': x < y, '>': x > y, '<=': x <= y, '>=': x >= y}[o]
        raise NoAnswer('MultiIndex::' + short)
def fwd(t): return [t[:i] + (t[i] + 1,) + t[i + 1:] for i in range(len(t))]
def bwd(t): return [t[:i] + (t[i] - 1,) + t[i + 1:] for i in range(len(t)) if t[i]]
def neighbours(I, short, ob, a, e):
    if short == 'operator=': return ob
    v = [I.ex(x) for x in a]; t = tup(I, v[0])
    if short in ('ForwardNeighbors', 'BackwardNeighbors'): return Vec([mi(x) for x in (fwd if short[0] == 'F' else bwd)(t)], 'std::vector<mpart::MultiIndex>')
    if short == 'IsForward': return tup(I, v[1]) in fwd(t)
    if short == 'IsBackward': return tup(I, v[1]) in bwd(t)
    raise NoAnswer('neighbourhood ' + short)
E_MI = MIndex()
class Lim:
    def __init__(s, name, p): s.name = name; s.p = p; s.fn = Fn(lambda I, v: s.p(tup(I, v[0])), name)

def interp(db, budget=60000):
    I = Interp(db, Models(n=1), budget=budget, opaque={MI: E_MI, 'MultiIndex': E_MI, 'MultiIndexNeighborhood': neighbours, 'DefaultNeighborhood': neighbours})
    I.at_throws = True
    def mk(I, e, ob, a):
        if 'Neighborhood' in e.get('t', ''): return Obj('mpart::DefaultNeighborhood')
        return NotImplemented
    I.hooks['make_shared'] = mk
    return I

class Bad(Exception): pass

class Set:
    """drives one MultiIndexSet object; methods are found by name and parameter kind"""
    def __init__(s, I, o): s.I = I; s.o = o
    @staticmethod
    def kind(t):
        t = t.replace('const ', '')
        if 'function' in t or 'Limiter' in t: return 'fn'
        return 'mi' if 'MultiIndex' in t and 'Set' not in t and 'vector' not in t else 'set' if 'MultiIndexSet' in t else 'int' if 'int' in t or 'bool' in t else 'x'
    def find(s, name, kinds):
        fs = [g for g in s.I.db.methods(MS, name) if g.body is not None and [s.kind(p['t']) for p in g.ps[:len(kinds)]] == kinds and all('dv' in p for p in g.ps[len(kinds):])]
        pub = [g for g in fs if not (kinds == ['int'] and name in ('Activate', 'IsActive', 'IsAdmissible'))]
        if not pub: raise CheckError('MultiIndexSet::%s(%s) not found' % (name, ', '.join(kinds)))
        return pub[0]
    def __call__(s, name, *a):
        ks = ['mi' if isinstance(x, tuple) else 'set' if isinstance(x, Set) else 'fn' if isinstance(x, Lim) else 'int' for x in a]
        g = s.find(name, ks); I = s.I; I.lastfn = g; I.steps = 0; I.own.clear()
        r = I.call_func(g, s.o, [mi(x) if isinstance(x, tuple) else x.o if isinstance(x, Set) else x.fn if isinstance(x, Lim) else x for x in a])
        return s.py(r)
    def py(s, r):
        I = s.I; r = I.val(r) if isinstance(r, LV) else r
        if isinstance(r, Vec): return [s.py(x) for x in r.v]
        if isinstance(r, Obj): return tup(I, r) if '#mi' in r.f else r
        if isinstance(r, bool) or r is None: return r
        if isinstance(r, int): return int(r)
        raise NoAnswer('result %r' % (r,))
    def copy(s): return Set(s.I, s.I.copyobj(s.o))
    def stored(s):
        """multi-indices anywhere in the object"""
        out = set(); st = [s.o]; seen = set()
        while st:
            x = st.pop()
            if id(x) in seen: continue
            seen.add(id(x))
            if isinstance(x, Obj):
                if '#mi' in x.f: out.add(x.f['#mi'].t); continue
                st.extend(x.f.values())
            elif isinstance(x, Vec): st.extend(x.v)
            elif isinstance(x, Assoc): st.extend(x.keys.values()); st.extend(x.d.values())
            elif isinstance(x, Pair): st.extend([x.a, x.b])
        return frozenset(out)

class Model:
    """the definition: active terms in order, limiter"""
    def __init__(s, n, act, lim): s.n = n; s.a = list(act); s.lim = lim
    def copy(s): return Model(s.n, s.a, s.lim)
    def L(s, t): return s.lim.p(t)
    def adm(s, t): return s.L(t) and (t in s.a or all(b in s.a for b in bwd(t)))
    def margin(s): return {f for t in s.a for f in fwd(t) if f not in s.a and s.L(f)}
    def rmargin(s): return {t for t in s.margin() if s.adm(t)}
    def expandable(s, i): return any(f not in s.a and s.adm(f) for f in fwd(s.a[i]))
    def closure(s, ts):
        new = []; st = [t for t in ts if t not in s.a]
        while st:
            t = st.pop()
            if t in new: continue
            new.append(t); st.extend(b for b in bwd(t) if b not in s.a and s.L(b))
        return set(new)

QUERY = 'queries agree with the active terms and the limiter'
def bad(what, got, want): raise Bad('%s is %s, required %s' % (what, got, want))
def eq(what, got, want):
    if got != want: bad(what, got, want)
def sameset(what, got, want):
    if len(set(got)) != len(got): bad(what, '%s with repeated entries' % (got,), sorted(want))
    if set(got) != set(want): bad(what, sorted(got), sorted(want))

def queries(S, m, univ, only=None):
    """yields (query, thunk raising Bad)"""
    n = len(m.a); zero = (0,) * m.n
    def base():
        eq('Size', S('Size'), n); eq('Length', S('Length'), m.n)
        for i in range(n):
            for q in ('IndexToMulti', 'at', 'operator[]'): eq('%s(%d)' % (q, i), S(q, i), m.a[i])
        for t in univ:
            eq('MultiToIndex(%s)' % (t,), S('MultiToIndex', t), m.a.index(t) if t in m.a else -1)
            eq('IsActive(%s)' % (t,), S('IsActive', t), t in m.a)
    def orders(): eq('MaxOrders', S('MaxOrders'), [max([t[k] for t in m.a], default=0) for k in range(m.n)])
    def adm():
        for t in univ:
            if t != zero or t in m.a or not m.L(t): eq('IsAdmissible(%s)' % (t,), S('IsAdmissible', t), m.adm(t))
    def front():
        f = [i for i in range(n) if m.expandable(i)]
        for i in range(n): eq('IsExpandable(%d)' % i, S('IsExpandable', i), i in f)
        sameset('Frontier', S('Frontier'), f)
        sameset('StrictFrontier', S('StrictFrontier'), [i for i in f if not any(x in m.a for x in fwd(m.a[i]))])
    def marg(): sameset('Margin', S('Margin'), m.margin())
    def rmarg():
        r = S('ReducedMargin')
        if m.L(zero): r = [x for x in r if x != zero or zero in m.a]
        sameset('ReducedMargin', r, m.rmargin())
    def nbrs():
        for i in range(n):
            t = m.a[i]
            eq('NumActiveForward(%d)' % i, S('NumActiveForward', i), sum(x in m.a for x in fwd(t)))
            eq('NumForward(%d)' % i, S('NumForward', i), sum(m.L(x) for x in fwd(t)))
            sameset('AdmissibleForwardNeighbors(%d)' % i, S('AdmissibleForwardNeighbors', i), [x for x in fwd(t) if m.adm(x)])
            for r in (S('BackwardNeighbors', i), S('BackwardNeighbors', t)):
                sameset('BackwardNeighbors of %s' % (t,), [x for x in r if x < n], [m.a.index(b) for b in bwd(t) if b in m.a])
        for t in m.margin():
            sameset('BackwardNeighbors of %s' % (t,), [x for x in S('BackwardNeighbors', t) if x < n], [m.a.index(b) for b in bwd(t) if b in m.a])
    def filt():
        b = (1,) + (2,) * (m.n - 1)
        eq('FilterBounded(%s)' % (b,), [bool(x) for x in S('FilterBounded', b)], [any(x >= y for x, y in zip(t, b)) for t in m.a])
    for q in (base, orders, adm, front, marg, rmarg, nbrs, filt): yield q.__name__, q

def operations(m, univ, lims, others):
    """yields (rule, label, apply(S) -> None raising Bad, new model)"""
    R = lambda x: 'operation ' + x
    n = len(m.a)
    def grown(new, order=None):
        k = m.copy(); k.a = m.a + (list(order) if order is not None else sorted(new)); return k
    def listed(S, r, what, new):
        """r: indices of the added terms; the terms themselves in the order added"""
        k = S('Size'); eq('Size after ' + what, k, n + len(new))
        sameset('the result of ' + what, r, range(n, n + len(new)))
        got = [S('IndexToMulti', i) for i in range(n, k)]
        sameset('the terms added by ' + what, got, new)
        return got
    for t in univ:
        k = m if t in m.a or not m.L(t) else grown(None, [t])
        def f(S, t=t, k=k): eq('the result of AddActive(%s)' % (t,), S('AddActive', t), k.a.index(t) if t in k.a else -1); return k
        yield R('AddActive'), 'AddActive(%s)' % (t,), f
        if m.adm(t) and t in m.margin():
            def f(S, t=t): S('Activate', t); return grown(None, [t])
            yield R('Activate'), 'Activate(%s)' % (t,), f
        if m.L(t):
            def f(S, t=t):
                new = m.closure([t]); got = listed(S, S('ForciblyActivate', t), 'ForciblyActivate(%s)' % (t,), new); return grown(None, got)
            yield R('ForciblyActivate'), 'ForciblyActivate(%s)' % (t,), f
    for i in range(n):
        def f(S, i=i):
            new = [x for x in fwd(m.a[i]) if x not in m.a and m.adm(x)]; return grown(None, listed(S, S('Expand', i), 'Expand(%d)' % i, new))
        yield R('Expand'), 'Expand(%d)' % i, f
        def f(S, i=i):
            new = m.closure([x for x in fwd(m.a[i]) if m.L(x)]); return grown(None, listed(S, S('ForciblyExpand', i), 'ForciblyExpand(%d)' % i, new))
        yield R('ForciblyExpand'), 'ForciblyExpand(%d)' % i, f
    def f(S):
        try: S('Expand', n)
        except Throw: return m
        raise Bad('Expand(%d) of a set of %d terms does not throw' % (n, n))
    yield R('Expand'), 'Expand(%d)' % n, f
    def f(S):
        return grown(None, listed(S, S('Expand'), 'Expand()', m.rmargin()))
    yield R('Expand'), 'Expand()', f
    for l in lims:
        if l is m.lim: continue
        def f(S, l=l):
            ok = all(l.p(t) for t in m.a); k = m.copy()
            try: S('SetLimiter', l)
            except Throw:
                if ok: raise Bad('SetLimiter(%s) throws though every active term passes' % l.name)
                return m
            if not ok: raise Bad('SetLimiter(%s) accepts an active term that the limiter rejects' % l.name)
            k.lim = l; return k
        yield R('SetLimiter'), 'SetLimiter(%s)' % l.name, f
    for o, om in others:
        new = [t for t in om.a if t not in m.a and m.L(t)]
        for name in ('Union', 'operator+='):
            def f(S, o=o, new=new, name=name):
                q = o.copy(); q.I = S.I; r = S(name, q)
                if name == 'Union': eq('the result of Union', r, len(new))
                eq('Size after ' + name, S('Size'), n + len(new)); got = [S('IndexToMulti', i) for i in range(n, n + len(new))]
                sameset('the terms added by ' + name, got, new); return grown(None, got)
            yield R('union'), '%s of the set %s' % (name, om.a), f
    def f(S):
        t = next(x for x in reversed(univ) if m.L(x)); S('operator+=', t)
        return m if t in m.a else grown(None, [t])
    yield R('AddActive'), '+= of a multi-index', f
    def f(S):
        if others:
            o = others[0][0].copy(); o.I = S.I
            S.o, src = o.o, S.o; S('operator=', Set(S.I, src))
            S2 = Set(S.I, src); add = [t for t in univ if t not in m.a and m.L(t)]
            if add: S2('AddActive', add[0])     # the copy does not follow the original
        return m
    yield R('assignment'), 'assignment', f

def explore(c, db, n, univ, lims, others_of, maxst, deadline=None):
    I = interp(db)
    ctors = [g for g in db.methods(MS) if g.d.get('isctor') and len(g.ps) == 3]
    if not ctors: raise CheckError('MultiIndexSet(length, limiter, neighbourhood) not found')
    def create(l):
        o = Obj(MS); o.ty = MS; I.run_ctor(ctors[0], o, [n, l.fn, Obj('mpart::DefaultNeighborhood')], MS); return Set(I, o)
    where = '%s (%s)' % (ctors[0].file, ctors[0].cq)
    others = []
    for ts in others_of:
        o = create(lims[0]); 
        for t in ts: o('AddActive', t)
        others.append((o, Model(n, ts, lims[0])))
    seen = {}; todo = []; seenbad = set()
    def loc(): g = getattr(I, 'lastfn', None) or ctors[0]; return '%s:%d (%s)' % (g.file, g.line, g.cq)
    def fail(rule, key, label, x):
        if (rule, key) in seenbad: return
        seenbad.add((rule, key)); c.bad(rule, loc(), '%s: %s' % (label, x), key)
    def guard(rule, key, label, f):
        """run f; report violations; returns (ok, value)"""
        try: return True, f()
        except Bad as x: fail(rule, key, label, x)
        except Violation as x: fail(rule, key, label, x)
        except Throw as x: fail(rule, key, label, 'throws (%s)' % x)
        except (NoAnswer, F.Undefined) as x:
            if (rule, key, 'u') not in seenbad: seenbad.add((rule, key, 'u')); c.skip(rule, loc(), '%s: %s' % (label, x))
        return False, None
    asked = set()
    def visit(S, m, hist, kind=''):
        k = (frozenset(m.a), m.lim.name, S.stored()); ok = True
        if k in seen:
            # the same abstract state by another kind of operation: its queries too have to agree
            if (kind, k) in asked: return
            asked.add((kind, k))
            for name, q in queries(S, m, univ):
                g, _ = guard(QUERY, name, 'after ' + ', '.join(hist), q); c.count('queries compared')
                if g: okq[name] = okq.get(name, 0) + 1
            return
        asked.add((kind, k))
        seen[k] = hist
        for name, q in queries(S, m, univ):
            g, _ = guard(QUERY, name, 'after ' + (', '.join(hist) or 'construction'), q); c.count('queries compared'); ok = ok and g
            if g: okq[name] = okq.get(name, 0) + 1
        if ok: todo.append((S, m, hist))
    okq = {}; okop = {}
    for l in lims: visit(create(l), Model(n, [], l), ['set with ' + l.name])
    done = 0
    while todo and done < maxst:
        S, m, hist = todo.pop(0); done += 1
        for rule, label, f in operations(m, univ, lims, others):
            T = S.copy(); g, k = guard(rule, label.split('(')[0], 'after %s: %s' % (', '.join(hist), label), lambda: f(T))
            c.count('operations interpreted')
            if g: okop[rule] = okop.get(rule, 0) + 1; visit(T, k, hist + [label], rule)
    c.count('abstract states', len(seen)); c.count('states not expanded', len(todo))
    for q, k in okq.items(): c.ok(QUERY, where, '%s in %d states of length %d' % (q, k, n))
    for r, k in okop.items(): c.ok(r, where, '%d state transitions of length %d' % (k, n))
    return len(seen), len(todo)

def check():
    c = Check('C12', RULE)
    thorough = os.environ.get('VERIF_TIER') == 'thorough'
    d = DB(TUS)
    all2 = [(i, j) for i in range(4) for j in range(4) if i + j <= 3]
    to2 = Lim('total order 2', lambda t: sum(t) <= 2)
    box = Lim('degrees (2,1)', lambda t: all(x <= y for x, y in zip(t, (2, 1, 1))))
    hole = Lim('total order 2 without (0,1)', lambda t: sum(t) <= 2 and t != (0, 1))
    nozero = Lim('total order 1 to 2', lambda t: 1 <= sum(t) <= 2)
    lims = [to2, box, hole, nozero]
    univ = [t for t in all2 if to2.p(t) or box.p(t)] + [(3, 0)]
    explore(c, d, 2, univ, lims, [[(0, 0), (0, 1), (1, 1)]], 100000)
    top3 = [t for t in itertools.product(range(2), repeat=3) if sum(t) <= 2 and t != (1, 0, 1)]
    l3 = Lim('six terms of three inputs', lambda t: t in top3); l1 = Lim('total order 1', lambda t: sum(t) <= 1)
    u3 = top3 + [(1, 0, 1), (2, 0, 0)]
    if thorough:
        l3 = Lim('total order 2', lambda t: sum(t) <= 2 and t != (2, 0, 0) and t != (0, 2, 0)); u3 = [t for t in itertools.product(range(3), repeat=3) if sum(t) <= 2]
    explore(c, d, 3, u3, [l3, l1], [[(0, 0, 0), (0, 1, 1)]], 100000)
    c.need(QUERY, 4)
    c.assume('states are explored over 6 allowed terms of length 2 and 3 (more in the thorough tier); the numbering of terms does not matter')
    return c
