"""C01: what save writes is what load reads back, into the same place; every factory type can be reloaded."""
import os, re, glob
from harness import Check
from db import DB, REPO, VERIF, CheckError, walk, strip_targs
from vf import VF, T, Term, INT, same, subterms

RULE = ("Every save/load pair (and load_and_construct, serialize) is turned into its sequence of archived items by value-flow analysis; rules: (R1) load "
        "reads the same fields, in the same order, as save writes, unconditionally; (R2) every value read before a constructor call reaches the constructor "
        "argument that initialises the member it was saved from; (R3) every data member of a serialised class is archived or recomputed while loading; "
        "(R4) the array save/load pair agrees on label, extents and byte count and assigns what it read; (R5) every map type the factory can build is bound to "
        "the polymorphic archives and its translation unit is forced in; (R6) the file/pickle wrappers of the Python binding mirror each other.")

def is_arch(q): return q in ('cereal::OutputArchive::operator()', 'cereal::InputArchive::operator()')
NOIN = lambda f: f.cq.startswith('cereal::')

def norm_ty(t): return (t or '').replace('const ', '').replace('&', '').strip()

def lref(n):
    """the local or parameter an argument expression denotes"""
    while isinstance(n, dict):
        if n.get('k') == 'ref' and n.get('d') in ('local', 'param'): return n
        nx = n.get('e') or n.get('s')
        if n.get('k') == 'ctor' and len(n.get('a', [])) == 1: nx = n['a'][0]
        if n.get('k') == 'call' and n.get('q', '').split('::')[-1] in ('move', 'forward') and n.get('a'): nx = n['a'][0]
        if not isinstance(nx, dict): return None
        n = nx
    return None

def fieldof(t):
    while isinstance(t, Term) and t.op in ('copy',): t = t.a[0]
    if isinstance(t, Term) and t.op == 'fld' and t.a[0].op == 'this': return t.a[1]
    return None

def items(v):
    """[(kind, id, guards, event, type)] in archive order"""
    out = []
    for e in v.events:
        if e.k != 'call': continue
        q = e.get('q') or ''
        if is_arch(q): args = list(zip(e.get('args'), e.node.get('a', [])))
        elif q in ('cereal::save', 'cereal::load'): args = list(zip(e.get('args'), e.node.get('a', [])))[1:]
        else: continue
        for t, n in args:
            g = tuple((str(x[0]), x[1]) for x in e.guards)
            f = fieldof(t)
            if f is None and isinstance(n, dict):
                r = lref(n)
                if r is not None and r['d'] == 'local' and not (isinstance(t, Term) and t.op in ('fld',)):
                    out.append(('local', (r['id'], r['n']), g, e, norm_ty(r['t']), t)); continue
            if f is not None: out.append(('fld', f, g, e, norm_ty(n.get('t') if isinstance(n, dict) else ''), t)); continue
            if isinstance(t, Term) and t.op == 'obj' and 'base_class' in str(t.a[0]): out.append(('base', baseof(n), g, e, '', t)); continue
            out.append(('expr', str(t), g, e, norm_ty(n.get('t') if isinstance(n, dict) else ''), t))
    return out

def baseof(n):
    for x in walk(n):
        for k in ('t', 'ret', 'clst', 'q'):
            m = re.search(r'base_class<(.*)>', str(x.get(k) or ''))
            if m: return strip_targs(m.group(1))
    return '?'

def run(d, f): return VF(d, noinline=NOIN).run(f)

def pairs(c, d):
    classes = {}
    for f in d.funcs:
        if f.dep or not f.ccls or not f.ccls.startswith('mpart::'): continue
        if f.name in ('save', 'load', 'serialize', 'load_and_construct'):
            classes.setdefault(f.ccls, {}).setdefault(f.name, []).append(f)
    return classes

def check_class(c, d, cls, m):
    short = cls.split('::')[-1]
    sv = (m.get('save') or m.get('serialize') or [None])[0]
    ld = (m.get('load') or [None])[0]; lc = (m.get('load_and_construct') or [None])[0]
    if sv is None: return None
    vs = run(d, sv); S = items(vs); c.count('functions')
    if m.get('serialize'):
        flds = [x[1] for x in S if x[0] == 'fld']
        for x in S: c.ob(x[0] != 'expr' and not x[2], 'R1-same-sequence', x[3].where(), '%s archives %s unconditionally in both directions' % (short, x[1]), '%s|serialize|%s' % (short, x[1] if x[0] == 'fld' else x[0]))
        c.ob(len(set(flds)) == len(flds), 'R1-same-sequence', sv.loc(), '%s archives each member once' % short, '%s|serialize|dup' % short)
        return S, None, sv, None, vs, None
    if ld is None and lc is None:
        # only the load_and_construct of derived classes exists: the save must be empty or chain to its base
        return S, None, sv, None, vs, None
    tgt = lc or ld
    vl = run(d, tgt); L = items(vl); c.count('functions')
    return S, L, sv, tgt, vs, vl

def expand(info, S, seen=()):
    """replace base_class items by the base's own save items (bases that archive nothing vanish)"""
    out = []
    for x in S:
        if x[0] == 'base' and x[1] in info and x[1] not in seen:
            b = info[x[1]]
            if b and b[0] is not None:
                sub = expand(info, b[0], seen + (x[1],))
                out += [('base', x[1], x[2], x[3], '', x[5])] if sub else []
                continue
        out.append(x)
    return out

def check():
    c = Check('C01', RULE)
    tus = sorted(glob.glob(REPO + '/src/MapFactoryImpl*.cpp')) + [REPO + '/src/TriangularMap.cpp', REPO + '/src/MapFactory.cpp'] + \
          [REPO + '/bindings/python/src/%s.cpp' % n for n in ('MapOptions', 'MultiIndex', 'ParameterizedFunctionBase', 'ConditionalMapBase', 'Serialization')] + [VERIF + '/tool/ser.cpp']
    d = DB(tus, max_inst=3, keep_variants=6)
    classes = pairs(c, d)
    info = {}
    for cls, m in sorted(classes.items()): info[cls] = check_class(c, d, cls, m)
    for cls, m in sorted(classes.items()):
        r = info[cls]
        if r is None: continue
        S, L, sv, tgt, vs, vl = r; short = cls.split('::')[-1]
        c.count('serialised classes')
        if L is not None and not (tgt.name == 'load' and not S and not L and not [1 for x in S if x[0] == 'base']):
            dead = tgt.name == 'load' and any(e.k in ('assert', 'throw') for e in vl.events) and not L
            if not dead: sequence(c, d, info, short, S, L, sv, tgt)
            if tgt.name == 'load_and_construct': construct(c, d, cls, expand(info, S), L, tgt, vl, vs)
        complete(c, d, cls, short, S, L, sv, tgt, vl)
    arrays(c, d)
    registration(c, d)
    bindings(c, d)
    c.need('R1-same-sequence', 20); c.need('R2-reaches-constructor', 4); c.need('R3-member-restored', 20); c.need('R4-array-pair', 4); c.need('R5-registered', 10)
    return c

def name(x): return x[1][1] if x[0] == 'local' else x[1]

def sequence(c, d, info, short, S, L, sv, tgt):
    ctor = tgt.name == 'load_and_construct'
    S2 = expand(info, S) if ctor else S
    L2 = L
    n = max(len(S2), len(L2))
    for i in range(n):
        if i >= len(S2):
            c.bad('R1-same-sequence', L2[i][3].where(), '%s reads item %d (%s), which save never writes' % (short, i, name(L2[i])), '%s|extra-read|%s' % (short, name(L2[i]))); continue
        if i >= len(L2):
            c.bad('R1-same-sequence', S2[i][3].where(), '%s writes item %d (%s), which %s never reads' % (short, i, name(S2[i]), tgt.name), '%s|extra-write|%d|%s' % (short, i, name(S2[i]))); continue
        s, l = S2[i], L2[i]
        if s[2] or l[2]:
            c.skip('R1-same-sequence', s[3].where(), 'item %s is archived conditionally' % name(s)); continue
        if l[0] == 'local':
            ok = s[4] == l[4] or not s[4] or not l[4] or (s[0] == 'fld' and norm_ty(ftype(d, sv, s[1])) == l[4])
            if ok and s[0] == 'fld':
                # same-typed neighbours: the local must end up where the field came from (R2)
                pass
            c.ob(ok, 'R1-same-sequence', l[3].where(), '%s item %d: %s (%s) read back as the same type (%s)' % (short, i, name(s), s[4], l[4]), '%s|type|%d|%s' % (short, i, name(s)))
        else:
            c.ob(s[0] == l[0] and s[1] == l[1], 'R1-same-sequence', l[3].where(), '%s item %d: written from %s, read into %s' % (short, i, name(s), name(l)), '%s|order|%s' % (short, name(s)))

def ftype(d, f, fld):
    todo = [f.ccls] + d.all_bases(f.ccls)
    for q in todo:
        cl = d.cls(q)
        for x in (cl or {}).get('fields', []):
            if x['n'] == fld: return x['t']
    return ''

def fields(d, q):
    cl = d.cls(q)
    return [x for x in (cl or {}).get('fields', []) if not x.get('static')]

def complete(c, d, cls, short, S, L, sv, tgt, vl):
    if tgt is not None and tgt.name == 'load_and_construct':
        return          # members come from the constructor (R2)
    if tgt is None and sv.name != 'serialize': return
    got = {x[1] for x in (L if L is not None else S) if x[0] == 'fld'}
    if L is not None and not L and not S: return
    for e in (vl.events if vl else []):
        if e.k in ('write', 'viewassign', 'assign', 'wr'):
            f = fieldof(e.get('loc')) if isinstance(e.get('loc'), Term) else None
            if f: got.add(f)
    if vl:
        for loc in vl.store:
            f = fieldof(loc)
            if f: got.add(f)
    for x in fields(d, cls):
        cst = norm_ty(x['t']) != x['t'].replace('&', '').strip() and x['t'].startswith('const')
        ok = x['n'] in got
        if not ok and defaulted(d, cls, x): c.ok('R3-member-restored', sv.loc(), '%s::%s is fixed by the default constructor and never changes afterwards' % (short, x['n'])); continue
        c.ob(ok, 'R3-member-restored', sv.loc(), '%s::%s is archived or recomputed when loading' % (short, x['n']), '%s|member|%s' % (short, x['n']))

def defaulted(d, cls, x):
    """stateless members (empty classes)"""
    q = strip_targs(x['t'])
    cl = d.cls(q)
    return bool(cl) and not fields(d, q) and not any(fields(d, b) for b in d.all_bases(q))

def ctor_for(d, cls, n, args):
    out = []
    for f in d.methods(cls):
        if not f.d.get('isctor') or f.dep: continue
        req = [p for p in f.ps if not p.get('hd')]
        if len(req) <= n <= len(f.ps): out.append(f)
    def score(f):
        s = 0
        for p, a in zip(f.ps, args):
            if norm_ty(p['t']) == norm_ty(a['t'] if a else ''): s += 1
        return s
    out.sort(key=lambda f: -score(f))
    return out[0] if out else None

def construct(c, d, cls, S, L, tgt, vl, vs):
    short = cls.split('::')[-1]
    src = {}
    for s, l in zip(S, L):
        if l[0] == 'local': src[l[1][0]] = (s, l)
    calls = [e for e in vl.events if e.k == 'call' and e.get('q') == 'cereal::construct::operator()']
    if not calls: c.bad('R2-reaches-constructor', tgt.loc(), '%s never constructs the loaded object' % short, '%s|noconstruct' % short); return
    full = max(len(e.node['a']) for e in calls)
    for e in calls:
        refs = [lref(a) for a in e.node['a']]
        f = ctor_for(d, cls, len(refs), refs)
        if f is None: c.skip('R2-reaches-constructor', e.where(), 'no constructor with %d arguments' % len(refs)); continue
        v = VF(d, depth=4).run(f)
        used = set()
        for i, r in enumerate(refs):
            if r is None or r['id'] not in src:
                # local recomputed from loaded values?
                c.skip('R2-reaches-constructor', e.where(), 'argument %d is not a loaded value' % i); continue
            used.add(r['id']); s = src[r['id']][0]
            tgtfld = None
            p = f.ps[i]
            if s[0] == 'fld': ok = ctor_sets(d, v, f, i, p, s[1])
            else: ok = expr_matches(d, v, f, i, p, s)
            if ok is None: c.skip('R2-reaches-constructor', e.where(), 'flow of parameter %s not decidable' % p['n'])
            else: c.ob(ok, 'R2-reaches-constructor', e.where(), '%s: value saved from %s is passed as constructor parameter %s, which %s it' % (short, name(s), p['n'], 'restores' if ok else 'does not restore'), '%s|%s|%d' % (short, name(s), len(refs)))
        for i, (s, l) in src.items():
            if i in used: continue
            # dropped: legitimate only for an optional array whose absence is tested
            g = [x for x in e.guards]
            why = 'drops the loaded %s' % name(s)
            ok = False
            if g and s[0] == 'fld':
                tests = [(t, pol) for t, pol in g if any(u is vl.store.get(T('var', i, l[1][1]), l[5]) or u.op == 'var' and u.a[0] == i for u in subterms(t))]
                for t, pol in tests:
                    tt, pp = t, pol
                    while tt.op == '!': tt, pp = tt.a[0], not pp
                    if (tt.op == '==' and not pp) or (tt.op == '!=' and pp): ok = True      # size mismatch: no coefficients to restore
                    elif tt.op == '==' and pp or tt.op == '!=': pass
                    elif tt.op in ('>', '<', '>=', '<='):
                        # drops for equal sizes?  a </> test is a mismatch test only if equality keeps the coefficients
                        eq = tt.op in ('>=', '<=')
                        if eq == pp: ok = False; break
                        ok = True
                    elif tt.op in ('&&', '||', 'call'): ok = None if not ok else ok
            if ok is None: c.skip('R2-reaches-constructor', e.where(), why + ' under an unrecognised test')
            else: c.ob(ok, 'R2-reaches-constructor', e.where(), '%s %s only when it does not match the expansion' % (short, why), '%s|dropped|%s' % (short, name(s)))
        # the size test must compare the stored coefficient count with the number of coefficients
        if len(refs) == full:
            for t, pol in e.guards:
                tt, pp = t, pol
                while tt.op == '!': tt, pp = tt.a[0], not pp
                if tt.op in ('>', '<', '>=', '<='): c.bad('R2-reaches-constructor', e.where(), '%s passes the loaded coefficients on although their number differs from what the expansion needs' % short, '%s|guard' % short)
                if tt.op in ('==', '!='): c.ob((tt.op == '==') == pp, 'R2-reaches-constructor', e.where(), '%s restores the coefficients exactly when their number matches' % short, '%s|guard' % short)

def ctor_sets(d, v, f, i, p, fld):
    th = T('this'); P = T('param', i, p['n'])
    def has(t): return any(u is P for u in subterms(t)) if isinstance(t, Term) else False
    val = v.store.get(T('fld', th, fld))
    if val is not None and fld != 'savedCoeffs': return strip(val) is P or (None if has(val) else False)
    if fld == 'savedCoeffs':
        for e in v.events:
            if e.k == 'call' and e.get('q', '').split('::')[-1] in ('SetCoeffs', 'WrapCoeffs') and e.get('args') and has(e.get('args')[-1]): return True
            if e.k == 'deep_copy' and has(e.get('src')): return True
        if val is not None and has(val): return True
        return False
    return None

def strip(t):
    while isinstance(t, Term) and t.op in ('copy', 'cast'): t = t.a[0]
    if isinstance(t, Term) and t.op == 'obj':
        xs = [x for x in t.a[1:] if isinstance(x, Term)]
        if len(xs) == 1: return strip(xs[0])
    return t

def truth(t, env):
    """truth of a condition on savedCoeffs under env=(allocated, size)"""
    if t.op in ('copy', 'cast'): return truth(t.a[0], env)
    if t.op == 'bool': return bool(t.a[0])
    if t.op == '!': x = truth(t.a[0], env); return None if x is None else not x
    if t.op == 'ite':
        x = truth(t.a[0], env); return None if x is None else truth(t.a[1] if x else t.a[2], env)
    if t.op in ('&&', '||'):
        x, y = truth(t.a[0], env), truth(t.a[1], env)
        if t.op == '&&': return False if False in (x, y) else (True if x and y else None)
        return True if True in (x, y) else (False if x is False and y is False else None)
    def sc(u): return isinstance(u, Term) and u.op == 'fld' and u.a[1] == 'savedCoeffs'
    if t.op == 'call' and t.a[0].split('::')[-1] == 'is_allocated' and sc(t.a[1]): return env[0]
    if t.op in ('==', '!=', '<', '<=', '>', '>='):
        def num(u):
            if u.op == 'int': return u.a[0]
            if u.op in ('copy', 'cast'): return num(u.a[0])
            if u.op in ('size', 'ext') and sc(u.a[0]): return env[1]
            if u.op == 'call' and u.a[0].split('::')[-1] in ('size', 'extent') and sc(u.a[1]): return env[1]
            return None
        x, y = num(t.a[0]), num(t.a[1])
        if x is None or y is None: return None
        return {'==': x == y, '!=': x != y, '<': x < y, '<=': x <= y, '>': x > y, '>=': x >= y}[t.op]
    if t.op in ('size', 'ext') and sc(t.a[0]): return env[1] != 0
    return None

def expr_matches(d, v, f, i, p, s):
    """a flag computed while saving: 'the object owns coefficients', restored by the flag parameter"""
    t = s[5]
    if norm_ty(p['t']) != 'bool': return None
    out = []
    for env in ((False, 0), (True, 0), (True, 3)):
        x = truth(t, env)
        if x is None: return None
        out.append(x)
    return out[-1] is True and out[0] is False      # coefficients present must be recorded, absent must not

# ---- R4: the array pair
def arrays(c, d):
    for rank in (1, 2):
        ss = [f for f in d.find('cereal::save') if not f.dep and vrank(f) == rank]
        ls = [f for f in d.find('cereal::load') if not f.dep and vrank(f) == rank]
        if not ss or not ls: c.skip('R4-array-pair', 'MParT/Utilities/Serialization.h', 'no instantiation of the rank-%d pair' % rank); continue
        A = [arr(c, d, f, 1, rank) for f in ss[:1]][0]; B = [arr(c, d, f, 1, rank) for f in ls[:1]][0]
        if A is None or B is None: c.skip('R4-array-pair', ss[0].loc(), 'item sequence not recognised'); continue
        c.ob([x[0] for x in A] == [x[0] for x in B], 'R4-array-pair', ls[0].loc(), 'rank-%d arrays: written as %s, read as %s' % (rank, [x[0] for x in A], [x[0] for x in B]), 'rank%d|sequence' % rank)
        want = ['label'] + ['ext%d' % k for k in range(rank)] + ['data']
        c.ob([x[0] for x in A] == want, 'R4-array-pair', ss[0].loc(), 'rank-%d array writes %s' % (rank, [x[0] for x in A]), 'rank%d|save' % rank)
        for x in A + B:
            for r, ok, why in x[1]: c.ob(ok, 'R4-array-pair', x[2], why, 'rank%d|%s' % (rank, r))

def vrank(f):
    m = re.search(r'Kokkos::View<[^<>,]*?(\*+)', f.ps[1]['t'] if len(f.ps) > 1 else '')
    return len(m.group(1)) if m else 0

def arr(c, d, f, _, rank):
    """[(tag, [(key, ok, why)], where)] of one array function"""
    v = VF(d, noinline=lambda g: g.cq.startswith('cereal::')).run(f); c.count('functions')
    save = f.name == 'save'
    P = T('param', 1, f.ps[1]['n'])
    outs = []; tags = []; locs = {}     # load: local id -> tag
    view = None; scal = 'double'
    m = re.match(r'.*View<(?:const )?([\w ]+?) ?\*', f.ps[1]['t']); scal = m.group(1) if m else '?'
    order = []
    for e in v.events:
        if e.k == 'call' and is_arch(e.get('q') or ''):
            for t, n in zip(e.get('args'), e.node['a']): order.append((t, n, e))
    ext = 0
    def arrof(t):
        while isinstance(t, Term) and t.op in ('copy', 'cast'): t = t.a[0]
        return t
    lab = None; extv = {}
    for t, n, e in order:
        r = lref(n)
        bd = find_bd(v, t, n, e)
        if bd is not None:
            ptr, size = bd; chk = []
            prod = None
            # expected byte count: product of the extents times sizeof(scalar)
            if save: ex = [v.extent(P, INT(k)) for k in range(rank)]
            else: ex = [extv.get(k) for k in range(rank)]
            if any(x is None for x in ex): return None
            want = T('sizeof', scal)
            for x in ex: want = T('*', want, x)
            ok = same_poly(size, want)
            chk.append(('%s|bytes' % f.name, ok, '%s transfers %s bytes, the array holds %s' % (f.name, size, want)))
            owner = arrof(ptr.a[0]) if isinstance(ptr, Term) and ptr.op in ('data', 'call') and isinstance(ptr.a[-1], Term) else None
            if isinstance(ptr, Term) and ptr.op == 'call': owner = arrof(ptr.a[1])
            if save: chk.append(('save|data', owner is P, 'save transfers the storage of its argument (%s)' % ptr))
            else:
                final = arrof(v.store.get(P, P)); alloc = owner
                chk.append(('load|data', owner is not None and owner.op == 'obj', 'load reads into the freshly allocated array'))
                if owner is not None and owner.op == 'obj':
                    aa = [x for x in owner.a[1:] if isinstance(x, Term)]
                    got = aa[1:] if aa and len(aa) == rank + 1 else aa
                    chk.append(('load|alloc', len(got) == rank and all(strip(g) is strip(extv[k]) for k, g in enumerate(got)), 'load allocates the extents it read, in order (%s)' % [str(x) for x in got]))
                    res = [x for x in v.events if x.k in ('write', 'viewassign', 'assign') and arrof(x.get('loc')) is P]
                    fin = assigned(v, P)
                    chk.append(('load|assign', fin is not None and arrof(fin) is owner, 'load returns the array it filled (%s)' % fin))
            for tt, pol in e.guards:
                g = empty_guard(v, tt, pol, ex)
                if g is None: return None
                chk.append(('%s|guard' % f.name, g, '%s skips the data only for empty arrays' % f.name))
            tags.append(('data', chk, e.where())); continue
        if e.guards: return None
        if save:
            tt = strip(t)
            if tt.op == 'call' and tt.a[0].split('::')[-1] == 'label': tags.append(('label', [], e.where())); continue
            k = None
            for j in range(rank):
                if tt is strip(v.extent(P, INT(j))): k = j
            if k is None and r is not None:
                vv = strip(v.store.get(T('var', r['id'], r['n']), tt))
                for j in range(rank):
                    if vv is strip(v.extent(P, INT(j))): k = j
                if k is None and vv.op == 'call' and vv.a[0].split('::')[-1] == 'label': tags.append(('label', [], e.where())); continue
            if k is None: tags.append(('?%s' % tt, [], e.where())); continue
            tags.append(('ext%d' % k, [], e.where()))
        else:
            if r is None: return None
            if 'string' in r['t']: tags.append(('label', [], e.where())); continue
            val = v.store.get(T('var', r['id'], r['n']))
            extv[ext] = val; tags.append(('ext%d' % ext, [], e.where())); ext += 1
    return tags

def assigned(v, P):
    r = None
    for e in v.events:
        if e.get('loc') is P and e.get('val') is not None: r = e.get('val')
        if e.get('dst') is P and e.get('src') is not None: r = e.get('src')
    if r is None:
        x = v.store.get(P)
        r = x
    return r

def empty_guard(v, t, pol, ex):
    """does the guard only exclude empty arrays?"""
    ids = {strip(x): k for k, x in enumerate(ex)}
    def ev(t, env):
        t = strip(t)
        if t.op == '!': x = ev(t.a[0], env); return None if x is None else not x
        if t.op in ('&&', '||'):
            x, y = ev(t.a[0], env), ev(t.a[1], env)
            if x is None or y is None: return None
            return (x and y) if t.op == '&&' else (x or y)
        if t.op in ('==', '!=', '<', '<=', '>', '>='):
            x, y = num(t.a[0], env), num(t.a[1], env)
            if x is None or y is None: return None
            return {'==': x == y, '!=': x != y, '<': x < y, '<=': x <= y, '>': x > y, '>=': x >= y}[t.op]
        n = num(t, env)
        return None if n is None else n != 0
    def num(t, env):
        t = strip(t)
        if t.op == 'int': return t.a[0]
        if t in ids: return env[ids[t]]
        if t.op == '*':
            x, y = num(t.a[0], env), num(t.a[1], env); return None if x is None or y is None else x * y
        return None
    import itertools
    for env in itertools.product((0, 1, 2), repeat=len(ex)):
        x = ev(t, env)
        if x is None: return None
        taken = x if pol else not x
        nonempty = all(e > 0 for e in env)
        if nonempty and not taken: return False
    return True

def same_poly(a, b): return same(unsz(a), unsz(b))
def unsz(t):
    if not isinstance(t, Term): return t
    if t.op == 'sizeof': return T('sizeof', re.sub(r'^const ', '', str(t.a[0])))
    if t.op in ('copy', 'cast'): return unsz(t.a[0])
    return T(t.op, *[unsz(x) if isinstance(x, Term) else x for x in t.a])

def find_bd(v, t, n, e):
    for x in walk(n) if isinstance(n, dict) else []:
        if x.get('k') == 'call' and x.get('q', '').split('::')[-1] == 'binary_data':
            for y in v.events:
                if y.k == 'call' and y.get('node') is x or (y.k == 'call' and (y.get('q') or '').split('::')[-1] == 'binary_data' and y.line == x.get('l') and y.i <= e.i):
                    best = y
            return best.get('args')[0], best.get('args')[1]
    return None

# ---- R5: registration
def registration(c, d):
    bound = set()
    for g in d.globals:
        m = re.search(r'init_binding<(.*)>::\w+$', g['q'])
        if m: bound.add(norm_q(m.group(1)))
    for q, l in d.classes.items():
        if q.endswith('init_binding'):
            for x in l:
                m = re.search(r'init_binding<(.*)>$', x['tn'])
                if m: bound.add(norm_q(m.group(1)))
    made = {}
    for f in d.funcs:
        if f.dep: continue
        if not f.file.split('/')[-1].startswith('MapFactoryImpl') and not f.file.endswith('MapFactory.cpp'): continue
        for x in walk(f.body):
            if x.get('k') == 'call' and x.get('q', '').split('::')[-1].startswith('make_shared'):
                m = re.search(r'shared_ptr<(mpart::(?:MonotoneComponent|TriangularMap)<?.*)>$', x.get('t') or x.get('ret') or '')
                if m: made.setdefault(norm_q(m.group(1)), (f, x))
            if x.get('k') == 'new':
                q = x.get('nt') or x.get('at') or ''
                if 'MonotoneComponent<' in q or 'TriangularMap<' in q: made.setdefault(norm_q(q), (f, x))
    c.count('types built by the factory', len(made)); c.count('types bound to the archives', len(bound))
    if not bound: c.skip('R5-registered', 'src/MapFactoryImpl*.cpp', 'no registration found'); 
    for q, (f, x) in sorted(made.items()):
        if 'AffineMap' in q: continue
        c.ob(q in bound, 'R5-registered', f.loc(x.get('l')), '%s built by the factory can be saved and loaded polymorphically' % q[:110], 'type|%s' % short_ty(q))
    # forced dynamic initialisation
    force, reg = {}, {}
    for q in d.by_cq:
        m = re.search(r'dynamic_init_dummy_(\w+)$', q)
        if m: reg.setdefault(m.group(1), d.by_cq[q][0])
    for g in d.globals:
        m = re.search(r'dynamic_init_(\w+)$', g['q'])
        if m: force.setdefault(m.group(1), g)
    for q, l in d.classes.items():
        m = re.search(r'dynamic_init_(\w+)$', q)
        if m and m.group(1) not in ('dummy',): force.setdefault(m.group(1), {'file': l[0]['file'], 'line': l[0]['line']})
    c.count('registered translation units', len(reg)); c.count('forced translation units', len(force))
    for n, f in sorted(reg.items()): c.ob(n in force, 'R5-forced', f.loc(), 'the registrations of %s are forced into every program using the map headers' % n, 'force|%s' % n)

def norm_q(q): return re.sub(r'\s+', '', q).replace('mpart::', '').replace(',cereal::detail::polymorphic_binding_tag', '')
def short_ty(q): return q

# ---- R6: the binding wrappers
def bindings(c, d):
    lam = []
    for f in d.funcs: 
        if '/bindings/' in ('/' + f.file) and not f.dep: lam.append(f)
    whole = {}
    for f in lam:
        defs = bind_defs(f.body)
        for cls, table in defs.items():
            if 'Serialize' in table and 'Deserialize' not in table: whole['Serialize'] = (f, table['Serialize'])
            if 'DeserializeMap' in table: whole['DeserializeMap'] = (f, table['DeserializeMap'])
    if len(whole) == 2:
        (f, a), (g, b) = whole['Serialize'], whole['DeserializeMap']
        mirror(c, d, g, '', 'Serialize/DeserializeMap', a, b)
        flow_names(c, g, a, b)
    else: c.skip('R6-wrappers', 'bindings/python/src/Serialization.cpp', 'Serialize/DeserializeMap not found')
    for f in lam:
        defs = bind_defs(f.body)
        for cls, table in defs.items():
            if 'Serialize' in table and 'Deserialize' in table: mirror(c, d, f, cls, 'Serialize/Deserialize', table['Serialize'], table['Deserialize'])
            if 'ToBytes' in table and 'FromBytes' in table: mirror(c, d, f, cls, 'ToBytes/FromBytes', table['ToBytes'], table['FromBytes'])
            for a, b in table.get('#pickle', []): mirror(c, d, f, cls, 'pickle', a, b)

def bind_defs(body):
    out = {}
    for x in walk(body):
        if x.get('k') != 'call': continue
        nm = x.get('q', '').split('::')[-1]
        if nm in ('def', 'def_static') and x.get('a'):
            s = x['a'][0]
            while isinstance(s, dict) and s.get('k') not in ('str', 'call', 'lam') and isinstance(s.get('e'), dict): s = s['e']
            cls = strip_targs(x.get('q', '')).rsplit('::', 1)[0]
            if isinstance(s, dict) and s.get('k') == 'str':
                l = [a for a in x['a'][1:] if a.get('k') == 'lam' or any(y.get('k') == 'lam' for y in walk(a))]
                if l:
                    lm = [y for y in walk(l[0]) if y.get('k') == 'lam'][0]
                    out.setdefault(cls, {})[s.get('v')] = lm
            for y in walk(x['a'][0]):
                if y.get('k') == 'call' and y.get('q', '').split('::')[-1] == 'pickle':
                    lms = []
                    for a in y['a']:
                        z = [w for w in walk(a) if w.get('k') == 'lam']
                        if z: lms.append(z[0])
                    if len(lms) == 2: out.setdefault(cls, {}).setdefault('#pickle', []).append((lms[0], lms[1]))
    return out

def transfers(n):
    """types archived by a lambda, in order; Save/Load calls count as the polymorphic object"""
    out = []
    order = []
    for x in walk(n):
        if x.get('k') == 'call' or x.get('k') == 'opcall': order.append(x)
    for x in order:
        q = strip_targs(x.get('q', ''))
        if q.endswith('Archive::operator()'):
            for a in x['a']:
                out.append(ty(a))
        elif q.split('::')[-1] in ('save', 'load') and 'cereal' in q: out.append(ty(x['a'][-1]))
        elif q.endswith('ParameterizedFunctionBase::Save') or q.endswith('ParameterizedFunctionBase::Load'): out.append('object')
    return out
def arch_args(n):
    out = []
    for x in walk(n):
        if x.get('k') != 'call': continue
        q = strip_targs(x.get('q', ''))
        if q.endswith('Archive::operator()'): out += x['a']
        elif q.split('::')[-1] in ('save', 'load') and 'cereal' in q: out.append(x['a'][-1])
    return out
def flow_names(c, g, a, b):
    """DeserializeMap returns (inputDim, outputDim, coefficients): each tuple slot holds what was saved from that member"""
    src = []
    for n in arch_args(a):
        m = [x for x in walk(n) if x.get('k') == 'mem']
        f = next((x.get('n') for x in m if x.get('n') in ('inputDim', 'outputDim', 'numCoeffs')), None)
        src.append(f or 'coeffs')
    dst = [lref(n) for n in arch_args(b)]
    ids = {r['id']: s for r, s in zip(dst, src) if r}
    for x in walk(b):
        if x.get('k') == 'call' and x.get('q', '').split('::')[-1] in ('make_tuple', 'tuple'):
            got = []
            for n in x['a']:
                r = next((y for y in walk(n) if y.get('k') == 'ref' and y.get('id') in ids), None)
                got.append(ids.get(r['id']) if r else None)
            if None in got: c.skip('R6-wrappers', g.loc(x.get('l')), 'tuple slot not a loaded value'); return
            c.ob(got == ['inputDim', 'outputDim', 'coeffs'], 'R6-wrappers', g.loc(x.get('l')), 'DeserializeMap returns (%s)' % ', '.join(got), 'DeserializeMap|tuple'); return
    c.skip('R6-wrappers', g.loc(), 'returned tuple not found')
def ty(a):
    while isinstance(a, dict) and a.get('k') in ('cast', 'paren', 'mat') and isinstance(a.get('e'), dict): a = a['e']
    t = norm_ty(a.get('t') or a.get('ret'))
    t = re.sub(r'\bconst\b', '', t).replace(' ', '')
    return t

def mirror(c, d, f, cls, what, a, b):
    A, B = transfers(a), transfers(b)
    A = [re.sub('const', '', x) for x in A]; B = [re.sub('const', '', x) for x in B]
    if not A and not B: c.skip('R6-wrappers', f.loc(a.get('l')), '%s: no archive operation recognised' % what); return
    if any(not x for x in A + B): c.skip('R6-wrappers', f.loc(a.get('l')), '%s: untyped item' % what); return
    c.ob(A == B, 'R6-wrappers', f.loc(b.get('l')), '%s of %s: writes %s, reads %s' % (what, f.cq.split('::')[-1], A, B), '%s|%s' % (f.cq.split('::')[-1], what))
