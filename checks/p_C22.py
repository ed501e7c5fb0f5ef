"""C22: the Python module exposes every bound member under its own name with its own arguments."""
import glob, os, re
from harness import Check
from db import DB, REPO, CheckError, strip_targs, walk
from formal import A, K, E, ONE, ZERO, Models, NoAnswer, Undefined
from absint import Interp, Obj, SObj, Buf, Ptr, View, Vec, Violation, Throw, LV, Opaque, Str, Lam
RULE = ("The module initialiser is interpreted with pybind11 uninterpreted, which yields the registration table: class, Python name, bound entity, keyword names and defaults. Every entity bound under the name of a C++ member (or a Python protocol name) must be that member; "
        "every lambda bound under the name of a member is interpreted and must call that member once on the object with its own arguments in order; factories must pass their arguments to the constructor in order; keyword names and defaults must be those of the C++ "
        "parameters; every option field is readable and writable; the objective and adaptive-training wrappers hand over every entry of their own copies and write the result back.")
# Python protocol names and pythonic aliases -> C++ members which may stand behind them
PROTO = {'__len__': ('Length', 'Size', 'size'), '__getitem__': ('Get', 'at', 'operator[]', 'IndexToMulti'), '__setitem__': ('Set',), '__str__': ('String',), '__repr__': ('String',), '__eq__': ('operator==',), '__ne__': ('operator!=',), '__lt__': ('operator<',),
         '__gt__': ('operator>',), '__le__': ('operator<=',), '__ge__': ('operator>=',), '__iadd__': ('operator+=',), '__call__': ('operator()',), '__copy__': (), '__deepcopy__': (), '__hash__': (), '__init__': (), '__iter__': (), '__contains__': (), '__getstate__': (), '__setstate__': (), '__add__': ('operator+',)}
ALIAS = {('MultiIndex', 'tolist'): 'Vector', ('MultiIndex', 'sum'): 'Sum', ('MultiIndex', 'max'): 'Max', ('MultiIndex', 'count_nonzero'): 'NumNz', ('MultiIndexSet', 'fix'): 'Fix', ('MultiIndexSet', 'union'): 'Union', ('MultiIndexSet', 'append'): 'operator+=',
         ('ParameterizedFunctionBase', 'CoeffMap'): 'CoeffMap', ('MultiIndexSet', '__len__'): 'Length', ('MultiIndexSet', '__getitem__'): 'at', ('FixedMultiIndexSet', '__len__'): 'Length', ('MultiIndex', '__len__'): 'Length', ('MultiIndex', '__getitem__'): 'Get'}
RET = {}
OPTCLS = ('mpart::MapOptions', 'mpart::TrainOptions', 'mpart::ATMOptions')

def targs(t):
    m = t.find('<')
    if m < 0: return []
    out = []; d = 0; cur = ''
    for ch in t[m + 1:t.rindex('>')]:
        if ch in '<(': d += 1
        if ch in '>)': d -= 1
        if ch == ',' and d == 0: out.append(cur.strip()); cur = ''
        else: cur += ch
    if cur.strip(): out.append(cur.strip())
    return out
class Tok:
    """a value the wrapper was given; conversions keep the token"""
    def __init__(s, n, i): s.n = n; s.i = i
    def __repr__(s): return 'Tok(%s)' % s.n
def unwrap(v, I):
    while isinstance(v, LV) or isinstance(v, Obj) and v.cls == 'Eigen::Ref' and v.f.get('#args'): v = I.val(v) if isinstance(v, LV) else v.f['#args'][0]
    return v
def peel(n):
    while isinstance(n, dict) and n.get('k') in ('cast', 'paren'): n = n['e']
    if isinstance(n, dict) and n.get('k') == 'call' and 'overload_cast' in (n.get('cls') or n.get('q') or ''): return peel(n['a'][0])
    if isinstance(n, dict) and n.get('k') in ('ctor',) and len(n.get('a', [])) == 1: return peel(n['a'][0])
    return n
class PI(Interp):
    def mkview(self, c, args, e):
        if args and args[0]['k'] != 'str':
            v = unwrap(self.ex(args[0]), self)
            if isinstance(v, Tok) or isinstance(v, Obj) and 'd' in v.f: return v
        return Interp.mkview(self, c, args, e)
class Entry:
    def __init__(s, **k): s.__dict__.update(k)

def table(db, c):
    """interprets the module initialiser"""
    tab = []
    roots = [f for f in db.funcs if f.body is not None and not f.dep and f.name.startswith('pybind11_init_')]
    if not roots: raise CheckError('module initialiser not found')
    def ent(I, n):
        n = peel(n)
        if n.get('k') == 'ref' and n.get('d') in ('var', 'param', None):
            v = I.val(I.loc(n)); return v if isinstance(v, Lam) else ('entity', v) if isinstance(v, dict) else None
        if n.get('k') == 'un' and n.get('op') == '&': n = peel(n['e'])
        if n.get('k') == 'lam': return I.ex(n)
        if n.get('k') in ('ref', 'mem') and (n.get('q') or n.get('n')): return ('entity', n)
        if n.get('k') == 'call': return ('call', n)
        return None
    def arg(I, n):
        """py::arg("x") [= default]"""
        n0 = n
        while n.get('k') in ('cast', 'paren') or (n.get('k') == 'ctor' and (n.get('cp') or n.get('mv'))): n = n['e'] if 'e' in n else n['a'][0]
        q = n.get('q') or ''
        if n.get('k') == 'call' and q.startswith('pybind11::arg::operator='):
            b = arg(I, n['obj']); return ('arg', b[1], n['a'][0]) if b else None
        if n.get('k') == 'ctor' and n.get('cls') == 'pybind11::arg': return ('arg', str(I.ex(n['a'][0])), None)
        if n.get('k') == 'call' and 'operator""_a' in q.replace(' ', ''): return ('arg', str(I.ex(n['a'][0])), None)
        return None
    def cls(I, short, ob, a, e):
        if ob is None: return Opaque('pybind11 ' + short)
        kind = ob.cls.split('::')[1]
        T = targs(ob.ty or '') if kind in ('class_', 'enum_') else []
        if short in ('def', 'def_static', 'def_readwrite', 'def_readonly', 'def_property', 'def_property_readonly', 'def_readwrite_static', 'def_readonly_static', 'value'):
            ar = list(a); name = None
            if ar and not (peel(ar[0]).get('k') == 'call' and str(peel(ar[0]).get('q')).startswith('pybind11::init')) and not str((peel(ar[0]).get('q') or '')).startswith('pybind11::pickle'):
                try: v = I.val(I.ex(ar[0]))
                except NoAnswer: v = None
                if isinstance(v, str): name = str(v); ar = ar[1:]
            tab.append(Entry(kind=kind, T=T, cls=str(ob.f['#args'][1]) if len(ob.f.get('#args', [])) > 1 and isinstance(ob.f['#args'][1], str) else None, op=short, name=name, ent=ent(I, ar[0]) if ar else None, node=ar[0] if ar else None,
                             args=[x for x in (arg(I, y) for y in ar[1:] if isinstance(y, dict)) if x], where=I.w(e), I=I))
            return ob
        if short in ('export_values', 'attr', 'doc', 'finalize'): return ob
        return ob
    I = PI(db, Models(n=1), budget=400000, opaque={k: cls for k in ('pybind11::class_', 'pybind11::enum_', 'pybind11::module_')}); I.sobj = True
    m = Obj('pybind11::module_'); m.ty = 'pybind11::module_'; m.f['#args'] = []
    for r in roots: I.call_func(r, None, [m])
    return I, tab, roots[0]

def members(db, cq):
    out = {}
    for q in [cq] + db.all_bases(cq):
        for f in db.methods(q): out.setdefault(f.name, []).append(f)
        for k in db.classes.get(q, []):
            for f in k.get('fields', []): out.setdefault(f['n'], [])
            for f in k.get('methods', []): out.setdefault(f['n'], []); RET.setdefault((f['n']), set()).add(f.get('ret', f.get('rt', '')))
    return out

def names(c, db, tab):
    R = 'bound entity is the member of that name'
    for t in tab:
        if t.op == 'value' or t.name is None or t.kind == 'enum_': continue
        if not (isinstance(t.ent, tuple) and t.ent[0] == 'entity'): continue
        n = t.ent[1]; q = strip_targs(n.get('q') or n.get('n') or ''); mem = n.get('n') or q.rsplit('::', 1)[-1]
        mem = strip_targs(mem) if not mem.startswith('operator') else mem
        if t.kind == 'module_':
            want = t.name[1:] if t.name[:1] == 'd' and t.name[1:2].isupper() else t.name
            fs = [f for f in db.funcs if f.name == want and f.cq.startswith('mpart::')] or mem != want and any(u.kind == 'module_' and u.name in (mem, 'd' + mem) for u in tab)
            if mem == want: c.ok(R, t.where, 'function %s' % t.name)
            elif fs: c.bad(R, t.where, 'the Python function %s is bound to %s' % (t.name, q), 'function|' + t.name)
            else: c.count('names without a C++ counterpart')
            continue
        T = strip_targs(t.T[0]); sh = T.rsplit('::', 1)[-1]; ms = members(db, T)
        if n.get('rec') or True:
            owner = q.rsplit('::', 1)[0] if '::' in q else T
        key = '%s|%s' % (sh, t.name)
        want = ALIAS.get((sh, t.name))
        if want and mem == want: c.ok(R, t.where, '%s.%s -> %s' % (sh, t.name, mem)); continue
        if t.name in ms:
            c.ob(mem == t.name, R, t.where, '%s.%s is bound to %s' % (sh, t.name, q), key); continue
        if want and want in ms: c.bad(R, t.where, '%s.%s is bound to %s, not to %s' % (sh, t.name, q, want), key); continue
        if t.name in PROTO:
            if not PROTO[t.name]: continue
            c.ob(mem in PROTO[t.name], R, t.where, '%s.%s is bound to %s' % (sh, t.name, q), key); continue
        if t.name.startswith('__') and t.name.endswith('__'):
            c.bad(R, t.where, '%s.%s: Python has no such protocol, so the operator bound to it (%s) can never be used' % (sh, t.name, q), key); continue
        c.count('names without a C++ counterpart')

def enums(c, db, tab):
    R = 'enumerator of the same name'
    seen = {}
    for t in tab:
        if t.op != 'value': continue
        n = peel(t.node); q = n.get('q') or ''
        T = t.T[0]; E_ = db.enums.get(strip_targs(T), {})
        names_ = [x['n'] if isinstance(x, dict) else x for x in E_.get('vals', E_.get('items', []))]
        seen.setdefault(T, set()).add(t.name)
        if n.get('d') != 'enum': c.skip(R, t.where, '%s.%s is not an enumerator' % (T, t.name)); continue
        c.ob(n['n'] == t.name or (t.name not in names_ and names_), R, t.where, '%s.%s is %s' % (T, t.name, q), '%s|%s' % (T, t.name))

def fields(c, db, tab):
    R = 'every option can be read and set from Python'
    for T in OPTCLS:
        k = db.cls(T)
        if k is None: c.skip(R, T, 'class not found'); continue
        has = [t for t in tab if t.T and strip_targs(t.T[0]) == T]
        if not has: continue
        bound = {t.name for t in has if t.op in ('def_readwrite', 'def_property')}
        ro = {t.name for t in has if t.op in ('def_readonly',)}
        for f in k.get('fields', []):
            if f.get('static') or f.get('acc') in ('private', 'protected'): continue
            if f['n'] in ro: c.bad(R, has[0].where, '%s.%s is read-only in Python' % (T, f['n']), '%s|%s' % (T, f['n']))
            elif f['n'] in bound: c.ok(R, has[0].where, '%s.%s' % (T, f['n']))
            elif not bound: c.skip(R, has[0].where, '%s has no fields bound' % T)
            else: c.bad(R, has[0].where, '%s.%s cannot be set from Python' % (T, f['n']), '%s|%s' % (T, f['n']))

def bases(c, db, tab):
    R = 'bound class lists its bound bases'
    cl = {}
    for t in tab:
        if t.kind == 'class_' and t.T: cl[strip_targs(t.T[0])] = t
    for T, t in sorted(cl.items()):
        listed = {strip_targs(x) for x in t.T[1:]}
        got = set(listed)
        for x in listed: got |= set(db.all_bases(x))
        for b in db.all_bases(T):
            if b in cl: c.ob(b in got, R, t.where, '%s derives from %s' % (T, b), '%s|%s' % (T, b))

def const(I, n):
    """comparable rendering of a default value"""
    n = peel(n)
    while n.get('k') in ('ctor', 'cast') and n.get('a') and len([x for x in n['a'] if x.get('k') != 'dep']) == 1 and not n.get('q', '').startswith('mpart'): n = peel(n['a'][0])
    if n.get('k') in ('int', 'bool', 'flt', 'str', 'chr'): return (('num', float(n['v'])) if n['k'] != 'str' and not isinstance(n['v'], str) else ('val', str(n['v'])))
    if n.get('k') == 'un' and n.get('op') == '-':
        x = const(I, n['e']); return ('num', -x[1]) if x and x[0] == 'num' else None
    if n.get('k') == 'bool' or 'v' in n: return ('num', float(n['v'])) if not isinstance(n['v'], str) else ('val', n['v'])
    if n.get('k') == 'bool': return ('num', 0.0)
    if n.get('k') == 'ctor': return ('obj', strip_targs(n.get('cls') or n.get('t') or ''))
    return None
def norm(t): return re.sub(r'\s+|const|&', '', t).replace('std::__cxx11::', 'std::')
def keywords(c, db, tab):
    R = 'keyword names and defaults are those of the C++ parameters'
    for t in tab:
        if not t.args: continue
        cands = []
        if isinstance(t.ent, tuple) and t.ent[0] == 'entity':
            f = db.callee(t.ent[1].get('u'), None, t.ent[1].get('iu')) if t.ent[1].get('u') else None
            if f is not None: cands = [f]
        elif isinstance(t.ent, tuple) and t.ent[0] == 'call' and str(t.ent[1].get('q')).startswith('pybind11::init') and t.T:
            T = strip_targs(t.T[0]); want = [norm(x) for x in targs(str(t.ent[1].get('rt') or t.ent[1].get('t') or ''))]
            cs = [f for f in db.methods(T) if f.d.get('isctor') and len(f.ps) >= len(t.args)]
            ta = [norm(x) for x in t.ent[1].get('ta', [])] or want
            flat = [norm(y) for x in t.ent[1].get('ta', []) for y in (targs(x) if x.startswith('<') else [x])]
            cands = [f for f in cs if [norm(p['t']) for p in f.ps][:len(flat)] == flat and len(f.ps) >= len(flat)] or [f for f in cs if len(f.ps) == len(t.args)]
        elif isinstance(t.ent, Lam):
            ps = t.ent.node['ps']; off = len(ps) - len(t.args)
            ok = all(p['n'] == a[1] or a[1] not in [x['n'] for x in ps] for p, a in zip(ps[off:], t.args))
            c.ob(ok, R, t.where, '%s: keywords %s for parameters %s' % (t.name, [a[1] for a in t.args], [p['n'] for p in ps]), '%s|keywords' % t.name); continue
        if not cands: c.skip(R, t.where, '%s: C++ signature not found' % t.name); continue
        f = cands[0]; ps = f.ps; nm = [p['n'] for p in ps]; who = '%s.%s' % (strip_targs(t.T[0]).rsplit('::', 1)[-1] if t.T else '', t.name or 'constructor')
        for i, a in enumerate(t.args):
            if i >= len(ps): break
            c.ob(ps[i]['n'] == a[1] or a[1] not in nm, R, t.where, '%s: keyword %s names parameter %d (%s)' % (who, a[1], i, ps[i]['n']), '%s|%s' % (who, a[1]))
            dv = next((g.ps[i].get('dv') for g in cands if i < len(g.ps) and isinstance(g.ps[i].get('dv'), dict)), None)
            if a[2] is not None and dv is not None:
                x, y = const(None, a[2]), const(None, dv)
                if x is None or y is None: c.count('defaults not compared')
                else: c.ob(x == y, R, t.where, '%s: default of %s is %s in Python, %s in C++' % (who, a[1], x[1], y[1]), '%s|%s default' % (who, a[1]))

# ------------------------------------------------------------------ lambdas
CONV = ('ToKokkos', 'MatToKokkos', 'VecToKokkos', 'ToConstKokkos', 'ConstRowMatToKokkos', 'ConstColMatToKokkos', 'ConstVecToKokkos')
def lam_interp(db, log, T):
    def rec(I, short, ob, a, e):
        if ob is None or short in ('operator=',): raise NoAnswer('static ' + short)
        log.append((short, ob, [unwrap(I.ex(x), I) for x in a])); r = Tok('result of ' + short, None); log_res[short] = r; return r
    log_res = {}
    I = PI(db, Models(n=1), budget=60000, opaque={T: rec, 'Eigen::Ref': eig_handler}); I.sobj = True; I.res = log_res
    def conv(I, e, ob, a):
        v = unwrap(I.ex(a[0]), I)
        if isinstance(v, Tok): return v
        return NotImplemented
    for n in CONV: I.hooks[n] = conv
    def moved(I, e, ob, a): return unwrap(I.ex(a[0]), I)
    I.hooks['std::move'] = moved; I.hooks['std::forward'] = moved
    return I
def copies(v, I):
    v = unwrap(v, I)
    return v
def wrappers(c, db, tab):
    R, R2 = 'wrapper calls the member it is named after with its own arguments', 'wrapper returns the result of the member'
    for t in tab:
        if not (isinstance(t.ent, Lam) and t.name and t.kind == 'class_'): continue
        T = strip_targs(t.T[0]); sh = T.rsplit('::', 1)[-1]; ms = members(db, T)
        want = t.name if t.name in ms else ALIAS.get((sh, t.name)) or next((x for x in PROTO.get(t.name, ()) if x in ms), None)
        if want is None or want not in ms or t.name in ('__repr__', '__str__'): continue
        if t.name in ('Serialize', 'Deserialize', 'ToBytes', 'FromBytes'): continue
        node = t.ent.node; log = []
        I = lam_interp(db, log, T)
        o = SObj(T); o.ty = t.T[0]
        ps = node['ps']
        if not ps: continue
        toks = [Tok(p['n'], i) for i, p in enumerate(ps[1:])]
        if sh == 'FixedMultiIndexSet' and want == 'MaxDegrees': fixed_max(c, db, t); continue
        key = '%s|%s' % (sh, t.name)
        try:
            r = I.invoke(Lam(node, t.ent.env, None, t.ent.fn), [o] + toks)
        except (NoAnswer, Undefined) as x: c.skip(R, t.where, '%s.%s: %s' % (sh, t.name, x)); continue
        except (Violation, Throw) as x: c.skip(R, t.where, '%s.%s: %s' % (sh, t.name, x)); continue
        c.count('wrappers interpreted')
        calls = [x for x in log if x[0] in ms and x[0][:1].isupper() or x[0] == want]
        good = len(calls) == 1 and calls[0][0] == want and calls[0][1] is o and len(calls[0][2]) == len(toks) and all(x is y for x, y in zip(calls[0][2], toks))
        c.ob(good, R, t.where, '%s.%s(%s) calls %s' % (sh, t.name, ', '.join(x.n for x in toks), '; '.join('%s(%s)' % (x[0], ', '.join(getattr(y, 'n', '?') for y in x[2])) for x in calls) or 'nothing'), key)
        if good and r is not None:
            r = unwrap(r, I)
            if isinstance(r, Tok): c.ob(r.n == 'result of ' + want, R2, t.where, '%s.%s' % (sh, t.name), key + '|result')

def uvec(I, vals_):
    b = Buf(len(vals_), 'degrees'); b.d = dict(enumerate(vals_)); return View(b, 0, (len(vals_),), (1,))
def eig_handler(I, short, ob, a, e):
    if ob is None: raise NoAnswer('Eigen ' + short)
    if 'd' not in ob.f:
        ar = ob.f.get('#args', [])
        n = next((int(x) for x in ar if isinstance(x, int)), None)
        if n is None: raise NoAnswer('Eigen matrix')
        ob.f['d'] = [None] * n
    d = ob.f['d']
    if short in ('operator()', 'operator[]'):
        i = I.ex(a[0])
        if not isinstance(i, int): raise NoAnswer('index')
        if not 0 <= i < len(d): raise Violation('bounds', 'entry %d of a vector of %d' % (i, len(d)), I.where_)
        return LV(d, i)
    if short in ('rows', 'size'): return len(d)
    if short == 'cols': return 1
    raise NoAnswer('Eigen ' + short)
EIG = {k: eig_handler for k in ('Eigen::Matrix', 'Eigen::MatrixBase', 'Eigen::PlainObjectBase', 'Eigen::DenseCoeffsBase', 'Eigen::EigenBase', 'Eigen::DenseBase')}
def eigvec(vals_):
    o = Obj('Eigen::Matrix'); o.ty = 'Eigen::Matrix<unsigned int, -1, 1>'; o.f = {'d': list(vals_)}; return o

def fixed_max(c, db, t):
    R = 'index set arrays are copied entry by entry'
    for n in (1, 3):
        I = PI(db, Models(n=1), budget=60000, opaque=dict(EIG)); I.sobj = True
        want = [7 + 3 * i for i in range(n)]
        I.hooks['MaxDegrees'] = lambda I, e, ob, a: uvec(I, want)
        o = Obj('mpart::FixedMultiIndexSet'); o.ty = t.T[0]
        try: r = unwrap(I.invoke(Lam(t.ent.node, t.ent.env, None, t.ent.fn), [o]), I)
        except (NoAnswer, Undefined, Throw) as x: c.skip(R, t.where, 'MaxDegrees: %s' % x); continue
        except Violation as x: c.bad(R, x.where, 'MaxDegrees: ' + x.msg, 'MaxDegrees|' + x.kind); continue
        d = r.f.get('d') if isinstance(r, Obj) else None
        if d is None: c.skip(R, t.where, 'MaxDegrees: result not understood'); continue
        c.ob(len(d) == n and all(x is y or x == y for x, y in zip(d, want)), R, t.where, 'MaxDegrees returns the %d degrees' % n, 'MaxDegrees|entries')

def factories(c, db, tab):
    R = 'factory passes every argument to the constructor in order'
    for t in tab:
        if t.kind != 'class_' or t.name is not None or not (isinstance(t.ent, tuple) and t.ent[0] == 'call'): continue
        n = t.ent[1]
        if not str(n.get('q')).startswith('pybind11::init') or not n.get('a'): continue
        lam = peel(n['a'][0])
        if lam.get('k') != 'lam': c.skip(R, t.where, 'factory is not a lambda'); continue
        T = strip_targs(t.T[0]); sh = T.rsplit('::', 1)[-1]
        I = lam_interp(db, [], T); I.opaque.update(EIG)
        ps = lam['ps']; toks = []
        nz = 'Matrix<unsigned' in str([p['t'] for p in ps])
        for i, p in enumerate(ps):
            toks.append(eigvec([100 * i + 7 + k for k in range(2 + i)]) if 'Eigen::Matrix<unsigned' in p['t'] and 'Ref' not in p['t'] else Tok(p['n'], i))
        def conv2(I, e, ob, a):
            v = unwrap(I.ex(a[0]), I)
            return v if isinstance(v, (Tok, Obj)) else NotImplemented
        for x in CONV: I.hooks[x] = conv2
        key = '%s|%s' % (sh, '/'.join(p['n'] for p in ps)); who = '%s(%s)' % (sh, ', '.join(p['n'] for p in ps))
        try: r = unwrap(I.invoke(I_lam(lam, I, t), toks), I)
        except (NoAnswer, Undefined, Throw) as x: c.skip(R, t.where, '%s: %s' % (who, x)); continue
        except Violation as x: c.bad(R, x.where, '%s: %s' % (who, x.msg), key + '|' + x.kind); continue
        ar = r.f.get('#args') if isinstance(r, Obj) else None
        if ar is None: c.skip(R, t.where, who + ': constructed object not understood'); continue
        c.count('factories interpreted')
        ar = [unwrap(x, I) for x in ar]
        good = len(ar) == len(toks); why = 'constructor arguments %s' % [getattr(x, 'n', type(x).__name__) for x in ar]
        for x, y in zip(ar, toks):
            if x is y:
                j = toks.index(y)
                if (isinstance(y, Tok) and 'Eigen' in ps[j]['t']) or (isinstance(y, Obj) and 'd' in y.f):
                    kp = keeps(T, len(ar), ar.index(x)); R3 = 'an object owns the arrays it keeps'
                    if kp in ('yes', 'no'): c.ob(kp == 'no', R3, t.where, '%s: %s%s' % (who, ps[j]['n'], ' is copied by the constructor' if kp == 'no' else ' wraps the memory of a Python argument and is kept after the call'), key + '|kept ' + ps[j]['n'])
                    else: c.skip(R3, t.where, '%s: %s' % (who, kp))
                continue
            if isinstance(x, View) and isinstance(y, Obj) and 'd' in y.f and x.buf is not None:
                v = [x.buf.d.get(x.off + k * x.st[0]) for k in range(x.ext[0])]
                if len(v) == len(y.f['d']) and all(p is q or p == q for p, q in zip(v, y.f['d'])): continue
                why = 'an array is not copied entry by entry'
            good = False
        c.ob(good, R, t.where, '%s: %s' % (who, why), key)
KEEP = ['MultiIndices/FixedMultiIndexSet.cpp', 'AffineMap.cpp', 'AffineFunction.cpp', 'Distributions/GaussianSamplerDensity.cpp', 'ConditionalMapBase.cpp']
_kdb = []
def keepers():
    if not _kdb: _kdb.append(DB([x for x in (REPO + '/src/' + n for n in KEEP) if os.path.exists(x)], max_inst=1, keep_variants=2))
    return _kdb[0]
def keeps(T, nargs, i):
    """whether the constructor of T with nargs parameters stores its i-th (array) argument itself: 'yes', 'no' or a reason why that is not known"""
    from vf import VF, T as Tm, Term
    db = keepers(); r = 'no constructor of %s with %d parameters is in the analysed sources' % (T, nargs)
    for f in db.methods(T, T.rsplit('::', 1)[-1]):
        if not f.d.get('isctor') or len(f.ps) != nargs or f.dep or f.body is None or 'View' not in f.ps[i]['t'] and 'Strided' not in f.ps[i]['t']: continue
        v = VF(db); v.run(f); r = 'no'
        def alias(t):
            while isinstance(t, Term) and t.op in ('copy', 'cast', 'subview', 'ite'):
                if t.op == 'ite':
                    for x in t.a[1:]:
                        if alias(x): return True
                    return False
                t = t.a[-1] if t.op == 'cast' else t.a[0]
            return isinstance(t, Term) and t.op == 'param' and t.a[0] == i
        for k, x in v.store.items():
            if isinstance(k, Term) and k.op == 'fld' and k.a[0].op == 'this' and isinstance(x, Term) and alias(x): return 'yes'
        for e in v.events:
            if e.k == 'write' and e.loc.op == 'fld' and e.loc.a[0].op == 'this' and isinstance(e.val, Term) and alias(e.val): return 'yes'
    return r
def I_lam(node, I, t):
    fr = next(f for f in [t.fn] if f is not None) if getattr(t, 'fn', None) else None
    return Lam(node, {}, None, fr)

# ------------------------------------------------------------------ wrappers with behaviour
def mat(name, r, k):
    b = Buf(r * k, name); b.d = {i * k + j: A('%s[%d,%d]' % (name, i, j)) for i in range(r) for j in range(k)}; return View(b, 0, (r, k), (k, 1))
def vals2(v, I): return [[I.get(LV(v.buf, v.off + i * v.st[0] + j * v.st[1])) for j in range(v.ext[1])] for i in range(v.ext[0])]
def objective(c, db, tab):
    R = 'objective factory hands over its own copy of every sample'
    for t in tab:
        if t.kind != 'module_' or not isinstance(t.ent, Lam) or not t.name or not t.name.endswith('GaussianKLObjective'): continue
        ps = t.ent.node['ps']; two = len(ps) == 3
        if len(ps) not in (2, 3): c.skip(R, t.where, 'unknown signature'); continue
        I = PI(db, Models(n=1), budget=100000, opaque={'Eigen::Ref': eig_handler}); I.sobj = True
        src = {}; got = []
        for i, p in enumerate(ps[:-1]): src[i] = mat(p['n'], 2, 3 + i)
        tk = [Tok(p['n'], i) for i, p in enumerate(ps[:-1])]
        def conv(I, e, ob, a):
            v = unwrap(I.ex(a[0]), I)
            if isinstance(v, Tok): return src[v.i]
            return NotImplemented
        for x in CONV: I.hooks[x] = conv
        def make(I, e, ob, a): got.append([unwrap(I.ex(x), I) for x in a]); return Opaque('objective')
        I.hooks['mpart::ObjectiveFactory::CreateGaussianKLObjective'] = make
        who = t.name + '(%s)' % ', '.join(p['n'] for p in ps)
        want = {i: [row[:] for row in vals2(v, I)] for i, v in src.items()}
        try: I.invoke(Lam(t.ent.node, t.ent.env, None, t.ent.fn), tk + [7])
        except (NoAnswer, Undefined, Throw) as x: c.skip(R, t.where, '%s: %s' % (who, x)); continue
        except Violation as x: c.bad(R, x.where, '%s: %s' % (who, x.msg), who + '|' + x.kind); continue
        if len(got) != 1: c.bad(R, t.where, who + ': the objective is not created exactly once', who + '|created'); continue
        a = got[0]
        vs = [x for x in a if isinstance(x, View)]; ds = [x for x in a if isinstance(x, int)]
        c.ob(len(vs) == len(src) and ds[-1:] == [7], R, t.where, who + ': every set of samples and the dimension are passed on', who + '|arguments')
        if len(vs) != len(src): continue
        for i, v in enumerate(vs):
            w = want[i]
            same = v.buf is not None and tuple(v.ext) == (len(w), len(w[0]))
            if same:
                try: g = vals2(v, I); same = all(g[x][y] is w[x][y] or g[x][y] == w[x][y] for x in range(len(w)) for y in range(len(w[0])))
                except (Undefined, NoAnswer, Violation): same = False
            c.ob(same, R, t.where, '%s: %s holds every entry of %s' % (who, ('first', 'second')[i], ps[i]['n']), '%s|%s entries' % (who, ps[i]['n']))
            c.ob(all(v.buf is not s.buf for s in src.values()), R, t.where, '%s: %s does not alias the Python array' % (who, ps[i]['n']), '%s|%s alias' % (who, ps[i]['n']))

def adaptive(c, db, tab):
    R = 'adaptive training works on the given index sets and writes them back'
    for t in tab:
        if t.kind != 'module_' or not t.name or t.name != 'TrainMapAdaptive': continue
        if not (isinstance(t.ent, tuple) and t.ent[0] == 'entity'): 
            if not isinstance(t.ent, Lam): c.skip(R, t.where, 'wrapper not understood'); continue
        fn = None
        if isinstance(t.ent, tuple):
            n = t.ent[1]; fn = db.callee(n.get('u'), None, n.get('iu')) if n.get('u') else None
            if fn is None or fn.body is None: c.skip(R, t.where, 'wrapper not found'); continue
            if 'bindings' not in fn.file: c.count('direct binding of TrainMapAdaptive'); continue
        for k in (1, 3):
            I = PI(db, Models(n=1), budget=60000, opaque={'mpart::ATMOptions': eig_handler}); I.sobj = True
            sets = []
            for i in range(k):
                o = SObj('mpart::MultiIndexSet'); o.ty = 'mpart::MultiIndexSet'; o.f = {'terms': A('set%d' % i)}; sets.append(o)
            mset = Vec(sets, 'std::vector<std::shared_ptr<mpart::MultiIndexSet>>')
            obj, opt = Tok('objective', 0), Tok('options', 1); got = []
            def train(I, e, ob, a):
                ar = [unwrap(I.loc(x) if x['k'] in ('ref', 'mem') else I.ex(x), I) for x in a]; v = ar[0]
                if not isinstance(v, Vec): raise NoAnswer('index sets argument')
                got.append(([x.f.get('terms') for x in v.v], [x for x in v.v], ar[1:]))
                for i, x in enumerate(v.v): x.f['terms'] = A('final%d' % i)
                return Tok('map', None)
            I.hooks['mpart::TrainMapAdaptive'] = train
            def assign(I, e, ob, a): I.set(ob, I.copyval(I.ex(a[0]))); return ob
            I.hooks['mpart::MultiIndexSet::operator='] = assign
            try:
                r = I.call_func(fn, None, [mset, obj, opt]) if fn is not None else I.invoke(t.ent, [mset, obj, opt])
            except (NoAnswer, Undefined, Throw) as x: c.skip(R, t.where, str(x)); continue
            except Violation as x: c.bad(R, x.where, x.msg, 'TrainMapAdaptive|' + x.kind); continue
            w = fn.loc() if fn is not None else t.where
            c.ob(len(got) == 1 and [str(x) for x in got[0][0]] == [str(A('set%d' % i)) for i in range(k)] and got[0][2][:1] == [obj] and got[0][2][1:2] == [opt], R, w, '%d sets, the objective and the options are passed on' % k, 'TrainMapAdaptive|arguments')
            c.ob([str(s.f.get('terms')) for s in sets] == [str(A('final%d' % i)) for i in range(k)], R, w, 'the %d index sets the caller holds are the enlarged ones' % k, 'TrainMapAdaptive|write back')
            r = unwrap(r, I)
            c.ob(isinstance(r, Tok) and r.n == 'map', R, w, 'returns the trained map', 'TrainMapAdaptive|result')

def called(c, db, I, root):
    R = 'every binding function is run by the module'
    for f in db.funcs:
        if f.dep or f.body is None or 'bindings/python/src' not in f.file or '/lambda' in f.q: continue
        if f is root or not f.ps or len(f.ps) != 1 or 'pybind11::module_ &' not in f.ps[0]['t'] or not f.name.endswith('Wrapper') and 'Wrapper' not in f.name: continue
        c.ob(f.u in I.calls, R, f.loc(), '%s is called by the module initialiser' % f.name, f.name)

def selftests(c):
    c.selftest('template argument splitting', targs('pybind11::class_<A<B, C>, D, std::shared_ptr<A<B, C>>>') == ['A<B, C>', 'D', 'std::shared_ptr<A<B, C>>'])

def check():
    c = Check('C22', RULE)
    tus = sorted(glob.glob(REPO + '/bindings/python/src/*.cpp'))
    if not tus: raise CheckError('no Python bindings')
    tus += [x for x in (REPO + '/src/' + n for n in ('ComposedMap.cpp', 'TriangularMap.cpp', 'MultiIndices/MultiIndexSet.cpp')) if os.path.exists(x)]
    db = DB(tus, max_inst=3, keep_variants=3)
    I, tab, root = table(db, c)
    for t in tab: t.fn = root
    c.count('registrations', len(tab)); c.count('translation units', len(tus))
    names(c, db, tab); enums(c, db, tab); fields(c, db, tab); bases(c, db, tab); keywords(c, db, tab)
    wrappers(c, db, tab); factories(c, db, tab); objective(c, db, tab); adaptive(c, db, tab); called(c, db, I, root)
    selftests(c)
    c.need('bound entity is the member of that name', 40); c.need('enumerator of the same name', 4); c.need('every option can be read and set from Python', 12)
    c.need('wrapper calls the member it is named after with its own arguments', 4)
    c.assume('pybind11 calls the entity it was given under the name it was given, and converts arguments as its documentation says')
    return c
