"""C17: the root search behind the inverse.  FindBracket and InverseSingleBracket are interpreted with the function uninterpreted: each
evaluation at a new point is partitioned by where the value of a strictly increasing function can lie relative to the target and
the tolerance (far below, within the tolerance, equal, ..., or nearly flat); positions and values stay exact rationals."""
import os, math
from fractions import Fraction as Q
from harness import Check
from db import DB, CheckError
import formal as F
from formal import Models, NoAnswer, K, E
from absint import Interp, Fn, LV, Violation, Throw
import kern

RULE = ("FindBracket, InverseSingleBracket and what they call, interpreted with an uninterpreted strictly increasing function; the values it "
        "returns are partitioned by their order relative to the target, the tolerance and the values already seen. On each trace: end "
        "points and values of the bracket belong together and enclose the target, failures are reported exactly when no bracket was "
        "found, the search evaluates only inside the bracket, stops only when a tolerance is met or the limit (abstracted to a small "
        "number) is reached, which info reports, and halves fast enough.")
N = 'mpart::RootFinding::'
class Bad(Exception): pass
class Stop(Exception): pass
def q(v):
    if isinstance(v, E):
        if v.op == 'k': return v.a[0]
        if v.op == 'nan': return None
        raise NoAnswer('value %s is not exact' % F.sh(v))
    if isinstance(v, (int, Q)): return Q(v)
    raise NoAnswer('value %r' % (v,))

class Oracle:
    """an uninterpreted strictly increasing function: the class of each new value is taken from a script"""
    def __init__(s, yd, tol, script, force, flat=False, slope=None, most=400):
        s.yd = yd; s.tol = tol; s.script = list(script); s.n = 0; s.width = []; s.f = {}; s.order = []; s.force = force; s.flat = flat; s.slope = slope; s.most = most
    def options(s, x):
        lo = max((p for p in s.f if p < x), default=None); hi = min((p for p in s.f if p > x), default=None)
        ya = s.f[lo] if lo is not None else None; yb = s.f[hi] if hi is not None else None
        if s.slope is not None: return [('linear', s.slope(x))]
        cuts = [s.yd - s.tol, s.yd, s.yd + s.tol]; out = []
        def between(n, l, h):
            l = max([v for v in (l, ya) if v is not None], default=None); h = min([v for v in (h, yb) if v is not None], default=None)
            if l is not None and h is not None:
                if l < h: out.append((n, (l + h) / 2))
            elif l is None: out.append((n, h - 1 - (abs(x - hi) if hi is not None else 0)))
            else: out.append((n, l + 1 + (abs(x - lo) if lo is not None else 0)))
        between('far below', None, cuts[0])
        if s.tol: between('just below', cuts[0], cuts[1])
        if (ya is None or ya < s.yd) and (yb is None or yb > s.yd): out.append(('equal', s.yd))
        if s.tol: between('just above', cuts[1], cuts[2])
        between('far above', cuts[2], None)
        if s.flat and s.f:
            e = Q(1, 10 ** 15) * abs(x - (lo if lo is not None else hi))
            y = ya + e if ya is not None else yb - e
            if (ya is None or ya < y) and (yb is None or y < yb): out.append(('flat', y))
        return out
    def __call__(s, I, a):
        x = q(I.real(I.val(a[0])))
        if x is None: raise Bad('the function is evaluated at a NaN')
        if len(s.order) >= s.most: raise Bad('more than %d evaluations' % s.most)
        if x not in s.f:
            o = s.options(x); i = 0
            if s.n >= s.force[0]: o = [ch for ch in o if s.force[1](ch, s)][:1] or o[-1:]
            if s.n < len(s.script): i = s.script[s.n]
            else: s.script.append(0)
            s.width.append(len(o)); s.n += 1; s.f[x] = o[i][1]; s.names = getattr(s, 'names', []) + [o[i][0]]
        s.order.append(x)
        return K(s.f[x])
    def next(s):
        w, sc = s.width, s.script[:s.n]
        while sc and sc[-1] + 1 >= w[len(sc) - 1]: sc.pop()
        if not sc: return None
        sc[-1] += 1; return sc

class RI(Interp):
    limit = None
    def cut(self, v):
        if self.limit is not None and isinstance(v, int) and not isinstance(v, bool) and v >= 1000 and self.frames and self.frames[-1]['fn'] is not None and '::RootFinding::' in (self.frames[-1]['fn'].cq or ''): return self.limit
        return v
    def x_int(self, e): return self.cut(e['v'])
    def x_ref(self, e): return self.cut(e['cv']) if 'cv' in e and e['d'] not in ('enum', 'func') else Interp.x_ref(self, e)

def check():
    c = Check('C17', RULE); d = DB(kern.TUS); thorough = os.environ.get('VERIF_TIER') == 'thorough'
    def fn(name, k):
        fs = [g for g in d.find(N + name) if g.body is not None and not g.dep and len(g.ps) == k]
        if not fs: raise CheckError('%s not found' % name)
        return fs[0]
    FB, IS = fn('FindBracket', 7), fn('InverseSingleBracket', 6)
    loc = lambda g: '%s:%d (%s)' % (g.file, g.line, g.cq)
    def interp(limit=None):
        I = RI(d, Models(n=1), budget=4000000); I.limit = limit
        def h(f): return lambda I, e, ob, a: f(*[q(I.real(I.val(I.ex(x)))) for x in a])
        def wrap(f):
            def g(*v):
                if any(x is None for x in v):
                    w = [x for x in v if x is not None]
                    return K(w[0]) if len(v) == 2 and w else E('nan')
                return K(f(*v))
            return g
        def lg(x):
            if x <= 0: raise Bad('logarithm of %g (no bracket, or an empty one)' % float(x))
            n = 0
            k = x
            while k >= 2: k /= 2; n += 1
            while k < 1: k *= 2; n -= 1
            return Q(n) if k == 1 else n + Q(math.log2(float(k)))
        def pw(x, y):
            if y.denominator != 1 or x == 0 and y < 0: raise NoAnswer('power %s' % y)
            r = x ** int(y)
            return r if r.denominator.bit_length() < 400 or abs(r) < Q(1, 1 << 200) else Q(round(r * (1 << 300)), 1 << 300)
        for n, f in (('pow', pw), ('log', lambda x: Q(math.log(x)) if x > 0 else lg(x)), ('fmin', min), ('fmax', max), ('fabs', abs), ('abs', abs), ('log2', lg)): I.hooks[n] = h(wrap(f))
        return I
    def call(I, g, orc, args):
        I.steps = 0; fo = Fn(lambda I, a: orc(I, a), 'f'); I.opaque = {}
        return I.call_func(g, None, [a if a is not F else fo for a in args])
    def explore(rule, g, key, mk, judge, run, cap=20000):
        """all scripts of one case"""
        sc = []; n = 0
        while sc is not None:
            o = mk(sc); n += 1
            if n > cap: raise CheckError('too many traces in ' + key)
            try: judge(o, run(o)); c.count('traces')
            except (Bad, Violation) as x:
                c.bad(rule, loc(g), '%s; values %s at %s: %s' % (key, ', '.join(getattr(o, 'names', [])), ', '.join('%g' % float(v) for v in o.order[:14]), x), g.name + ' ' + key.split(',')[0]); return
            except Throw as x: c.bad(rule, loc(g), '%s: throws %s' % (key, x), g.name); return
            except (NoAnswer, F.Undefined) as x: c.skip(rule, loc(g), '%s: %s' % (key, x)); return
            sc = o.next()
        c.ok(rule, loc(g), '%s: %d traces' % (key, n)); c.count('cases')
    # -- bracket
    r1 = 'a bracket encloses the target'
    def slow(o):
        p = sorted(o.f)
        return any(b - a > 10 and abs(o.f[b] - o.f[a]) / (b - a) < Q(1, 10 ** 12) for i, a in enumerate(p) for b in p[i + 1:])
    def runB(x0, yd, x1=None):
        def f(o):
            I = interp(); cells = [LV([K(x0)], 0), LV([K(0)], 0), LV([K(x0 if x1 is None else x1)], 0), LV([K(0)], 0)]; info = LV([77], 0)
            call(I, FB, o, [F] + cells + [K(yd), info])
            return [q(I.real(I.val(v))) for v in cells] + [int(I.val(info))]
        return f
    def judgeB(fails=True):
        def j(o, res):
            xl, yl, xu, yu, info = res; yd = o.yd
            if info == 0:
                for x, y, nm in ((xl, yl, 'lower'), (xu, yu, 'upper')):
                    if x not in o.f: raise Bad('the function was never evaluated at the %s end point %g' % (nm, float(x)))
                    if o.f[x] != y: raise Bad('the value returned for the %s end point %g is not the value of the function there' % (nm, float(x)))
                if not yl <= yd <= yu: raise Bad('success, but the target %g is not between the values %g and %g' % (float(yd), float(yl), float(yu)))
                if not xl < xu: raise Bad('the bracket [%g, %g] is empty' % (float(xl), float(xu)))
            else:
                if info > 0: raise Bad('info is %d' % info)
                if info == -1 and not slow(o): raise Bad('reported flat (info -1), but the function is not flat')
                if info not in (-1,) and len(o.order) < 100: raise Bad('reported the iteration limit (info %d) after %d evaluations' % (info, len(o.order)))
        return j
    for x0, yd in ((Q(0), Q(2)), (Q(-3), Q(1, 2)), (Q(5), Q(-7))):
        def force(ch, o):
            up = o.f[o.order[0]] <= o.yd
            return ch[0] == ('far above' if up else 'far below')
        explore(r1, FB, 'start %s, target %s' % (x0, yd), lambda sc: Oracle(yd, Q(0), sc, (6 if not thorough else 8, force), flat=True), judgeB(), runB(x0, yd))
    for x0, x1, yd in ((Q(0), Q(3), Q(2)), (Q(-4), Q(-3), Q(1))):
        explore(r1, FB, 'starts %s and %s, target %s' % (x0, x1, yd), lambda sc: Oracle(yd, Q(0), sc, (5, force), flat=False), judgeB(), runB(x0, yd, x1))
    for root in (Q(10) ** 30, -Q(10) ** 30, Q(700), Q(-700)):
        def mk(sc, root=root): return Oracle(Q(1), Q(0), sc, (0, lambda ch, o: True), slope=lambda x: x - root + 1)
        def j(o, res):
            judgeB()(o, res)
            if res[4] != 0: raise Bad('no bracket is found for a root at distance %g (info %d)' % (abs(float(root)), res[4]))
        explore(r1, FB, 'linear function with its root at %g' % float(root), mk, j, runB(Q(0), Q(1)))
    for s in (1, -1):
        def mk(sc, s=s): return Oracle(Q(s) * Q(10) ** 60, Q(0), sc, (0, lambda ch, o: True), slope=lambda x: x)
        def j(o, res):
            if res[4] >= 0: raise Bad('no bracket can be found, but info is %d' % res[4])
        explore(r1, FB, 'root out of reach (%s side)' % ('upper' if s > 0 else 'lower'), mk, j, runB(Q(0), Q(s) * Q(10) ** 60))
    # -- search
    r2 = 'the search stays in the bracket and stops within tolerance'
    def runS(x0, yd, xtol, ftol, limit=None):
        def f(o):
            I = interp(limit); info = LV([77], 0)
            r = call(I, IS, o, [K(yd), F, K(x0), K(xtol), K(ftol), info])
            return q(I.real(I.val(r))), int(I.val(info))
        return f
    def split(o):
        """the evaluations that search for the bracket, and the bracket"""
        lo = hi = None
        for i, x in enumerate(o.order):
            y = o.f[x]
            if y <= o.yd and (lo is None or x > lo): lo = x
            if y > o.yd and (hi is None or x < hi): hi = x
            if lo is not None and hi is not None: return i, lo, hi
            if y == o.yd and i and hi is None: pass
        return None
    def judgeS(xtol, ftol, limit=None):
        def j(o, res):
            v, info = res; yd = o.yd
            b = split(o)
            le = [x for x in o.f if o.f[x] <= yd]; ge = [x for x in o.f if o.f[x] >= yd]
            if v is None:
                if info >= 0: raise Bad('a NaN is returned with info %d' % info)
                if le and ge and not slow(o): raise Bad('a NaN is returned although a bracket was seen')
                return
            if not le or not ge: raise Bad('%g is returned although no bracket was seen' % float(v))
            if b is not None:
                i, lo, hi = b
                for x in o.order[i + 1:]:
                    if not lo <= x <= hi: raise Bad('the function is evaluated at %g, outside the bracket [%g, %g]' % (float(x), float(lo), float(hi)))
                    y = o.f[x]
                    if y < yd and x > lo: lo = x
                    if y > yd and x < hi: hi = x
                n = max(0, math.ceil(math.log2(float((b[2] - b[1]) / xtol)))) + 4 if xtol else 10 ** 9
                if limit is None and len(o.order) - i - 1 > n: raise Bad('%d evaluations to reduce a bracket of width %g to %g' % (len(o.order) - i - 1, float(b[2] - b[1]), float(xtol)))
            lo, hi = max([x for x in le if x <= v], default=None), min([x for x in ge if x >= v], default=None)
            if lo is None or hi is None: lo, hi = max(le), min(ge)
            if not lo <= v <= hi and not (v in o.f and abs(o.f[v] - yd) < ftol): raise Bad('%g is returned, outside the bracket [%g, %g]' % (float(v), float(lo), float(hi)))
            done = v in o.f and abs(o.f[v] - yd) <= ftol or hi - lo <= xtol or o.f[hi] - o.f[lo] <= ftol
            if info == 0 and not done: raise Bad('success with %g: bracket [%g, %g], values %g and %g, tolerances %g and %g' % tuple(float(z) for z in (v, lo, hi, o.f[lo], o.f[hi], xtol, ftol)))
            if info != 0 and done and limit is None: raise Bad('info is %d although a tolerance is met' % info)
            if info > 0: raise Bad('info is %d' % info)
        return j
    for x0, yd, xtol, ftol in ((Q(0), Q(2), Q(1, 8), Q(1, 100)), (Q(3), Q(100), Q(1, 4), Q(1, 1000)), (Q(-1), Q(-50), Q(1, 8), Q(1, 2)), (Q(2), Q(0), Q(1, 16), Q(0)), (Q(1), Q(5), Q(3), Q(1, 100))):
        def force(ch, o):
            b = split(o)
            if b is not None: return True
            if not o.order: return True
            up = o.f[o.order[0]] <= o.yd
            return ch[0] == ('far above' if up else 'far below')
        def force2(ch, o):
            if split(o) is not None: return ch[0] in ('far below', 'far above')
            return force(ch, o)
        explore(r2, IS, 'start %s, target %s, tolerances %s and %s' % (x0, yd, xtol, ftol), lambda sc: Oracle(yd, ftol, sc, (8 if thorough else 6, force2), most=40), judgeS(xtol, ftol), runS(x0, yd, xtol, ftol))
    for w in ('far below', 'far above'):
        def first(ch, o, w=w):
            if split(o) is not None: return ch[0] == w
            up = not o.order or o.f[o.order[0]] <= o.yd
            return ch[0] == ('far below' if not o.order else 'far above' if up else 'far below')
        def mk(sc, first=first): return Oracle(Q(20), Q(0), sc, (0, first), most=60)
        explore(r2, IS, 'one-sided values (%s), limit abstracted' % w, mk, judgeS(Q(1, 2 ** 40), Q(0)), runS(Q(0), Q(20), Q(1, 2 ** 40), Q(0)))
        def j(o, res):
            judgeS(Q(1, 2 ** 40), Q(0), 9)(o, res)
            if res[1] >= 0: raise Bad('the iteration limit ended the search, but info is %d' % res[1])
        explore(r2, IS, 'iteration limit (%s)' % w, mk, j, runS(Q(0), Q(20), Q(1, 2 ** 40), Q(0), 9))
    for s in (1, -1):
        def mk(sc, s=s): return Oracle(Q(s) * Q(10) ** 60, Q(0), sc, (0, lambda ch, o: True), slope=lambda x: x)
        def j(o, res):
            if res[0] is not None or res[1] != -2: raise Bad('no bracket exists, but %s is returned with info %d' % (res[0], res[1]))
        explore(r2, IS, 'root out of reach (%s side)' % ('upper' if s > 0 else 'lower'), mk, j, runS(Q(0), Q(s) * Q(10) ** 60, Q(1, 100), Q(1, 100)))
    def caught(res, mkres=judgeB()):
        o = Oracle(Q(1), Q(0), [], (0, None)); o.f = {Q(0): Q(0), Q(1): Q(2)}; o.order = [Q(0), Q(1)]
        try: mkres(o, res); return False
        except Bad: return True
    c.selftest('swapped values are a violation', caught([Q(0), Q(2), Q(1), Q(0), 0]))
    c.selftest('a correct bracket is not', not caught([Q(0), Q(0), Q(1), Q(2), 0]))
    c.selftest('a wide bracket is not a success', caught((Q(1, 2), 0), judgeS(Q(1, 8), Q(0))))
    c.assume('the function is strictly increasing (C90 is not decided); rounding is not considered; the limit of iterations in the search is replaced by a small number')
    c.need(r1, 3); c.need(r2, 3)
    return c
