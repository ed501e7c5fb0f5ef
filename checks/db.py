"""Program database: the resolved program of /repo's current sources.

Every load re-parses the translation units (clang front end, via
build/mpart-extract) from the working tree; nothing is cached between runs."""
import functools
import json, os, subprocess, sys, tempfile, shutil, glob, re
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
TOOL = os.path.join(VERIF, 'build', 'mpart-extract')

sys.setrecursionlimit(20000)

BASE_FLAGS = ['-DKOKKOS_DEPENDENCE', '-DMPART_HAS_CEREAL', '-DMPART_HAS_NLOPT', '-DNLOPT_DLL',
              '-I' + REPO, '-isystem', '/usr/include/eigen3', '-DKOKKOS_ENABLE_CXX17',
              '-std=gnu++17', '-fPIC', '-fopenmp', '-isystem', os.path.join(VERIF, 'tool', 'include'),
              '-resource-dir', '/usr/lib/llvm-18/lib/clang/18', '-w']
PY_FLAGS = ['-I' + REPO + '/bindings/python/include', '-I' + REPO + '/bindings/common/include',
            '-isystem', '/usr/include/python3.12']


class CheckError(Exception):
    """The check cannot give an answer (neither held nor violated)."""


@functools.lru_cache(None)
def strip_targs(q):
    """mpart::X<A<B>>::f -> mpart::X::f (balanced; leaves operator< alone)."""
    if '<' not in q:
        return q
    out, depth, i, n = [], 0, 0, len(q)
    while i < n:
        if depth == 0 and q.startswith('operator', i):
            m = re.match(r'operator\s*(<<=|>>=|<=>|->\*|->|<<|>>|<=|>=|<|>|\(\)|\[\])', q[i:])
            if m:
                out.append(m.group(0)); i += m.end(); continue
        c = q[i]
        if c == '<': depth += 1
        elif c == '>': depth -= 1
        elif depth == 0: out.append(c)
        i += 1
    return ''.join(out)


def src_tus():
    out = sorted(glob.glob(REPO + '/src/**/*.cpp', recursive=True))
    return out

def py_tus():
    out = sorted(glob.glob(REPO + '/bindings/python/src/*.cpp')) + sorted(glob.glob(REPO + '/bindings/common/src/*.cpp'))
    return out


class Func:
    __slots__ = ('d', 'u', 'iu', 'q', 'cq', 'name', 'cls', 'ccls', 'file', 'line', 'ps', 'body', 'tu', 'dep', 'inst')
    def __init__(self, d, tu):
        self.d = d; self.u = d['u']; self.iu = d['iu']; self.q = d['q']; self.cq = strip_targs(d['q'])
        self.name = self.cq.rsplit('::', 1)[-1]
        self.cls = d.get('cls'); self.ccls = strip_targs(self.cls) if self.cls else None
        self.file = d['file']; self.line = d['line']; self.ps = d['ps']; self.body = d['body']
        self.tu = tu; self.dep = bool(d.get('dep')); self.inst = bool(d.get('inst'))
    def __repr__(self): return '<%s %s:%d>' % (self.cq, self.file, self.line)
    def loc(self, line=None): return '%s:%d' % (self.file, line or self.line)


def _resolve_types(n, types):
    stack = [n]
    while stack:
        x = stack.pop()
        if isinstance(x, dict):
            for k, v in x.items():
                if k in ('t', 'ret', 'rt', 'nt', 'at', 'clst', 'tn', 'base') and isinstance(v, int) and not isinstance(v, bool):
                    x[k] = types[v] if v >= 0 else ''
                elif k == 'pt':
                    x[k] = [types[i] if i >= 0 else '' for i in v]
                elif k == 'u' or k == 'n' or k == 'l' or k == 'k':
                    pass
                elif isinstance(v, (dict, list)):
                    stack.append(v)
        else:
            for v in x:
                if isinstance(v, (dict, list)): stack.append(v)


class DB:
    def __init__(self, tus=None, max_inst=1, keep_variants=2):
        if not os.path.exists(TOOL):
            subprocess.check_call([os.path.join(VERIF, 'tool', 'build.sh')])
        self.funcs = []            # selected functions (one record per pattern+variant)
        self.by_u = {}             # pattern usr -> [Func]
        self.classes = {}          # clean qualified name -> [class dicts]
        self.enums = {}
        self.globals = []
        self.tus = tus if tus is not None else src_tus()
        missing = [t for t in self.tus if not os.path.exists(t)]
        if missing:
            raise CheckError('translation units missing: %s' % missing)
        tmp = tempfile.mkdtemp(prefix='mpart-ir-')
        try:
            with ThreadPoolExecutor(max_workers=min(8, os.cpu_count() or 4)) as ex:
                outs = list(ex.map(lambda a: self._run(a[0], a[1], tmp, max_inst), enumerate(self.tus)))
            for tu, o in zip(self.tus, outs):
                with open(o) as f: d = json.load(f)
                if d['err']:
                    raise CheckError('clang could not parse %s' % tu)
                self._add(d, tu, keep_variants)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
        self._index()

    @staticmethod
    def _run(i, tu, tmp, max_inst):
        o = os.path.join(tmp, '%d.json' % i)
        fl = list(BASE_FLAGS)
        if '/bindings/' in tu: fl += PY_FLAGS
        p = subprocess.run([TOOL, '--root', REPO, '--out', o, '--max-inst', str(max_inst), tu, '--'] + fl,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0 or not os.path.exists(o):
            raise CheckError('front end failed on %s:\n%s' % (tu, p.stdout[-2000:]))
        return o

    def _add(self, d, tu, keep):
        types = d['types']
        for key in ('funcs', 'classes', 'enums', 'globals'):
            _ = key
        for fd in d['funcs']:
            lst = self.by_u.setdefault(fd['u'], [])
            dep = bool(fd.get('dep'))
            if any(f.iu == fd['iu'] for f in lst): continue
            if dep and lst: continue
            if not dep:
                nd = [f for f in lst if not f.dep]
                if len(nd) >= keep: continue
                if len(nd) != len(lst): lst[:] = nd
            _resolve_types(fd, types)
            lst.append(Func(fd, tu))
        for c in d['classes']:
            q = strip_targs(c['q'])
            lst = self.classes.setdefault(q, [])
            if any(x['tn'] == types[c['tn']] for x in lst): continue
            if len(lst) >= 6 and not c.get('dep'): continue
            _resolve_types(c, types); c['cq'] = q; lst.append(c)
        for e in d['enums']: self.enums[strip_targs(e['q'])] = e
        seen = {(g['q'], g['file'], g['line'], g.get('tu')) for g in self.globals}
        for g in d['globals']:
            _resolve_types(g, types); g['tu'] = tu
            if (g['q'], g['file'], g['line'], tu) not in seen: self.globals.append(g)

    def _index(self):
        self.funcs = [f for l in self.by_u.values() for f in l]
        self.by_cq = {}
        for f in self.funcs: self.by_cq.setdefault(f.cq, []).append(f)
        self.by_cls = {}
        for f in self.funcs:
            if f.ccls: self.by_cls.setdefault(f.ccls, []).append(f)
        # class hierarchy on clean names
        self.bases = {}; self.derived = {}
        for q, l in self.classes.items():
            for c in l:
                for b in c['bases']:
                    bq = strip_targs(b.get('q') or b['t'])
                    self.bases.setdefault(q, set()).add(bq)
                    self.derived.setdefault(bq, set()).add(q)
        # overriders: base usr -> [Func]
        self.overriders = {}
        for f in self.funcs:
            for o in f.d.get('ov', []): self.overriders.setdefault(o, []).append(f)

    def cls(self, q):
        """A class record, preferring a full instantiation."""
        l = self.classes.get(q)
        if not l: return None
        for c in l:
            if not c.get('dep'): return c
        return l[0]

    def all_bases(self, q):
        out, todo = [], [q]
        while todo:
            x = todo.pop(0)
            for b in sorted(self.bases.get(x, ())):
                if b not in out: out.append(b); todo.append(b)
        return out

    def all_derived(self, q):
        out, todo = [], [q]
        while todo:
            x = todo.pop(0)
            for b in sorted(self.derived.get(x, ())):
                if b not in out: out.append(b); todo.append(b)
        return out

    def methods(self, cq, name=None):
        return [f for f in self.by_cls.get(cq, []) if name is None or f.name == name]

    def find(self, cq):
        """Functions with this clean qualified name; instantiations/concrete first."""
        l = self.by_cq.get(cq, [])
        c = [f for f in l if not f.dep]
        return c or l

    def callee(self, u, prefer_tu=None, iu=None):
        l = self.by_u.get(u)
        if iu and iu != u:
            x = [f for f in self.by_u.get(iu, ()) if not f.dep]   # explicit specialisation
            if x: return x[0]
        if not l: return None
        if iu:
            for f in l:
                if f.iu == iu and not f.dep: return f
        if prefer_tu:
            for f in l:
                if f.tu == prefer_tu and not f.dep: return f
        for f in l:
            if not f.dep: return f
        return l[0]


def walk(n):
    """Pre-order over every dict node of a subtree."""
    stack = [n]
    while stack:
        x = stack.pop()
        if isinstance(x, dict):
            yield x
            for v in reversed(list(x.values())):
                if isinstance(v, (dict, list)): stack.append(v)
        elif isinstance(x, list):
            for v in reversed(x):
                if isinstance(v, (dict, list)): stack.append(v)
