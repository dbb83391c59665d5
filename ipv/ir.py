"""Compile /repo sources to LLVM IR and load the dump (see tools/irdump.cpp)."""
import os, subprocess, json, hashlib, sys, fcntl
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('IPV_REPO', '/repo')
BUILD = os.environ.get('IPV_BUILD', os.path.join(VERIF, 'build'))
CLANG = '/usr/bin/clang++-18'
OPT = '/usr/lib/llvm-18/bin/opt'
SRC = os.path.join(REPO, 'src')
INCDIRS = ['Common', 'LinAlg', 'LinAlg/TMatrices', 'Algorithm', 'Algorithm/LinearSolvers', 'Interfaces', 'contrib/CGPenalty']
CFLAGS = ['-std=c++17', '-O1', '-Xclang', '-disable-llvm-passes', '-g', '-fstandalone-debug', '-ffp-contract=off',
          '-DNDEBUG', '-DHAVE_CONFIG_H', '-DIPOPTLIB_BUILD', '-w']
PASSES = 'sroa,simplifycfg,loop-simplify'


def incs():
    return ['-I' + os.path.join(VERIF, 'config')] + ['-I' + os.path.join(SRC, d) for d in INCDIRS]


class ExtractError(Exception):
    pass


def ensure_tool():
    t = os.path.join(BUILD, 'irdump')
    src = os.path.join(VERIF, 'tools', 'irdump.cpp')
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, '.lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        h = hashlib.sha256(open(src, 'rb').read()).hexdigest()
        st = t + '.sha'
        if not (os.path.exists(t) and os.path.exists(st) and open(st).read() == h):
            r = subprocess.run([os.path.join(VERIF, 'tools', 'build.sh'), t], capture_output=True, text=True)
            if r.returncode:
                raise ExtractError('cannot build irdump: ' + r.stderr[-2000:])
            open(st, 'w').write(h)
    return t


def _one(args):
    tool, src, outdir = args
    path = src if os.path.isabs(src) else os.path.join(SRC, src)
    base = os.path.join(outdir, os.path.basename(path).replace('.cpp', ''))
    if not os.path.exists(path):
        return src, None, 'missing ' + path
    r = subprocess.run([CLANG] + CFLAGS + incs() + ['-emit-llvm', '-c', path, '-o', base + '.bc'], capture_output=True, text=True)
    if r.returncode:
        return src, None, r.stderr[-3000:]
    r = subprocess.run([OPT, '-passes=' + PASSES, base + '.bc', '-o', base + '.o.bc'], capture_output=True, text=True)
    if r.returncode:
        return src, None, r.stderr[-3000:]
    with open(base + '.json', 'w') as f:
        r = subprocess.run([tool, base + '.o.bc'], stdout=f, stderr=subprocess.PIPE, text=True)
    if r.returncode:
        return src, None, r.stderr[-3000:]
    return src, base + '.json', None


class Fn:
    __slots__ = ('name', 'dem', 'args', 'ret', 'blocks', 'loops', 'mod', 'line', 'file', 'loopof', 'vnames', 'headers', 'rpo')

    def __init__(self, name, d, mod):
        self.name, self.dem, self.mod = name, d['d'], mod
        self.args, self.ret, self.blocks = d['args'], d['ret'], d['b']
        self.line, self.file = d.get('line'), d.get('file')
        self.loops = d['loops']
        self.headers = {}
        for l in self.loops:
            self.headers[l['h']] = l
            l['set'] = frozenset(l['bs'])
        self.vnames = {}
        for b in self.blocks:
            for i in b:
                if i['o'] == 'dbg' and i['a'][0][0] == 'v':
                    self.vnames.setdefault(i['a'][0][1], i['n'])
        self.rpo = self._rpo()

    def succs(self, b):
        t = self.blocks[b][-1]
        if t['o'] == 'br':
            return t['s']
        if t['o'] == 'switch':
            return [t['def']] + [c[1] for c in t['cases']]
        if t['o'] == 'invoke':
            return [t['nd'], t['ud']]
        return []

    def _rpo(self):
        seen, order = set(), []
        stack = [(0, iter(self.succs(0)))]
        seen.add(0)
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(self.succs(s))))
                    break
            else:
                order.append(b)
                stack.pop()
        order.reverse()
        return {b: i for i, b in enumerate(order)}


class Module:
    """all loaded translation units"""

    def __init__(self):
        self.funcs = {}
        self.tus = {}
        self.classes = {}
        self.dem = {}
        self.globals = {}
        self.vslots = {}

    def load(self, name, d):
        self.tus[name] = d
        for n, f in d['funcs'].items():
            key = (name, n) if f['internal'] else n
            if key not in self.funcs:
                self.funcs[key] = (f, name)
            self.dem[n] = f['d']
        for n, dm in d['decls'].items():
            self.dem.setdefault(n, dm)
        for c, v in d['classes'].items():
            if c not in self.classes or len(v.get('m', ())) > len(self.classes[c].get('m', ())):
                self.classes[c] = v
        for g, v in d['globals'].items():
            if 'i' in v and not g.startswith('.'):
                self.globals.setdefault(g, (v, name))

    def getfn(self, name, tu=None):
        for k in ((tu, name), name):
            v = self.funcs.get(k)
            if v is not None:
                if isinstance(v, tuple):
                    v = Fn(name, v[0], v[1])
                    self.funcs[k] = v
                return v
        return None

    def find(self, pat):
        """functions whose demangled name starts with pat( or equals pat"""
        r = []
        for k, v in list(self.funcs.items()):
            n = k[1] if isinstance(k, tuple) else k
            dm = self.dem[n]
            if dm == pat or dm.startswith(pat + '('):
                r.append(self.getfn(n, k[0] if isinstance(k, tuple) else None))
        return r

    def one(self, pat):
        r = self.find(pat)
        # constructors appear as C1/C2: prefer C2 (base object) body
        if len(r) > 1:
            c2 = [f for f in r if 'C2E' in f.name or 'D2E' in f.name]
            if len(c2) == 1:
                return c2[0]
        if len(r) != 1:
            raise ExtractError('%d functions match %r: %s' % (len(r), pat, [f.dem for f in r][:5]))
        return r[0]

    def fieldoff(self, cls, field):
        """offset, type name of (possibly inherited, possibly dotted) field"""
        off = 0
        ty = cls
        for part in field.split('.'):
            o, t = self._f1(ty, part)
            off += o
            ty = t
        return off, ty

    def _f1(self, cls, field):
        cls = cls.replace('const ', '')
        c = self.classes.get(cls)
        if c is None:
            raise ExtractError('no layout for class ' + cls)
        for n, o, s, t in c['m']:
            if n == field:
                return o, t
        for b, o, v in c['b']:
            if b in self.classes:
                try:
                    oo, t = self._f1(b, field)
                    return o + oo, t
                except ExtractError:
                    pass
        raise ExtractError('no field %s in %s' % (field, cls))

    def baseoff(self, cls, base):
        if cls == base:
            return 0
        for b, o, v in self.classes.get(cls, {}).get('b', []):
            r = self.baseoff(b, base)
            if r is not None:
                return o + r
        return None

    def enum(self, name):
        return self.classes[name]['enum']


def load_sources(srcs, outdir=None):
    tool = ensure_tool()
    own = outdir is None
    if own:
        outdir = os.path.join(BUILD, 'ir.%d' % os.getpid())
    os.makedirs(outdir, exist_ok=True)
    m = Module()
    try:
        with ThreadPoolExecutor(8) as ex:
            for src, js, err in ex.map(_one, [(tool, s, outdir) for s in srcs]):
                if err:
                    raise ExtractError('%s: %s' % (src, err))
                m.load(os.path.basename(src), json.load(open(js)))
    finally:
        if own:
            import shutil
            shutil.rmtree(outdir, ignore_errors=True)
    return m
