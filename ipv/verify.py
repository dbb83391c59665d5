"""verification jobs: one job = one function of /repo under one contract case"""
import z3, time, traceback, os, sys, multiprocessing as mp, signal
from engine import *
import engine
from exe import *
import exe
from loops import LoopExec
import models as M
import ir


class V:
    """what a contract sees"""

    def __init__(self, mod, models, rep):
        self.mod = mod
        self.ex = LoopExec(mod, models, rep)
        self.st = State()
        self.pre = None

    # -- building the pre-state
    def obj(self, cls, name, lazy=True, tag=None, **f):
        b = Block(name, 'rec', cls=cls, lazy=lazy, tag=tag)
        self.st.add(b)
        p = Ptr(name)
        for k, v in f.items():
            self.set(self.st, p, k, v)
        return p

    def arr(self, name, n, S=8, ty='double', body=None, tag=None):
        b = Block(name, 'arr', S=S, n=n, lazy=True, tag=tag)
        if body is not None:
            b.fields[0] = body
        else:
            b.fields[0] = z3.Function(name + '[]', IntS, sort_of(ty))(J)
        self.st.add(b)
        return Ptr(name)

    def cell(self, name, v):
        """one variable passed by reference"""
        b = Block(name, 'rec')
        b.cells[0] = v
        self.st.add(b)
        return Ptr(name)

    def string(self, name, val=None):
        """a std::string object"""
        b = Block(name, 'rec', cls='std::__cxx11::basic_string', lazy=True)
        self.st.add(b)
        M.setstr(self.ex, self.st, Ptr(name), z3.String(name) if val is None else z3.StringVal(val))
        return Ptr(name)

    def fields(self, p, prefix='', only=None):
        """give every scalar data member of the object behind p a symbolic value; returns name -> value"""
        b = self.st.wb(p.b)
        out = {}
        sizes = {'double': RealS, 'ipnumber': RealS, 'ipindex': IntS, 'Ipopt::Number': RealS, 'bool': BoolS, 'Ipopt::Index': IntS, 'int': IntS, 'unsigned int': IntS}

        def rec(c, o):
            d = self.mod.classes.get(c)
            if not d or 'm' not in d:
                return
            for n, mo, s, t in d['m']:
                if n.startswith('_vptr') or (only and n not in only):
                    continue
                t = t.replace('const ', '')
                srt = sizes.get(t)
                if srt is None:
                    if t.endswith('*') or not self.mod.classes.get(t, {}).get('enum'):
                        continue
                    srt = IntS
                v = z3.Const('%s%s.%s' % (prefix, p.b, n), srt)
                b.cells[o + mo] = v
                out[n] = v
                en = self.mod.classes.get(t, {}).get('enum')
                if en:
                    self.st.assume(z3.Or([v == k for k in en.values()]))
            for bb, bo, vv in d['b']:
                rec(bb, o + bo)
        rec(b.cls, p.c)
        return out

    def real(self, n):
        return z3.Real(n)

    def int(self, n):
        return z3.Int(n)

    def bool(self, n):
        return z3.Bool(n)

    def nullable(self, p, cond):
        return Ptr(p.b, p.c, p.t, cond)

    def assume(self, c):
        self.st.assume(c)

    def off(self, cls, field):
        return self.mod.fieldoff(cls, field)[0]

    def set(self, st, p, field, v):
        b = st.wb(p.b)
        b.cells[p.c + self.off(b.cls, field)] = v

    def get(self, st, p, field, ty=None):
        b = st.mem[p.b]
        o, t = self.mod.fieldoff(b.cls, field)
        v = b.cells.get(p.c + o)
        if v is None:
            if ty is None:
                ty = {'bool': 'i1', 'Ipopt::Number': 'double', 'double': 'double', 'ipnumber': 'double', 'Ipopt::Index': 'i32', 'int': 'i32'}.get(t.replace('const ', ''), 'i32')
                if t.endswith('*'):
                    ty = 'ptr'
            v = self.ex.symcell(st, b, p.c + o, ty)
        return v

    def body(self, st, p, ty='double'):
        """content of array block as function of index"""
        b = st.mem[p.b]
        v = b.fields.get(0)
        if v is None:
            v = self.ex.symfield(st, b, 0, ty)
        return lambda j: z3.simplify(z3.substitute(v, (J, j)))

    # -- judging the post-state
    def ensure(self, st, goal, label):
        return self.ex.require(st, goal, label, kind='post')

    def induct(self, st, P, n, label, lo=0):
        """prove P(lo) and P(k) => P(k+1) for lo<=k<n, then assume P(n) (n>=lo)"""
        ok = self.ex.require(st.fork(), P(iv(lo)), label + ' (base)', kind='lemma')
        k = self.skolem('ind')
        s2 = st.fork()
        s2.assume(z3.And(k >= lo, k < n))
        s2.assume(P(k))
        ax = fold_axioms([P(k + 1)], 1)
        for a in ax:
            s2.assume(a)
        self.ex.require(s2, P(k + 1), label + ' (step)', kind='lemma')
        st.assume(z3.Implies(n >= lo, P(n)))

    def skolem(self, n='j'):
        return z3.Int('$sk_%s%d' % (n, next(engine._uid)))

    def frame(self, st, allowed, label='frame: nothing else is modified'):
        """allowed: set of (block id, key) with key '*' / field offset / ('f',off) / ('g',name)"""
        for bid, b0 in self.pre.mem.items():
            b1 = st.mem.get(bid)
            if b1 is b0:
                continue
            if (bid, '*') in allowed:
                continue
            if not b1.live and b0.live:
                if (bid, 'release') in allowed:
                    continue
                self.ensure(st, FALSE, label + ': %s is released' % bid)
                continue
            for kind, d0, d1 in (('c', b0.cells, b1.cells), ('f', b0.fields, b1.fields), ('g', b0.ghost, b1.ghost)):
                for k, x in d1.items():
                    y = d0.get(k)
                    if x is y:
                        continue
                    kk = k if kind == 'c' else (kind, k)
                    if (bid, kk) in allowed:
                        continue
                    lab = label + ' (%s %s)' % (bid, self.cellname(b0, k) if kind == 'c' else k)
                    if y is None:
                        if isz(x):
                            ty = {'Real': 'double', 'Bool': 'i1'}.get(str(x.sort()), 'i32')
                            y = z3.Const('%s.%s$' % (b0.id, k), M.STR) if x.sort() == M.STR and kind == 'c' else self.ex.symcell(st, b0, k, ty) if kind == 'c' else self.ex.symfield(st, b0, k, ty)
                    if isz(x) and isz(y):
                        if kind != 'c':
                            j = self.skolem()
                            x = z3.substitute(x, (J, j))
                            y = z3.substitute(y, (J, j))
                        if x.sort() != y.sort():
                            x, y = as_int(x), as_int(y)
                        self.ensure(st, x == y, lab)
                    elif isinstance(x, Ptr) and isinstance(y, Ptr):
                        self.ensure(st, self.ex.pcmp(st, 'eq', x, y), lab)
                    elif isinstance(x, FamVal) and isinstance(y, FamVal) and x.p.key() == y.p.key():
                        pass
                    else:
                        self.ensure(st, FALSE, lab)

    def cellname(self, b, off):
        if b.cls and b.cls in self.mod.classes:
            def rec(c, o):
                d = self.mod.classes.get(c)
                if not d or 'm' not in d:
                    return None
                for n, mo, s, t in d['m']:
                    if mo <= off - o < mo + max(s, 1):
                        return n
                for bb, bo, v in d['b']:
                    r = rec(bb, o + bo)
                    if r:
                        return r
            return rec(b.cls, 0) or off
        return off


class Job:
    def __init__(self, name, fn, setup, post, models=None, budget=120, merge=False, replay=None, throws=None, srcs=None, cover=True, inv=None):
        self.inv = inv
        self.name, self.fn, self.setup, self.post = name, fn, setup, post
        self.models, self.budget, self.merge, self.replay = models, budget, merge, replay
        self.throws = throws
        self.cover = cover


class Result:
    def __init__(self):
        self.error = None
        self.obls = []
        self.wall = 0


def run_job(mod, rep, base, job):
    t0 = time.time()
    r = {'job': job.name, 'fn': None, 'error': None, 'obls': [], 'outs': 0, 'reached': 0, 'blocks': 0}
    q0, qt0 = engine.STATS.q, engine.STATS.t
    v = V(mod, job.models or base, rep)
    ex = v.ex
    ex.merge_on = job.merge
    ex.invs, ex.vv = job.inv, v
    ex.deadline = t0 + job.budget
    try:
        fn = mod.one(job.fn) if isinstance(job.fn, str) else job.fn(mod)
        r['fn'] = fn.dem
        ex.top = fn.dem
        args = job.setup(v)
        v.pre = v.st.fork()
        # vacuity guard: the precondition must be satisfiable
        rr, _ = engine._check([c for c in v.st.pc], 5000)
        if rr == z3.unsat:
            raise Unsupported('vacuous precondition in ' + job.name)
        r['pre'] = str(rr)
        st = v.st.fork()
        outs = ex.run_function(fn, st, args)
        r['outs'] = len(outs)
        for kind, s, val in outs:
            ex.line = (fn.file, fn.line)
            job.post(v, kind, s, val)
        r['blocks'] = len(fn.blocks)
        r['reached'] = len([1 for f, b in ex.reached if f == fn.name])
        if not outs:
            # a function without outcome proves nothing
            r['error'] = 'no outcome'
    except Unsupported as e:
        r['error'] = 'unsupported: %s' % e
        r['where'] = str(ex.line)
    except ir.ExtractError as e:
        r['error'] = 'extract: %s' % e
    except Infeasible:
        r['error'] = 'infeasible'
    except RecursionError:
        r['error'] = 'unsupported: recursion'
    except Exception as e:
        r['error'] = 'internal: %s: %s' % (type(e).__name__, e)
        r['tb'] = traceback.format_exc()
        r['where'] = str(ex.line)
    for o in ex.obls:
        d = {'label': o.label, 'kind': o.kind, 'status': o.status, 'backend': o.backend, 'line': o.line, 't': round(o.t or 0, 3)}
        if o.status != 'proved':
            d['goal'] = str(o.goal)[:3000]
            d['facts'] = [str(f)[:400] for f in (o.facts or [])][:60]
            if o.model is not None:
                try:
                    d['model'] = str(o.model)[:4000]
                    d['mdict'] = model_dict(o.model)
                except Exception:
                    pass
        r['obls'].append(d)
    r['inlined'] = sorted(ex.inlined)
    r['models'] = sorted(ex.used_models)
    r['wall'] = time.time() - t0
    r['queries'] = engine.STATS.q - q0
    r['solver_s'] = engine.STATS.t - qt0
    r['loops'] = ex.loops
    r['lemmas'] = ex.prover.lemmas_proved
    return r


def model_dict(m):
    d = {}
    for x in m.decls():
        if x.arity() == 0:
            d[x.name()] = str(m[x])
    return d


_G = {}


def _child(n):
    mod, rep, base, jobs = _G['a']
    job = jobs[n]

    def onalarm(*a):
        raise Unsupported('time budget of the function exceeded')
    signal.signal(signal.SIGALRM, onalarm)
    signal.alarm(int(job.budget) + 20)
    try:
        return n, run_job(mod, getattr(job, 'rep', None) or rep, base, job)
    except BaseException as e:
        return n, {'job': job.name, 'fn': None, 'error': 'unsupported: %s' % e, 'obls': [], 'inlined': [], 'models': [], 'wall': 0, 'queries': 0, 'solver_s': 0, 'outs': 0, 'loops': 0, 'lemmas': 0}
    finally:
        signal.alarm(0)


def run_jobs(mod, rep, base, jobs, procs=8, verbose=False, total=None):
    _G['a'] = (mod, rep, base, jobs)
    res = [None] * len(jobs)
    sys.setrecursionlimit(20000)
    if procs == 1:
        for n in range(len(jobs)):
            res[n] = _child(n)[1]
            if verbose:
                show(res[n])
        return res
    t0 = time.time()
    with mp.get_context('fork').Pool(procs, maxtasksperchild=1) as pool:
        it = pool.imap_unordered(_child, range(len(jobs)), 1)
        for _ in jobs:
            try:
                n, r = it.next(None if total is None else max(1, total - (time.time() - t0)))
            except mp.TimeoutError:
                break
            res[n] = r
            if verbose:
                show(r)
    return res


def show(r, detail=True):
    st = {}
    for o in r['obls']:
        st[o['status']] = st.get(o['status'], 0) + 1
    print('%-58s %s outs=%d %.1fs q=%d %s' % (r['job'], st, r['outs'], r['wall'], r['queries'], ('ERROR ' + r['error'] + ' at ' + str(r.get('where'))) if r['error'] else ''), flush=True)
    if detail:
        if r.get('tb'):
            print(r['tb'])
        for o in r['obls']:
            if o['status'] != 'proved':
                print('    FAILED [%s] %s line %s %.1fs' % (o['status'], o['label'], o['line'], o['t']))
                if os.environ.get('IPV_V'):
                    print('      goal:', o['goal'])
                    for f in o['facts']:
                        print('      fact:', f)
                    print('      model:', o.get('model'))
