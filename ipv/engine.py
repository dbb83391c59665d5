"""ipv: a deductive verifier for LLVM IR generated from /repo's C++ sources.

Values      : z3 terms (Bool / Int / Real / Str), Ptr, FnV, Agg, UNDEF
Memory      : blocks.  'rec' blocks hold cells at constant byte offsets, 'arr' blocks hold, per field of the
              element type, a z3 term over the canonical index variable $J.  Blocks of abstract objects carry
              ghost terms over $J (and over $I for families of objects).
Loops       : the state after k iterations is characterised exactly: induction variables and map-like array
              writes get closed forms, everything else becomes a recursive function (Fold) of k.
"""
import z3, re, itertools, time, sys
from fractions import Fraction

IntS, RealS, BoolS = z3.IntSort(), z3.RealSort(), z3.BoolSort()
StrS = z3.DeclareSort('Str')
J = z3.Int('$J')
I_ = z3.Int('$I')
TRUE, FALSE = z3.BoolVal(True), z3.BoolVal(False)
INF = z3.Real('INF')
NAN = z3.Real('NAN')
_uid = itertools.count(1)


class Unsupported(Exception):
    """the code is outside the reach of the verifier (never a violation)"""


class Infeasible(Exception):
    pass


def isz(v):
    return isinstance(v, z3.ExprRef)


def simp(e):
    return z3.simplify(e)


def iv(n):
    return z3.IntVal(n)


def rv(x):
    if isinstance(x, float):
        return z3.RealVal(str(Fraction(x)))
    return z3.RealVal(str(x))


class Ptr:
    __slots__ = ('b', 'c', 't', 'nul')

    def __init__(self, b, c=0, t=(), nul=None):
        self.b, self.c, self.t, self.nul = b, c, t, nul

    def add(self, c, terms=()):
        if not terms:
            return Ptr(self.b, self.c + c, self.t, self.nul)
        cc = self.c + c
        d = {}
        order = []
        for s, e in tuple(self.t) + tuple(terms):
            e = z3.simplify(e) if isz(e) else iv(e)
            if z3.is_int_value(e):
                cc += s * e.as_long()
                continue
            if s in d:
                d[s] = d[s] + e
            else:
                d[s] = e
                order.append(s)
        ts = []
        for s in order:
            e = z3.simplify(d[s])
            # pull the constant out of the index term
            if z3.is_int_value(e):
                cc += s * e.as_long()
            else:
                k, e2 = split_const(e)
                cc += s * k
                ts.append((s, e2))
        return Ptr(self.b, cc, tuple(ts), self.nul)

    def offset(self):
        r = iv(self.c)
        for s, e in self.t:
            r = r + s * e
        return z3.simplify(r)

    def key(self):
        return (self.b, self.c, tuple((s, e.get_id()) for s, e in self.t), None if self.nul is None else self.nul.get_id())

    def __repr__(self):
        return 'Ptr(%s+%s%s%s)' % (self.b, self.c, ''.join('+%d*[%s]' % x for x in self.t), '' if self.nul is None else ' null?%s' % self.nul)


NULL = Ptr(None)


def split_const(e):
    """e = k + rest (e simplified)"""
    if z3.is_app_of(e, z3.Z3_OP_ADD):
        ch = e.children()
        if z3.is_int_value(ch[0]):
            rest = ch[1] if len(ch) == 2 else z3.Sum(ch[1:])
            return ch[0].as_long(), rest
    return 0, e


class FnV:
    __slots__ = ('name', 'tu')

    def __init__(self, name, tu=None):
        self.name, self.tu = name, tu

    def __repr__(self):
        return 'Fn(%s)' % self.name


class VMeth:
    """virtual method of an abstract object: (class, method key, full demangled representative)"""
    __slots__ = ('cls', 'meth', 'dem')

    def __init__(self, cls, meth, dem):
        self.cls, self.meth, self.dem = cls, meth, dem


class Agg:
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = list(v)


class _Undef:
    def __repr__(self):
        return 'UNDEF'


UNDEF = _Undef()


class _Poison:
    def __repr__(self):
        return 'POISON'


POISON = _Poison()


class FamVal:
    """contents of an array of pointers: element j is Ptr(b, c, terms with $J := j)"""
    __slots__ = ('p',)

    def __init__(self, p):
        self.p = p

    def sel(self, idx):
        p = self.p
        nul = None if p.nul is None else z3.simplify(z3.substitute(p.nul, (J, idx)))
        q = Ptr(p.b, p.c, (), nul)
        return q.add(0, tuple((s, z3.substitute(e, (J, idx))) for s, e in p.t))


class Block:
    __slots__ = ('id', 'kind', 'cls', 'cells', 'S', 'n', 'fields', 'ghost', 'live', 'lazy', 'init', 'tag', 'heap')

    def __init__(self, id, kind, cls=None, S=None, n=None, lazy=False, init=None, tag=None):
        self.id, self.kind, self.cls = id, kind, cls
        self.cells = {}
        self.fields = {}
        self.ghost = {}
        self.S, self.n = S, n
        self.live = True
        self.lazy = lazy
        self.init = init
        self.tag = tag
        self.heap = False

    def copy(self):
        b = Block.__new__(Block)
        for s in Block.__slots__:
            setattr(b, s, getattr(self, s))
        b.cells = dict(self.cells)
        b.fields = dict(self.fields)
        b.ghost = dict(self.ghost)
        return b


class State:
    __slots__ = ('mem', 'pc', 'own', 'loopctx', 'trace', 'allocs', 'gh')

    def __init__(self):
        self.mem = {}
        self.pc = []
        self.own = set()
        self.loopctx = ()
        self.trace = ()
        self.gh = {}

    def fork(self):
        s = State()
        s.mem = dict(self.mem)
        s.pc = list(self.pc)
        s.own = set()
        self.own = set()
        s.loopctx = self.loopctx
        s.trace = self.trace
        s.gh = dict(self.gh)
        return s

    def assume(self, c):
        if z3.is_true(c):
            return
        self.pc.append(c)

    def rb(self, bid):
        return self.mem[bid]

    def wb(self, bid):
        b = self.mem[bid]
        if bid not in self.own:
            b = b.copy()
            self.mem[bid] = b
            self.own.add(bid)
        return b

    def add(self, blk):
        self.mem[blk.id] = blk
        self.own.add(blk.id)
        return blk

    def fresh(self, name, sort):
        n = '%s!%d' % (name, next(_uid))
        if not self.loopctx:
            return z3.Const(n, sort)
        f = z3.Function(n, *([IntS] * len(self.loopctx) + [sort]))
        return f(*self.loopctx)


# ---------------------------------------------------------------- folds

class Fold:
    """F_v(params, 0) = init_v ; F_v(params, k+1) = step_v(accs := F(params,k), k)"""
    table = {}      # decl name -> (Fold, component)
    bykey = {}

    def __init__(self, params, k, accs, inits, steps, hint=''):
        self.params, self.k, self.accs, self.inits, self.steps = params, k, accs, inits, steps
        self.id = next(_uid)
        self.decls = []
        for n, a in enumerate(accs):
            nm = '$F%d.%d%s' % (self.id, n, hint)
            d = z3.Function(nm, *([p.sort() for p in params] + [IntS, a.sort()]))
            Fold.table[nm] = (self, n)
            self.decls.append(d)

    def app(self, n, args, k):
        return self.decls[n](*(list(args) + [k]))

    def inst(self, e, args, k=None, accv=None):
        sub = list(zip(self.params, args))
        if k is not None:
            sub.append((self.k, k))
        if accv is not None:
            sub += list(zip(self.accs, accv))
        return z3.substitute(e, *sub)


_fvc = {}


def free_vars(e):
    """uninterpreted constants of e whose name starts with $"""
    i = e.get_id()
    r = _fvc.get(i)
    if r is not None:
        return r[1]
    out = {}
    seen = set()
    st = [e]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            st.append(x.body())
            continue
        if z3.is_app(x):
            if x.num_args() == 0:
                if x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name().startswith('$'):
                    out[x.decl().name()] = x
            else:
                st.extend(x.children())
    _fvc[i] = (e, out)
    return out


def all_symbols(e):
    """names of all uninterpreted symbols in e; folds are expanded"""
    out = set()
    seen = set()
    st = [e]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            st.append(x.body())
            continue
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                nm = x.decl().name()
                out.add(nm)
                f = Fold.table.get(nm)
                if f:
                    st.extend(f[0].inits)
                    st.extend(f[0].steps)
            st.extend(x.children())
    return out


def header_values(e):
    out, seen, st = [], set(), [e]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            st.append(x.body())
        elif z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name().startswith('H!') and x.sort() in (z3.IntSort(), z3.RealSort(), z3.BoolSort()) and not any(z3.is_var(y) for y in x.children()):
                out.append(x)
            else:
                st.extend(x.children())
    return out


def make_fold(k, accs, inits, steps, hint=''):
    """accs/k are z3 constants used in steps.  Returns (fold, args)"""
    inits = [z3.simplify(x) for x in inits]
    steps = [z3.simplify(x) for x in steps]
    pv = {}
    back = []
    # initial values are parameters, so that a fold does not depend on what it starts from
    for i, x in enumerate(inits):
        if not z3.is_const(x):
            c = z3.Const('$ini%d_%s' % (i, x.sort()), x.sort())
            back.append((c, x))
            inits[i] = c
    own = {k.decl().name()} | {a.decl().name() for a in accs}
    # so are values of an enclosing loop that are not known yet
    hs = {}
    for e in inits + steps:
        for x in header_values(e):
            if x.get_id() not in hs and not own & set(free_vars(x)):
                hs[x.get_id()] = (x, z3.Const('$hv%d_%s' % (len(hs), x.sort()), x.sort()))
    if hs:
        inits = [z3.substitute(e, *hs.values()) for e in inits]
        steps = [z3.substitute(e, *hs.values()) for e in steps]
        back = back + [(c, x) for x, c in hs.values()]
    for e in inits + steps:
        for n, x in free_vars(e).items():
            if n not in own:
                pv[n] = x
    names = sorted(pv)
    params = [pv[n] for n in names]
    # canonicalise bound names
    cp = [z3.Const('$P%d_%s' % (i, p.sort()), p.sort()) for i, p in enumerate(params)]
    ca = [z3.Const('$A%d_%s' % (i, a.sort()), a.sort()) for i, a in enumerate(accs)]
    ck = z3.Int('$K')
    sub = list(zip(params, cp)) + list(zip(accs, ca)) + [(k, ck)]
    ci = [z3.simplify(z3.substitute(x, *sub)) for x in inits]
    cs = [z3.simplify(z3.substitute(x, *sub)) for x in steps]
    key = (tuple(x.get_id() for x in ci), tuple(x.get_id() for x in cs), tuple(str(p.sort()) for p in cp))
    f = Fold.bykey.get(key)
    if f is None:
        f = Fold(cp, ck, ca, ci, cs, hint)
        Fold.bykey[key] = f
    return f, [z3.substitute(x, *back) for x in params] if back else params


def fold1(init, stepf, count, hint=''):
    """spec-side fold: acc := init; for k in [0,count): acc := stepf(acc, k)"""
    k = z3.Int('$sk%d' % next(_uid))
    a = z3.Const('$sa%d_%s' % (next(_uid), init.sort()), init.sort())
    f, args = make_fold(k, [a], [init], [stepf(a, k)], hint)
    return f.app(0, args, count)


def Sum(n, body, init=None):
    return fold1(rv(0) if init is None else init, lambda a, k: a + body(k), n, 's')


def find_folds(exprs):
    """fold applications (without bound de-Bruijn variables) in exprs"""
    out = {}
    seen = set()
    st = list(exprs)
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(x):
            continue
        if z3.is_app(x):
            if x.num_args():
                if x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name() in Fold.table:
                    out[i] = x
                st.extend(x.children())
    return list(out.values())


# ---------------------------------------------------------------- solving

class Stats:
    def __init__(self):
        self.q = 0
        self.t = 0.0
        self.by = {}


STATS = Stats()
TIMEOUT = 4000


def _check(cs, timeout, tactic=None):
    s = z3.Solver() if tactic is None else z3.Tactic(tactic).solver()
    s.set('timeout', timeout)
    for c in cs:
        s.add(c)
    t = time.time()
    r = s.check()
    STATS.q += 1
    STATS.t += time.time() - t
    return r, s


def fold_axioms(exprs, depth=2):
    ax = []
    done = {}
    frontier = list(exprs)
    for d in range(depth):
        new = []
        for a in find_folds(frontier):
            if a.get_id() in done:
                continue
            done[a.get_id()] = a
            f, n = Fold.table[a.decl().name()]
            args = a.children()
            pa, K = args[:-1], args[-1]
            km1 = z3.simplify(K - 1)
            ax0 = z3.Implies(K <= 0, a == f.inst(f.inits[n], pa))
            prev = [f.app(m, pa, km1) for m in range(len(f.accs))]
            st = f.inst(f.steps[n], pa, km1, prev)
            ax1 = z3.Implies(K >= 1, a == st)
            ax0, ax1 = z3.simplify(ax0), z3.simplify(ax1)
            ax.append(ax0)
            ax.append(ax1)
            new += [ax0, ax1]
        frontier = new
        if not new:
            break
    return ax


class Prover:
    def __init__(self, timeout=None):
        self.timeout = timeout or TIMEOUT
        self.lemcache = {}
        self.keep = []
        self.lemmas_proved = 0

    def feasible(self, facts):
        qf = [f for f in facts if not has_quant(f)]
        r, _ = _check(qf, 1000)
        return r != z3.unsat

    def prove(self, facts, goal, depth=0, want_model=False, timeout=None, light=False):
        """-> ('proved'|'refuted'|'unknown', model or None)"""
        goal = z3.simplify(goal)
        if z3.is_true(goal):
            return 'proved', None
        if z3.is_and(goal):
            for g in goal.children():
                r, m = self.prove(facts, g, depth, want_model, timeout, light)
                if r != 'proved':
                    return r, m
            return 'proved', None
        timeout = timeout or self.timeout
        ng = z3.Not(goal)
        cs = list(facts) + [ng]
        # quick attempt, no folds
        r, s = _check(cs, min(timeout, 1500))
        if r == z3.unsat:
            return 'proved', None
        fx = fun_axioms(cs)
        if fx:
            cs = cs + fx
            r, s = _check(cs, timeout)
            if r == z3.unsat:
                return 'proved', None
        if light:
            return 'unknown', None
        folds = find_folds([goal] + [f for f in facts if not has_quant(f)])
        if folds:
            r, s = _check(cs + fold_axioms([goal] + [f for f in facts if not has_quant(f)], 1), min(timeout, 1000))
            if r == z3.unsat:
                return 'proved', None
            if len(folds) > 8:
                folds = find_folds([goal])
            lem = self.fold_lemmas(facts, folds, [goal], depth)
            if lem:
                r, s = _check(cs + lem, timeout)
                if r == z3.unsat:
                    return 'proved', None
            ax = fold_axioms([goal] + [f for f in facts if not has_quant(f)], 1)
            r, s = _check(cs + ax + lem, timeout)
            if r == z3.unsat:
                return 'proved', None
            ax2 = fold_axioms(ax + [goal], 1)
            lem2 = self.fold_lemmas(facts, find_folds(ax + [goal]), [goal], depth) if depth == 0 else []
            r, s = _check(cs + ax + ax2 + lem + lem2, timeout)
            if r == z3.unsat:
                return 'proved', None
        if r == z3.unknown:
            for cfg in ({'smt.arith.solver': 2}, {'smt.mbqi': False}, {'smt.random_seed': 7, 'smt.arith.nl.nra': True}):
                s2 = z3.Solver()
                s2.set('timeout', timeout)
                for k, v in cfg.items():
                    try:
                        s2.set(k.replace('smt.', ''), v)
                    except z3.Z3Exception:
                        pass
                s2.add(*cs)
                if folds:
                    s2.add(*(ax + lem))
                t = time.time()
                r2 = s2.check()
                STATS.q += 1
                STATS.t += time.time() - t
                if r2 == z3.unsat:
                    return 'proved', None
                if r2 == z3.sat:
                    r, s = r2, s2
                    break
        if r == z3.sat:
            return 'refuted', s.model()
        return 'unknown', None

    # -- equality of two fold applications by induction
    def fold_lemmas(self, facts, folds, goals, depth):
        if depth > 3:
            return []
        out = []
        n = len(folds)
        for a, b in itertools.combinations(folds, 2):
            if a.sort() != b.sort():
                continue
            fa, na = Fold.table[a.decl().name()]
            fb, nb = Fold.table[b.decl().name()]
            if fa is fb and na != nb:
                continue
            if len(fa.accs) != len(fb.accs):
                continue
            key = (a.get_id(), b.get_id(), tuple(f.get_id() for f in facts), depth)
            r = self.lemcache.get(key)
            if r is None:
                r = self._try(facts, a, b, fa, na, fb, nb, depth)
                self.lemcache[key] = (r if r is not None else False)
                self.keep.append((a, b, facts))
            if r is not None and r is not False:
                out.append(r)
        for a in folds:
            key = (a.get_id(), tuple(f.get_id() for f in facts), depth)
            r = self.lemcache.get(key)
            if r is None:
                r = self._single(facts, a, depth)
                self.lemcache[key] = r
                self.keep.append((a, facts))
            out += r
        return out

    def _single(self, facts, a, depth):
        """closed forms of folds whose step does not depend on the index"""
        f, n = Fold.table[a.decl().name()]
        if len(f.accs) != 1:
            return []
        aa = a.children()
        pa, K = aa[:-1], aa[-1]
        k = z3.Int('$lk%d' % next(_uid))
        acc = z3.Const('$la%d' % next(_uid), f.accs[0].sort())
        st_k = f.inst(f.steps[0], pa, k, [acc])
        st_0 = f.inst(f.steps[0], pa, iv(0), [acc])
        hyp = list(facts) + [k >= 0, k < K]
        init = f.inst(f.inits[0], pa)
        out = []
        if acc.sort() == RealS:
            # sign invariant
            r, _ = _check(list(facts) + [init < 0], 800)
            if r == z3.unsat:
                r, _ = _check(hyp + [acc >= 0, st_k < 0], 800)
                if r == z3.unsat:
                    self.lemmas_proved += 1
                    out.append(a >= 0)
        if k.decl().name() in free_vars(st_k):
            r, _ = _check(hyp + [st_k != st_0], 800)
            if r != z3.unsat:
                return out
        if acc.sort() == RealS:
            d = z3.simplify(st_0 - acc)
            if acc.decl().name() not in free_vars(d):
                self.lemmas_proved += 1
                return out + [a == init + z3.ToReal(z3.If(K > 0, K, iv(0))) * d]
        twice = z3.substitute(st_0, (acc, st_0))
        r, _ = _check(list(facts) + [twice != st_0], 800)
        if r == z3.unsat:
            self.lemmas_proved += 1
            out.append(z3.Implies(K >= 1, a == z3.substitute(st_0, (acc, init))))
            out.append(z3.Implies(K <= 0, a == init))
        return out

    def _try(self, facts, a, b, fa, na, fb, nb, depth):
        aa, bb = a.children(), b.children()
        pa, Ka, pb, Kb = aa[:-1], aa[-1], bb[:-1], bb[-1]
        # same count?
        keq = z3.simplify(Ka == Kb)
        if not z3.is_true(keq):
            r = z3.sat
            if not z3.is_false(keq):
                r, _ = _check(list(facts) + [z3.Or(Ka >= 1, Kb >= 1), Ka != Kb], 1500)
            if r != z3.unsat:
                for sh in (1, 2):
                    r, _ = _check(list(facts) + [z3.Or(Ka < 0, Kb != Ka + sh)], 800)
                    if r == z3.unsat:
                        return self._shift(facts, a, b, fa, na, fb, nb, sh, depth)
                    r, _ = _check(list(facts) + [z3.Or(Kb < 0, Ka != Kb + sh)], 800)
                    if r == z3.unsat:
                        return self._shift(facts, b, a, fb, nb, fa, na, sh, depth)
                return None
        idx = list(range(len(fa.accs)))
        perms = [idx] if len(idx) == 1 else list(itertools.permutations(idx))
        for p in perms:
            if p[na] != nb:
                continue
            if any(fa.accs[i].sort() != fb.accs[p[i]].sort() for i in idx):
                continue
            ok = True
            for i in idx:
                g = fa.inst(fa.inits[i], pa) == fb.inst(fb.inits[p[i]], pb)
                r, _ = self.prove(facts, g, depth + 1, timeout=2000)
                if r != 'proved':
                    ok = False
                    break
            if not ok:
                continue
            k = z3.Int('$lk%d' % next(_uid))
            acc = [z3.Const('$la%d' % next(_uid), fa.accs[i].sort()) for i in idx]
            accb = [None] * len(idx)
            for i in idx:
                accb[p[i]] = acc[i]
            # also give the real prefix values as a name for acc
            hyp = list(facts) + [k >= 0, k < Ka]
            for rev in (False, True):
                if rev and not (len(idx) == 1):
                    break
                kb = k if not rev else z3.simplify(Kb - 1 - k)
                good = True
                for i in idx:
                    g = fa.inst(fa.steps[i], pa, k, acc) == fb.inst(fb.steps[p[i]], pb, kb, accb)
                    if rev and not _additive(fa, i):
                        good = False
                        break
                    r, _ = self.prove(hyp, g, depth + 1, timeout=3000)
                    if r != 'proved':
                        good = False
                        break
                if good:
                    self.lemmas_proved += 1
                    return a == b
        return None


    def _shift(self, facts, a, b, fa, na, fb, nb, sh, depth):
        """a runs over K iterations, b over K+sh: b's first sh iterations are peeled off in a"""
        aa, bb = a.children(), b.children()
        pa, Ka, pb = aa[:-1], aa[-1], bb[:-1]
        idx = list(range(len(fa.accs)))
        for p in ([idx] if len(idx) == 1 else list(itertools.permutations(idx))):
            if p[na] != nb or any(fa.accs[i].sort() != fb.accs[p[i]].sort() for i in idx):
                continue
            cur = [fb.inst(x, pb) for x in fb.inits]
            for t in range(sh):
                cur = [fb.inst(x, pb, iv(t), cur) for x in fb.steps]
            if not all(self.prove(facts, fa.inst(fa.inits[i], pa) == cur[p[i]], depth + 1, timeout=2000)[0] == 'proved' for i in idx):
                continue
            k = z3.Int('$lk%d' % next(_uid))
            acc = [z3.Const('$la%d' % next(_uid), fa.accs[i].sort()) for i in idx]
            accb = [None] * len(idx)
            for i in idx:
                accb[p[i]] = acc[i]
            hyp = list(facts) + [k >= 0, k < Ka]
            if all(self.prove(hyp, fa.inst(fa.steps[i], pa, k, acc) == fb.inst(fb.steps[p[i]], pb, k + sh, accb), depth + 1, timeout=3000)[0] == 'proved' for i in idx):
                self.lemmas_proved += 1
                return a == b
        return None


def fun_axioms(exprs):
    """instances of the axioms of sqrt"""
    out = []
    seen = set()
    st = list(exprs)
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            continue
        if z3.is_app(x):
            if x.num_args() == 1 and x.decl().name() == 'sqrt':
                y = x.arg(0)
                out.append(z3.Implies(y >= 0, z3.And(x >= 0, x * x == y)))
            st.extend(x.children())
    return out


def _additive(f, i):
    """step is acc + v(k): summation order is irrelevant over the reals"""
    a = f.accs[i]
    d = z3.simplify(f.steps[i] - a) if a.sort() != BoolS else f.steps[i]
    return a.decl().name() not in {n for n in free_vars(d)}


_hq = {}


def has_quant(e):
    i = e.get_id()
    r = _hq.get(i)
    if r is not None:
        return r[1]
    seen = set()
    st = [e]
    res = False
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            res = True
            break
        st.extend(x.children())
    _hq[i] = (e, res)
    return res


def contains_const(e, names):
    return any(n in names for n in free_vars(e))
