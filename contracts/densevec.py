"""contracts of Ipopt::DenseVector"""
from ipvlib import *
import os

SRCS = ['LinAlg/IpDenseVector.cpp', 'LinAlg/IpVector.cpp', 'Common/IpTaggedObject.cpp']
DV = 'Ipopt::DenseVector'


def mkspace(v, name, n):
    return v.obj('Ipopt::DenseVectorSpace', name, dim_=n)


def mkvec(v, name, n, space, init=True):
    """an initialised DenseVector of dimension n in either representation"""
    h = v.bool(name + '.homog')
    arr = v.arr(name + '.vals', n)
    nul = v.bool(name + '.noarr')
    p = v.obj(DV, name)
    v.set(v.st, p, 'Ipopt::Vector::owner_space_' if 0 else 'owner_space_', space)
    b = v.st.wb(name)
    b.cells[v.mod.fieldoff('Ipopt::Vector', 'owner_space_')[0]] = space
    v.set(v.st, p, 'values_', v.nullable(arr, nul))
    v.set(v.st, p, 'expanded_values_', NULL)
    v.set(v.st, p, 'homogeneous_', h)
    v.set(v.st, p, 'scalar_', v.real(name + '.scalar'))
    v.set(v.st, p, 'initialized_', v.bool(name + '.init') if not init else TRUE)
    v.assume(z3.Implies(z3.And(TRUE if init else as_bool(v.get(v.st, p, 'initialized_')), z3.Not(h), n > 0), z3.Not(nul)))
    return p


def view(v, st, p):
    """abstract view of a DenseVector: index -> value"""
    h = as_bool(v.get(st, p, 'homogeneous_'))
    s = v.get(st, p, 'scalar_')
    vp = v.get(st, p, 'values_')
    if vp.b is None:
        return lambda j: s
    f = v.body(st, Ptr(vp.b))
    assert vp.c == 0 and not vp.t
    return lambda j: z3.If(h, s, f(j))


def wf(v, st, p, n):
    """representation invariant"""
    h = as_bool(v.get(st, p, 'homogeneous_'))
    vp = v.get(st, p, 'values_')
    nul = TRUE if vp.b is None else (vp.nul if vp.nul is not None else FALSE)
    g = [as_bool(v.get(st, p, 'initialized_')), z3.Implies(z3.And(z3.Not(h), n > 0), z3.Not(nul))]
    if vp.b is not None:
        if not st.mem[vp.b].live:
            g.append(nul)
        g.append(z3.Implies(z3.Not(nul), st.mem[vp.b].n == n if st.mem[vp.b].S in (8,) else divexact(st.mem[vp.b].n, 8) == n))
    return z3.And(g)


DBLMAX = rv(1.7976931348623157e308)


def inr(v):
    """entries are finite doubles"""
    j = z3.Int('$inr')
    t = view(v, v.st, v.vecs[0])
    return z3.ForAll([j], z3.And(t(j) >= -DBLMAX, t(j) <= DBLMAX))


MODELS = BASE.child()


def vwrap(impl):
    def f(ex, st, a, ins):
        # non-virtual wrapper of ::Vector: run the real DenseVector implementation, then the object counts as changed;
        # the wrapper's result caches are property C11
        outs = ex.callname(st, ex.mod.one(DV + '::' + impl).name, None, a, ins)
        res = []
        for k, s, v in outs:
            if k == 'ret':
                o = ex.mod.fieldoff('Ipopt::TaggedObject', 'tag_')[0]
                ex.store(s, a[0].add(o), s.fresh('tag', IntS), 'i32')
            res.append((k, s, v))
        return res
    return f


for _w in ('Set', 'Scal', 'Copy', 'Axpy'):
    MODELS.reg('Ipopt::Vector::' + _w, 'contract', 'wrapper around the verified Impl method; caches are property C11')(vwrap(_w + 'Impl'))
TAG = 48


def jobs():
    out = []
    cases = {}

    def op(meth, nvec, scal, spec, alias=None, needinit=True, pre=None, case='', budget=120):
        """in-place operation: this[j] := spec(scalars, this[j], x1[j], ...)
        alias: tuple of vector indices (0=this) per argument"""
        def setup(v):
            n = v.int('dim')
            v.assume(n >= 0)
            sp = mkspace(v, 'space', n)
            this = mkvec(v, 'this', n, sp, init=needinit)
            vecs = [this]
            for i in range(nvec):
                vecs.append(mkvec(v, 'x%d' % (i + 1), n, sp))
            sc = [v.real(s) for s in scal]
            args = []
            a = list(alias) if alias else list(range(1, nvec + 1))
            v.vecs = vecs
            v.n = n
            v.al = a
            v.sc = sc
            v.args = [vecs[i] for i in a]
            if pre:
                v.assume(pre(v))
            return meth.args(v) if callable(meth) else build(v)

        def build(v):
            order = ARGORD[meth]
            res = [v.vecs[0]]
            ai = iter(v.args)
            si = iter(v.sc)
            for c in order:
                res.append(next(ai) if c == 'v' else next(si))
            return res

        def post(v, kind, st, val):
            v.ensure(st, z3.BoolVal(kind == 'ret'), 'returns normally')
            if kind != 'ret':
                return
            this = v.vecs[0]
            j = v.skolem()
            st.assume(z3.And(j >= 0, j < v.n))
            new = view(v, st, this)(j)
            old = view(v, v.pre, this)(j)
            xs = [view(v, v.pre, v.vecs[i])(j) for i in v.al]
            v.ensure(st, new == spec(v.sc, old, xs), 'element j of the result equals the definition')
            v.ensure(st, wf(v, st, this, v.n), 'representation invariant of the result')
            al = {('this', v.off(DV, f)) for f in ('values_', 'expanded_values_', 'homogeneous_', 'scalar_', 'initialized_')} | {('this.vals', ('f', 0)), ('this.vals', 'release')}
            for i in range(1, nvec + 1):
                # arguments may cache an expanded copy of themselves, nothing else
                al.add(('x%d' % i, v.off(DV, 'expanded_values_')))
            al.add(('this', 48))
            v.frame(st, al)
        nm = '%s%s%s' % (meth, '' if not alias else '[arguments %s]' % ','.join('this' if x == 0 else 'x%d' % x for x in alias), case)
        out.append(Job('DenseVector::' + nm, DV + '::' + meth, setup, post, budget=budget))

    def initd(v):
        # the result may only be uninitialised beforehand if its old value is not used (c = 0)
        n = v.n
        h = as_bool(v.get(v.st, v.vecs[0], 'homogeneous_'))
        nul = v.get(v.st, v.vecs[0], 'values_').nul
        return z3.Implies(z3.Or(v.sc[-1] != 0, n == 0), z3.And(as_bool(v.get(v.st, v.vecs[0], 'initialized_')), z3.Implies(z3.And(z3.Not(h), n > 0), z3.Not(nul))))

    ARGORD = {'SetImpl': 's', 'ScalImpl': 's', 'AxpyImpl': 'sv', 'CopyImpl': 'v', 'ElementWiseDivideImpl': 'v', 'ElementWiseMultiplyImpl': 'v',
              'ElementWiseSelectImpl': 'v', 'ElementWiseMaxImpl': 'v', 'ElementWiseMinImpl': 'v', 'ElementWiseReciprocalImpl': '', 'ElementWiseAbsImpl': '',
              'ElementWiseSqrtImpl': '', 'ElementWiseSgnImpl': '', 'AddScalarImpl': 's', 'AddTwoVectorsImpl': 'svsvs', 'AddVectorQuotientImpl': 'svvs'}
    sgn = lambda x: z3.If(x > 0, rv(1), z3.If(x < 0, rv(-1), rv(0)))
    SPEC1 = {'CopyImpl': lambda s, o, x: x[0], 'ElementWiseDivideImpl': lambda s, o, x: o / x[0], 'ElementWiseMultiplyImpl': lambda s, o, x: o * x[0],
             'ElementWiseSelectImpl': lambda s, o, x: sgn(o) * x[0], 'ElementWiseMaxImpl': lambda s, o, x: z3.If(o >= x[0], o, x[0]), 'ElementWiseMinImpl': lambda s, o, x: z3.If(o <= x[0], o, x[0])}
    op('SetImpl', 0, ['alpha'], lambda s, o, x: s[0], needinit=False)
    op('ScalImpl', 0, ['alpha'], lambda s, o, x: s[0] * o)
    op('AddScalarImpl', 0, ['alpha'], lambda s, o, x: o + s[0])
    op('CopyImpl', 1, [], lambda s, o, x: x[0], needinit=False)
    op('AxpyImpl', 1, ['alpha'], lambda s, o, x: o + s[0] * x[0])
    op('AxpyImpl', 0, ['alpha'], lambda s, o, x: o + s[0] * x[0], alias=(0,))
    op('ElementWiseDivideImpl', 1, [], lambda s, o, x: o / x[0])
    op('ElementWiseMultiplyImpl', 1, [], lambda s, o, x: o * x[0])
    op('ElementWiseSelectImpl', 1, [], lambda s, o, x: sgn(o) * x[0])
    op('ElementWiseMaxImpl', 1, [], lambda s, o, x: z3.If(o >= x[0], o, x[0]))
    op('ElementWiseMinImpl', 1, [], lambda s, o, x: z3.If(o <= x[0], o, x[0]))
    op('ElementWiseReciprocalImpl', 0, [], lambda s, o, x: 1 / o)
    op('ElementWiseAbsImpl', 0, [], lambda s, o, x: fabs(o))
    op('ElementWiseSqrtImpl', 0, [], lambda s, o, x: SQRT(o))
    op('ElementWiseSgnImpl', 0, [], lambda s, o, x: sgn(o))
    two = lambda s, o, x: s[0] * x[0] + s[1] * x[1] + s[2] * o
    homog = lambda v, i: as_bool(v.get(v.st, v.vecs[i], 'homogeneous_'))
    def scase(x, c):
        return {'0': x == 0, '1': x == 1, '-1': x == -1, '*': z3.And(x != 0, x != 1, x != -1)}[c]
    for c in ('0', '1', '-1', '*'):
        for a in ('0', '1', '-1', '*'):
            op('AddTwoVectorsImpl', 2, ['a', 'b', 'c'], two, case=' dense c=%s a=%s' % (c, a), needinit=False,
               pre=lambda v, c=c, a=a: z3.And(initd(v), scase(v.sc[2], c), scase(v.sc[0], a), z3.Not(homog(v, 1)), z3.Not(homog(v, 2)), z3.Or(v.sc[2] == 0, z3.Not(homog(v, 0)))))
    for h in range(1, 8):
        for c in ('0', 'n'):
            if c == '0' and h & 1:
                continue
            op('AddTwoVectorsImpl', 2, ['a', 'b', 'c'], two, case=' homogeneous %s c=%s' % (h, c), needinit=False, budget=200,
               pre=lambda v, c=c, h=h: z3.And([initd(v), (v.sc[2] == 0) == (c == '0')] + [homog(v, i) == bool(h & (1 << i)) for i in range(3) if c != '0' or i]))
    op('AddVectorQuotientImpl', 2, ['a', 'c'], lambda s, o, x: s[0] * x[0] / x[1] + s[1] * o, needinit=False, pre=initd)
    # in-place operations whose argument is the vector itself
    for m in ('CopyImpl', 'ElementWiseDivideImpl', 'ElementWiseMultiplyImpl', 'ElementWiseMaxImpl', 'ElementWiseMinImpl', 'ElementWiseSelectImpl'):
        op(m, 0, [], SPEC1[m], alias=(0,))
    op('AddVectorQuotientImpl', 1, ['a', 'c'], lambda s, o, x: s[0] * x[0] / x[1] + s[1] * o, alias=(0, 1))
    op('AddVectorQuotientImpl', 1, ['a', 'c'], lambda s, o, x: s[0] * x[0] / x[1] + s[1] * o, alias=(1, 0))
    for h in range(4):
        op('AddTwoVectorsImpl', 1, ['a', 'b', 'c'], two, alias=(1, 1), case=' homogeneous %d' % h, pre=lambda v, h=h: z3.And(homog(v, 0) == bool(h & 1), homog(v, 1) == bool(h & 2)))
    # ---------------- reductions
    def red(meth, nvec, spec, alias=None, pre=None, scal=()):
        def setup(v):
            n = v.int('dim')
            v.assume(n >= 0)
            sp = mkspace(v, 'space', n)
            v.vecs = [mkvec(v, 'this', n, sp)] + [mkvec(v, 'x%d' % i, n, sp) for i in range(1, nvec + 1)]
            v.n = n
            v.al = alias or list(range(1, nvec + 1))
            v.sc = [v.real(x) for x in scal]
            if pre:
                v.assume(pre(v))
            return [v.vecs[0]] + [v.vecs[i] for i in v.al] + v.sc

        def post(v, kind, st, val):
            v.ensure(st, z3.BoolVal(kind == 'ret'), 'returns normally')
            if kind != 'ret':
                return
            fs = [view(v, v.pre, v.vecs[0])] + [view(v, v.pre, v.vecs[i]) for i in v.al]
            sp = spec(v.n, v.sc, *fs)
            if isinstance(sp, tuple):       # the result is the non-negative square root of sp
                v.ensure(st, z3.And(val >= 0, val * val == sp[1]), 'result equals the definition')
            else:
                v.ensure(st, val == sp, 'result equals the definition')
            v.frame(st, set())
        out.append(Job('DenseVector::%s%s' % (meth, '' if not alias else '[alias]'), DV + '::' + meth, setup, post))
    red('DotImpl', 1, lambda n, s, t, x: Sum(n, lambda k: t(k) * x(k)))
    red('DotImpl', 0, lambda n, s, t, x: Sum(n, lambda k: t(k) * x(k)), alias=[0])
    red('Nrm2Impl', 0, lambda n, s, t: ('sqrt', Sum(n, lambda k: t(k) * t(k))))
    red('AsumImpl', 0, lambda n, s, t: Sum(n, lambda k: fabs(t(k))))
    red('AmaxImpl', 0, lambda n, s, t: Max(n, lambda k: fabs(t(k)), rv(0)))
    red('MaxImpl', 0, lambda n, s, t: Max(n, lambda k: t(k), -DBLMAX), pre=inr)
    red('MinImpl', 0, lambda n, s, t: Min(n, lambda k: t(k), DBLMAX), pre=inr)
    red('SumImpl', 0, lambda n, s, t: Sum(n, lambda k: t(k)))
    red('SumLogsImpl', 0, lambda n, s, t: Sum(n, lambda k: LOG(t(k))))
    red('FracToBoundImpl', 1, lambda n, s, t, d: fold1(rv(1), lambda a, k: z3.If(z3.And(d(k) < 0, -s[0] / d(k) * t(k) < a), -s[0] / d(k) * t(k), a), n), scal=['tau'])
    # ---------------- raw access
    def raw(meth, name, nvec, mk, chk, init=True):
        def setup(v):
            n = v.int('dim')
            v.assume(n >= 0)
            v.n = n
            sp = mkspace(v, 'space', n)
            v.vecs = [mkvec(v, 'this', n, sp, init=init)]
            return mk(v)

        def post(v, kind, st, val):
            v.ensure(st, z3.BoolVal(kind == 'ret'), 'returns normally')
            if kind != 'ret':
                return
            chk(v, st, val)
            al = {(b, v.off(DV, f)) for b in ('this', 'x1') for f in ('values_', 'expanded_values_', 'homogeneous_', 'scalar_', 'initialized_')} if meth != 'ExpandedValues' else {('this', v.off(DV, 'expanded_values_')), ('this.exp', ('f', 0))}
            al |= {('this.vals', ('f', 0)), ('this.vals', 'release'), ('this', 48)} if meth != 'ExpandedValues' else set()
            v.frame(st, al)
        out.append(Job('DenseVector::' + name, lambda mod: [f for f in mod.find(DV + '::' + meth) if f.dem.endswith(' const') == (meth == 'ExpandedValues')][0], setup, post))

    def chk_values(v, st, val):
        j = v.skolem()
        st.assume(z3.And(j >= 0, j < v.n))
        was = as_bool(v.get(v.pre, v.vecs[0], 'initialized_'))
        v.ensure(st, z3.Not(as_bool(v.get(st, v.vecs[0], 'homogeneous_'))), 'afterwards the vector is stored element by element')
        v.ensure(st, z3.Implies(was, view(v, st, v.vecs[0])(j) == view(v, v.pre, v.vecs[0])(j)), 'element j is unchanged')
        v.ensure(st, wf(v, st, v.vecs[0], v.n), 'representation invariant')
        v.ensure(st, v.ex.pcmp(st, 'eq', val, v.get(st, v.vecs[0], 'values_')), 'returns the element storage')
        v.ensure(st, v.st_tag(st) != v.st_tag(v.pre), 'the object counts as changed') if 0 else None
    raw('Values', 'Values (writable)', 0, lambda v: [v.vecs[0]], chk_values, init=False)

    def chk_exp(v, st, val):
        j = v.skolem()
        st.assume(z3.And(j >= 0, j < v.n))
        f = v.body(st, Ptr(val.b)) if val.b is not None else None
        if f is None:
            v.ensure(st, v.n == 0, 'array present')
            return
        v.ensure(st, z3.And(z3.Not(val.nul) if val.nul is not None else TRUE), 'array present')
        v.ensure(st, f(j) == view(v, v.pre, v.vecs[0])(j), 'element j of the returned array is element j of the vector')

    def mk_exp(v):
        arr = v.arr('this.exp', v.n)
        v.set(v.st, v.vecs[0], 'expanded_values_', v.nullable(arr, v.bool('noexp')))
        return [v.vecs[0]]
    raw('ExpandedValues', 'ExpandedValues', 0, mk_exp, chk_exp)

    def mk_setv(v):
        v.src = v.arr('src', v.n)
        return [v.vecs[0], v.src]

    def chk_setv(v, st, val):
        j = v.skolem()
        st.assume(z3.And(j >= 0, j < v.n))
        v.ensure(st, view(v, st, v.vecs[0])(j) == v.body(v.pre, v.src)(j), 'element j is the given value')
        v.ensure(st, wf(v, st, v.vecs[0], v.n), 'representation invariant')
    raw('SetValues', 'SetValues', 0, mk_setv, chk_setv, init=False)

    def mk_pos(to):
        def f(v):
            m, pos = v.int('dimx'), v.int('pos')
            v.m, v.pos = m, pos
            v.assume(z3.And(m >= 0, pos >= 0, (m + pos <= v.n) if to else (v.n + pos <= m)))
            spx = mkspace(v, 'spacex', m)
            v.vecs.append(mkvec(v, 'x1', m, spx))
            return [v.vecs[0], pos, v.vecs[1]]
        return f

    def chk_to(v, st, val):
        j = v.skolem()
        st.assume(z3.And(j >= 0, j < v.n))
        was = as_bool(v.get(v.pre, v.vecs[0], 'initialized_'))
        inr = z3.And(j >= v.pos, j < v.pos + v.m)
        new = view(v, st, v.vecs[0])(j)
        v.ensure(st, z3.Implies(inr, new == view(v, v.pre, v.vecs[1])(z3.simplify(j - v.pos))), 'copied element')
        v.ensure(st, z3.Implies(z3.And(was, z3.Not(inr)), new == view(v, v.pre, v.vecs[0])(j)), 'other elements unchanged')
        v.ensure(st, wf(v, st, v.vecs[0], v.n), 'representation invariant')
    raw('CopyToPos', 'CopyToPos', 1, mk_pos(True), chk_to, init=False)

    def chk_from(v, st, val):
        j = v.skolem()
        st.assume(z3.And(j >= 0, j < v.n))
        v.ensure(st, view(v, st, v.vecs[0])(j) == view(v, v.pre, v.vecs[1])(z3.simplify(j + v.pos)), 'copied element')
        v.ensure(st, wf(v, st, v.vecs[0], v.n), 'representation invariant')
    raw('CopyFromPos', 'CopyFromPos', 1, mk_pos(False), chk_from, init=False)
    return out
