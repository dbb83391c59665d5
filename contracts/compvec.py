"""contracts of Ipopt::CompoundVector: every operation acts on block i as its definition says, each reduction combines all blocks"""
from ipvlib import *
from absvec import *
import absvec as A

SRCS = ['LinAlg/IpCompoundVector.cpp', 'LinAlg/IpVector.cpp', 'Common/IpTaggedObject.cpp', '/verif/contracts/inst/compound.cpp']
CV = 'Ipopt::CompoundVector'
MODELS = ABS.child()
DBLMAX = rv(1.7976931348623157e308)


def space(v, nc):
    sp = v.obj('Ipopt::CompoundVectorSpace', 'space')
    v.set(v.st, sp, 'ncomp_spaces_', nc)
    return sp


def compvec(v, name, nc, sp, const=False):
    """a compound vector all of whose nc components are set; with const, any of them may have been set as constant"""
    fam = abvec(v, name + '.comp', nc)
    p = v.obj(CV, name)
    v.set(v.st, p, 'owner_space_', sp)
    v.st.wb(name).cells[v.mod.fieldoff('Ipopt::Vector', 'owner_space_')[0]] = sp
    v.set(v.st, p, 'vectors_valid_', TRUE)
    isc = z3.Function(name + '.isconst', IntS, BoolS)(J) if const else FALSE
    for fld, nul in (('comps_', isc), ('const_comps_', z3.Not(isc))):
        b = Block('%s.%s' % (name, fld), 'arr', S=8, n=nc, lazy=True)
        b.fields[0] = FamVal(Ptr(fam.b, 0, ((1000, J),), z3.simplify(nul)))
        v.st.add(b)
        v.st.wb(name).cells[v.off(CV, fld)] = Ptr(b.id)
    return p, fam


SETM = MODELS.child()


@SETM.reg(CV + '::VectorsValid', 'contract', 'proved for the real body')
def m_vv(ex, st, a, ins):
    return ret(st, z3.Bool('all components set'))


def jobs():
    out = []

    def start(v, nv, const=True):
        v.nc = v.int('ncomps')
        v.assume(v.nc >= 0)
        sp = space(v, v.nc)
        v.this, v.fam = compvec(v, 'this', v.nc, sp, const)
        v.vecs, v.fams = [v.this], [v.fam]
        for i in range(nv):
            p, f = compvec(v, 'x%d' % (i + 1), v.nc, sp, True)
            v.vecs.append(p)
            v.fams.append(f)

    def normal(v, kind, st):
        v.ensure(st, z3.BoolVal(kind == 'ret'), 'returns normally')
        return kind == 'ret'

    def op(name, alias=None):
        order, f = OPS[name]
        nv = order.count('v') if alias is None else max(alias)

        def setup(v):
            start(v, nv, False)
            al = list(alias) if alias is not None else list(range(1, nv + 1))
            v.al = al
            v.s = [v.real('s%d' % i) for i in range(order.count('s'))]
            it, si = iter(al), iter(v.s)
            return [v.this] + [v.vecs[next(it)] if c == 'v' else next(si) for c in order]

        def post(v, kind, st, val):
            if not normal(v, kind, st):
                return
            i, j = v.skolem('i'), v.skolem('j')
            st.assume(z3.And(i >= 0, i < v.nc))
            ent = lambda s, k: vspec(s, member(v.fams[k], i))(j)
            v.ensure(st, ent(st, 0) == f(v.s, ent(v.pre, 0), [ent(v.pre, k) for k in v.al]), 'entry j of block i is that of the definition')
            v.frame(st, {('this.comp', ('g', 'val[]'))})
        out.append(Job('CompoundVector::%sImpl%s' % (name, '' if alias is None else '[alias %s]' % (alias,)), CV + '::%sImpl' % name, setup, post))
    for name in OPS:
        if name in ('AddOneVector',):
            continue
        op(name)
    op('Axpy', (0,))
    op('ElementWiseMultiply', (0,))
    op('AddTwoVectors', (1, 1))
    op('AddVectorQuotient', (0, 1))
    op('AddVectorQuotient', (1, 0))

    def red(name, nv, spec, scal=(), pre=None):
        def setup(v):
            start(v, nv)
            v.s = [v.real(x) for x in scal]
            return v.vecs + v.s

        def post(v, kind, st, val):
            if not normal(v, kind, st):
                return
            sp = spec(v, lambda i, nm=name: redterm(nm, [(x.b, [i]) for x in v.fams], v.s), lambda i: sdim(v.pre, member(v.fam, i)))
            if isinstance(sp, tuple):
                v.ensure(st, z3.And(val >= 0, val * val == sp[1]), 'result combines all blocks')
            else:
                v.ensure(st, (as_bool(val) == sp) if z3.is_bool(sp) else (val == sp), 'result combines all blocks')
            v.frame(st, set())
        out.append(Job('CompoundVector::%sImpl' % name, CV + '::%sImpl' % name, setup, post))
    red('Dot', 1, lambda v, r, d: M.Sum(v.nc, r))
    red('Asum', 0, lambda v, r, d: M.Sum(v.nc, r))
    red('Sum', 0, lambda v, r, d: M.Sum(v.nc, r))
    red('SumLogs', 0, lambda v, r, d: M.Sum(v.nc, r))
    red('Nrm2', 0, lambda v, r, d: ('sqrt', M.Sum(v.nc, lambda i: r(i) * r(i))))
    red('Amax', 0, lambda v, r, d: M.Max(v.nc, r, rv(0)))
    red('Max', 0, lambda v, r, d: fold1(-DBLMAX, lambda a, i: z3.If(z3.And(d(i) != 0, r(i) > a), r(i), a), v.nc))
    red('Min', 0, lambda v, r, d: fold1(DBLMAX, lambda a, i: z3.If(z3.And(d(i) != 0, r(i) < a), r(i), a), v.nc))
    red('FracToBound', 1, lambda v, r, d: M.Min(v.nc, r, rv(1)), scal=['tau'])
    i0 = z3.Int('$hv')
    red('HasValidNumbers', 0, lambda v, r, d: z3.ForAll([i0], z3.Implies(z3.And(i0 >= 0, i0 < v.nc), r(i0))))

    # ---- access to components
    def acc(meth, nonconst):
        def setup(v):
            start(v, 0, not nonconst)
            v.i = v.int('i')
            v.assume(z3.And(v.i >= 0, v.i < v.nc))
            v.ret = v.obj(None, 'ret')
            return [v.ret, v.this, v.i]

        def post(v, kind, st, val):
            if not normal(v, kind, st):
                return
            r = v.ex.load(st, v.ret, 'ptr')
            v.ensure(st, v.ex.pcmp(st, 'eq', r, member(v.fam, v.i)), 'component i is returned')
            v.frame(st, {('ret', 0)} | ({('this', 48)} if nonconst else set()))
        out.append(Job('CompoundVector::' + meth, CV + '::' + meth, setup, post))
    acc('GetComp', False)
    acc('GetCompNonConst', True)

    def s_vv(v):
        start(v, 0, True)
        n1, n2 = z3.Function('unset', IntS, BoolS), z3.Function('unset_const', IntS, BoolS)
        for fld, n in (('comps_', n1), ('const_comps_', n2)):
            v.st.wb('this.' + fld).fields[0] = FamVal(Ptr('this.comp', 0, ((1000, J),), n(J)))
        v.n1, v.n2 = n1, n2
        return [v.this]

    def p_vv(v, kind, st, val):
        if not normal(v, kind, st):
            return
        i = z3.Int('$iv')
        v.ensure(st, as_bool(val) == z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < v.nc), z3.Not(z3.And(v.n1(i), v.n2(i))))), 'true exactly if every component is set')
        v.frame(st, set())
    out.append(Job('CompoundVector::VectorsValid', CV + '::VectorsValid', s_vv, p_vv))

    def setc(meth, nonconst):
        def setup(v):
            start(v, 0, True)
            v.i = v.int('i')
            v.assume(z3.And(v.i >= 0, v.i < v.nc))
            v.new = abvec(v, 'newcomp')
            v.old = z3.Function('notset', IntS, BoolS)
            return [v.this, v.i, v.new]

        def post(v, kind, st, val):
            if not normal(v, kind, st):
                return
            k = v.skolem('k')
            st.assume(z3.And(k >= 0, k < v.nc))
            for fld, mine in (('comps_', nonconst), ('const_comps_', not nonconst)):
                at = lambda s, q: v.ex.load(s, Ptr('this.' + fld).add(0, ((8, q),)), 'ptr')
                new = at(st.fork(), v.i)
                if mine:
                    v.ensure(st, v.ex.pcmp(st, 'eq', new, v.new), 'component i is the new vector (%s)' % fld)
                else:
                    v.ensure(st, v.ex.pcmp(st, 'eq', new, NULL), 'old component i is given up (%s)' % fld)
                s2, s3 = st.fork(), v.pre.fork()
                s2.assume(k != v.i)
                s3.assume(z3.And(k >= 0, k < v.nc))
                v.ensure(s2, v.ex.pcmp(s2, 'eq', at(s2, k), at(s3, k)), 'other components stay (%s)' % fld)
            v.frame(st, {('this.comps_', ('f', 0)), ('this.const_comps_', ('f', 0)), ('this', v.off(CV, 'vectors_valid_')), ('this', 48)})
        out.append(Job('CompoundVector::' + meth, CV + '::' + meth, setup, post, models=SETM))
    setc('SetComp', False)
    setc('SetCompNonConst', True)
    return out
