"""contracts of TNLPAdapter: the internal problem corresponds entry by entry to that of the user

Positions are given by expansion matrices (E: internal -> user index, C: user -> internal index or -1, inverse to each other).  Evaluation protocol: the point
of the user is the internal point put at the positions E, with the values of the fixed variables elsewhere; it is announced as new unless the user saw it last."""
from ipvlib import *
import models as MD
import alg as AL
import densevec as DV
from densevec import mkspace, mkvec, view
import stl

SRCS = ['Interfaces/IpTNLPAdapter.cpp', 'Interfaces/IpStdInterfaceTNLP.cpp', 'LinAlg/TMatrices/IpGenTMatrix.cpp', 'LinAlg/TMatrices/IpSymTMatrix.cpp', 'LinAlg/IpExpansionMatrix.cpp', 'LinAlg/IpMatrix.cpp',
        'LinAlg/IpDenseVector.cpp', 'LinAlg/IpVector.cpp', 'Common/IpTaggedObject.cpp']
AD, TN, XM = 'Ipopt::TNLPAdapter', 'Ipopt::TNLP', 'Ipopt::ExpansionMatrix'
REP = {TN: 'Ipopt::StdInterfaceTNLP', 'Ipopt::VectorSpace': 'Ipopt::DenseVectorSpace'}
MODELS = DV.MODELS.child()
PARAM, NODUAL, CONSTR, RELAX = 0, 1, 2, 3          # checked against the enumeration below
TAG = 48


def U(name, j=None, so=RealS):
    """a value of the user"""
    return z3.Function('user:' + name, IntS, so)(j) if j is not None else z3.Const('user:' + name, so)


def OK(name):
    return z3.Bool('user:ok:' + name)


@MODELS.reg('Ipopt::TaggedObject::GetTag', 'contract', 'the tag of the object (C11)')
def m_tag(ex, st, a, ins):
    return ret(st, ex.load(st, a[0].add(ex.mod.fieldoff('Ipopt::TaggedObject', 'tag_')[0]), 'i32'))


@MODELS.reg('Ipopt::TaggedObject::ObjectChanged', 'contract', 'a new tag (C11)')
def m_chg(ex, st, a, ins):
    ex.store(st, a[0].add(ex.mod.fieldoff('Ipopt::TaggedObject', 'tag_')[0]), st.fresh('tag', IntS), 'i32')
    return ret(st)


def arrval(ex, st, p, ty='double'):
    return MD.rd(ex, st, Ptr(p.b, p.c, p.t), ty)


def same(ex, st, f, g, n, what, cond=None):
    s2 = st.fork()
    j = ex.vv.skolem('p')
    s2.assume(z3.And(j >= 0, j < n))
    if cond is not None:
        s2.assume(cond)
    ex.require(s2, f(j) == g(j), what)


def evaluated(ex, st, a, nm):
    """the user is asked to evaluate at a[2]"""
    v = ex.vv
    ex.require(st, z3.BoolVal(a[0].b == 'tnlp'), 'the problem of the user is asked')
    ex.require(st, a[1] == v.N, 'number of variables')
    X = arrval(ex, st, a[2])
    new = as_bool(a[3])
    same(ex, st, X, v.pt, v.N, nm + ': evaluated at the given point, with the values of the fixed variables')
    same(ex, st, X, arrval(ex, st, Ptr('announced')), v.N, nm + ': a point that is not new is the one the user saw last', z3.Not(new))
    st.wb('announced').fields[0] = X(J)
    st.gh['calls'] = st.gh.get('calls', ()) + (nm,)


def fill(ex, st, p, n, nm):
    MD.wr(ex, st, Ptr(p.b, p.c, p.t), 'double', n, lambda k: z3.If(OK(nm), U(nm, k), U('garbage:' + nm, k)))


@MODELS.reg('Ipopt::Vector::Asum', 'contract', 'sum of absolute values (C07): not negative, zero only for a zero vector')
def m_asum(ex, st, a, ins):
    v = ex.vv
    nm = a[0].b
    r = z3.Real('asum.' + nm)
    Y, n = {'yc': (v.yc, v.ncf), 'yd': (v.yd, v.nd)}[nm]
    j = z3.Int('$q_as')
    st.assume(r >= 0)
    s = st.fresh('nonzero', IntS)
    st.assume(z3.Implies(r == 0, z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), Y(j) == 0))))
    return ret(st, r)


@MODELS.regv(TN, 'eval_f', 'interface', 'a function of the point; may fail')
def m_f(ex, st, a, ins):
    evaluated(ex, st, a, 'f')
    ex.store(st, a[4], U('f'))
    return ret(st, OK('f'))


@MODELS.regv(TN, 'eval_grad_f', 'interface', 'a function of the point; may fail')
def m_gf(ex, st, a, ins):
    evaluated(ex, st, a, 'grad_f')
    fill(ex, st, a[4], ex.vv.N, 'grad_f')
    return ret(st, OK('grad_f'))


@MODELS.regv(TN, 'eval_g', 'interface', 'a function of the point; may fail')
def m_g(ex, st, a, ins):
    evaluated(ex, st, a, 'g')
    ex.require(st, a[4] == ex.vv.M, 'number of constraints')
    fill(ex, st, a[5], ex.vv.M, 'g')
    return ret(st, OK('g'))


@MODELS.regv(TN, 'eval_jac_g', 'interface', 'a function of the point; may fail')
def m_j(ex, st, a, ins):
    evaluated(ex, st, a, 'jac_g')
    v = ex.vv
    ex.require(st, z3.And(a[4] == v.M, a[5] == v.F['nz_full_jac_g_'], z3.BoolVal(a[6].b is None and a[7].b is None)), 'dimensions; values are asked for')
    fill(ex, st, a[8], v.F['nz_full_jac_g_'], 'jac_g')
    return ret(st, OK('jac_g'))


@MODELS.regv(TN, 'eval_h', 'interface', 'a function of point, factor and multipliers; may fail')
def m_h(ex, st, a, ins):
    evaluated(ex, st, a, 'h')
    v = ex.vv
    ex.require(st, z3.And(a[4] == v.of, a[5] == v.M, a[8] == v.F['nz_full_h_'], z3.BoolVal(a[9].b is None and a[10].b is None)), 'factor and dimensions; values are asked for')
    L = arrval(ex, st, a[6])
    for nm, E, n, Y in (('yc', v.Ec, v.nc, v.yc), ('yd', v.Ed, v.nd, v.yd)):
        same(ex, st, lambda j: L(E(j)), Y, n, 'multipliers %s are at the positions of their constraints' % nm)
    same(ex, st, L, arrval(ex, st, Ptr('annlam')), v.M, 'multipliers that are not new are those the user saw last', z3.Not(as_bool(a[7])))
    st.wb('annlam').fields[0] = L(J)
    fill(ex, st, a[11], v.F['nz_full_h_'], 'h')
    return ret(st, OK('h'))


@MODELS.regv(TN, 'get_bounds_info', 'interface', 'the bounds of the user; may fail')
def m_gb(ex, st, a, ins):
    v = ex.vv
    ex.require(st, z3.And(a[1] == v.N, a[4] == v.M), 'dimensions')
    for k, nm, n in ((2, 'x_l', v.N), (3, 'x_u', v.N), (5, 'g_l', v.M), (6, 'g_u', v.M)):
        fill(ex, st, a[k], n, nm)
        st.assume(z3.Implies(OK('bounds'), OK(nm)))
    return ret(st, OK('bounds'))


@MODELS.regv(TN, 'get_starting_point', 'interface', 'the starting values that are asked for; may fail')
def m_gs(ex, st, a, ins):
    v = ex.vv
    ex.require(st, z3.And(a[1] == v.N, a[7] == v.M), 'dimensions')
    for k, need, nm, n in ((3, a[2], 'x0', v.N), (5, a[4], 'zl0', v.N), (6, a[4], 'zu0', v.N), (9, a[8], 'lam0', v.M)):
        nd = as_bool(need)
        MD.wr(ex, st, Ptr(a[k].b, a[k].c, a[k].t), 'double', n, lambda j, nm=nm, nd=nd: z3.If(nd, U(nm, j), U('garbage:' + nm, j)))
    return ret(st, OK('start'))


@MODELS.regv(TN, 'get_scaling_parameters', 'interface', 'scaling factors of the user; may refuse')
def m_gsc(ex, st, a, ins):
    v = ex.vv
    ex.require(st, z3.And(a[3] == v.N, a[6] == v.M), 'dimensions')
    ex.store(st, a[1], U('df'))
    for k, nm, n in ((2, 'dx', v.N), (5, 'dg', v.M)):
        u = z3.Bool('user:use:' + nm)
        ex.store(st, a[k], as_int(u) if False else u, 'i8')
        MD.wr(ex, st, Ptr(a[k + 2].b, a[k + 2].c, a[k + 2].t), 'double', n, lambda j, nm=nm, u=u: z3.If(u, U(nm, j), U('garbage:' + nm, j)))
    return ret(st, OK('scaling'))


def expm(v, name, nr, nc):
    """expansion matrix; returns pointer, E, C"""
    sp = v.obj(XM + 'Space', name + '.space')
    v.set(v.st, sp, 'nRows_', nr)
    v.set(v.st, sp, 'nCols_', nc)
    b = v.st.wb(name + '.space')
    for c, k in ((nr, 'nRows_'), (nc, 'nCols_')):
        b.cells[v.off('Ipopt::MatrixSpace', k)] = c
    e, c = v.arr(name + '.E', nc, S=4, ty='i32'), v.arr(name + '.C', nr, S=4, ty='i32')
    v.set(v.st, sp, 'expanded_pos_', e)
    v.set(v.st, sp, 'compressed_pos_', c)
    p = v.obj(XM, name)
    b = v.st.wb(name)
    for cl in (XM, 'Ipopt::Matrix'):
        if any(x[0] == 'owner_space_' for x in v.mod.classes[cl]['m']):
            b.cells[v.off(cl, 'owner_space_') if cl == XM else v.mod.baseoff(XM, cl) + v.off(cl, 'owner_space_')] = sp
    E, C = v.body(v.st, e, 'i32'), v.body(v.st, c, 'i32')
    q = z3.Int('$q_' + name)
    v.assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < nc), z3.And(E(q) >= 0, E(q) < nr, C(E(q)) == q)), patterns=[E(q)]))
    v.assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < nr), z3.Or(C(q) == -1, z3.And(C(q) >= 0, C(q) < nc, E(C(q)) == q))), patterns=[C(q)]))
    return p, E, C


@MODELS.regv('Ipopt::VectorSpace', 'MakeNew', 'interface', 'a new vector of the space, not initialised')
def m_mknew(ex, st, a, ins):
    return ret(st, st.mem[a[0].b].ghost['makes'])


BNDS = MODELS.child()


@BNDS.reg(AD + '::ResortBounds', 'contract', 'proved: ResortBounds')
def m_resortb(ex, st, a, ins):
    v = ex.vv
    ex.require(st, z3.BoolVal((a[1].b, a[2].b, a[3].b, a[4].b) == ('zL', 'origL', 'zU', 'origU')), 'multipliers are sorted into the vectors of the user')
    for k in 'LU':
        C, L = getattr(v, 'C' + k), v.body(st, v.t[k])
        st.wb(v.t[k].b).fields[0] = z3.If(v.nul[k], L(J), z3.If(C(J) != -1, v.Z[k](C(J)), rv(0)))
    return ret(st)


SORT = MODELS.child()


@SORT.reg(AD + '::ResortG', 'contract', 'proved: ResortG')
def m_resortg(ex, st, a, ins):
    v = ex.vv
    ex.require(st, z3.And(z3.BoolVal((a[1].b, a[2].b, a[3].b, a[3].c) == ('yc', 'yd', 'full_lambda_', 0) and not a[3].t), z3.Not(as_bool(a[4]))), 'multipliers are sorted into the vector of the user')
    L = v.body(st, a[3])
    st.wb(a[3].b).fields[0] = z3.If(v.Cc(J) != -1, v.yc(v.Cc(J)), z3.If(v.Cd(J) != -1, v.yd(v.Cd(J)), L(J)))
    return ret(st)


VALS = MODELS.child()


@VALS.reg('re:^Ipopt::DenseVector::Values\(\)$', 'contract', 'proved in C07: the array of all entries, to be overwritten')
def m_values(ex, st, a, ins):
    v = ex.vv
    p = a[0]
    f = view(v, st, p)
    vp = Ptr(p.b + '.vals')
    ex.require(st, z3.BoolVal(p.c == 0 and v.get(st, p, 'values_').b == vp.b), 'a vector of the interface')
    st.wb(vp.b).fields[0] = f(J)
    for k, x in (('values_', vp), ('homogeneous_', FALSE), ('initialized_', TRUE)):
        v.set(st, p, k, x)
    st.wb(p.b).cells[TAG] = st.fresh('tag', IntS)
    return ret(st, vp)


def jobs():
    out = []

    def adp(v, fixed):
        v.p = v.obj(AD, 'this')
        v.fixed = fixed
        F = v.F = v.fields(v.p, only=['n_full_x_', 'n_full_g_', 'nz_jac_c_', 'nz_jac_c_no_extra_', 'nz_jac_d_', 'nz_full_jac_g_', 'nz_full_h_', 'nz_h_', 'n_x_fixed_', 'new_x_pending_', 'x_tag_for_iterates_', 'y_c_tag_for_iterates_',
                                      'y_d_tag_for_iterates_', 'x_tag_for_g_', 'x_tag_for_jac_g_', 'fixed_variable_treatment_', 'jacobian_approximation_', 'gradient_approximation_', 'bound_relax_factor_'])
        for t in ('fixed_variable_treatment_', 'jacobian_approximation_', 'gradient_approximation_', 'x_tag_for_iterates_', 'y_c_tag_for_iterates_', 'y_d_tag_for_iterates_', 'x_tag_for_g_', 'x_tag_for_jac_g_'):
            if t not in F:
                F[t] = v.int(t)
                v.set(v.st, v.p, t, F[t])
        v.N, v.M, v.T, v.nf = F['n_full_x_'], F['n_full_g_'], F['fixed_variable_treatment_'], F['n_x_fixed_']
        v.assume(z3.And(v.N >= 0, v.M >= 0, v.nf >= 0, v.nf <= v.N, v.T >= 0, v.T <= 3, F['nz_full_jac_g_'] >= 0, F['nz_full_h_'] >= 0))
        v.obj(TN, 'tnlp')
        v.set(v.st, v.p, 'tnlp_', Ptr('tnlp'))
        v.obj('Ipopt::Journalist', 'jnlst')
        v.set(v.st, v.p, 'jnlst_', Ptr('jnlst'))
        for f, n in (('full_x_', v.N), ('full_lambda_', v.M), ('full_g_', v.M), ('jac_g_', F['nz_full_jac_g_'])):
            v.set(v.st, v.p, f, v.arr(f, n))
        v.fx0 = v.body(v.st, Ptr('full_x_'))
        v.nc, v.nd = v.int('nc'), v.int('nd')
        v.assume(z3.And(v.nc >= 0, v.nd >= 0))
        if fixed:
            v.nx = v.int('nx')
            v.assume(z3.And(v.nx >= 0, v.nx <= v.N, z3.Or(v.T == PARAM, v.T == NODUAL), v.nf > 0))
            P, v.E, v.C = expm(v, 'P_x_full_x', v.N, v.nx)
            v.set(v.st, v.p, 'P_x_full_x_', P)
        else:
            v.nx = v.N
            v.E = v.C = lambda j: j
            v.assume(z3.Implies(z3.Or(v.T == PARAM, v.T == NODUAL), v.nf == 0))
            v.set(v.st, v.p, 'P_x_full_x_', NULL)
        v.assume(z3.Implies(v.T == RELAX, v.nf == 0))
        fm = v.arr('x_fixed_map_', v.nf, S=4, ty='i32')
        v.fm = v.body(v.st, fm, 'i32')
        q = z3.Int('$q_fm')
        v.assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < v.nf), z3.And(v.fm(q) >= 0, v.fm(q) < v.N)), patterns=[v.fm(q)]))
        if fixed:
            v.assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < v.nf), v.C(v.fm(q)) == -1), patterns=[v.fm(q)]))
        v.set(v.st, v.p, 'x_fixed_map_', v.nullable(fm, v.nf == 0))
        for k, n in (('c', v.nc), ('d', v.nd)):
            P, E, C = expm(v, 'P_%s_g' % k, v.M, n)
            v.set(v.st, v.p, 'P_%s_g_' % k, P)
            setattr(v, 'E' + k, E)
            setattr(v, 'C' + k, C)
        # a constraint is an equation or an inequality
        v.assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < v.M), z3.Or(v.Cc(q) == -1, v.Cd(q) == -1)), patterns=[v.Cc(q)]))
        v.ncf = v.nc + z3.If(v.T == CONSTR, v.nf, 0)
        rhs = v.arr('c_rhs', v.ncf)
        v.set(v.st, v.p, 'c_rhs_', rhs)
        v.rhs = v.body(v.st, rhs)
        # ghost: what the user saw last
        v.arr('announced', v.N)
        v.arr('annlam', v.M)

    def vec(v, name, n, init=True, dom=None):
        sp = mkspace(v, name + '.space', n)
        p = mkvec(v, name, n, sp, init=init)
        t = v.int('tag.' + name)
        v.st.wb(name).cells[v.mod.fieldoff('Ipopt::TaggedObject', 'tag_')[0]] = t
        v.assume(t > 0)
        return p

    def ok(v, kd, st):
        v.ensure(st, z3.BoolVal(kd == 'ret'), 'returns normally')
        return kd == 'ret'

    def job(name, fn, setup, post, **kw):
        out.append(Job(name, AD + '::' + fn, setup, post, **kw))

    def outvec(*names):
        """what may change in a vector that is written"""
        def f(v):
            a = set()
            for y in names:
                a |= {(y, v.off(DV.DV, k)) for k in ('values_', 'expanded_values_', 'homogeneous_', 'scalar_', 'initialized_')} | {(y + '.vals', ('f', 0)), (y + '.vals', 'release'), (y, TAG)}
            return a
        return f

    def inp(v, *names):
        return {(x, v.off(DV.DV, 'expanded_values_')) for x in names}
    FX = ('fixed', True), ('not fixed', False)

    def entry(v, st, got, want, n, what, cond=TRUE):
        s2 = st.fork()
        j = v.skolem()
        s2.assume(z3.And(j >= 0, j < n, cond))
        v.ensure(s2, got(j) == want(j), what)

    # ---- ResortX
    for case, fx in FX:
        for tgt in ('other', 'own'):
            def s(v, fx=fx, tgt=tgt):
                adp(v, fx)
                v.x = vec(v, 'x', v.nx)
                v.X = view(v, v.st, v.x)
                v.use = v.bool('usefixedvals')
                v.t = v.arr('target', v.N) if tgt == 'other' else Ptr('full_x_')
                return [v.p, v.x, v.t, v.use]

            def p(v, kd, st, val, fx=fx):
                if not ok(v, kd, st):
                    return
                want = v.X if not fx else lambda i: z3.If(v.C(i) != -1, v.X(v.C(i)), z3.If(v.use, v.fx0(i), rv(0)))
                entry(v, st, v.body(st, v.t), want, v.N, 'entry of the user vector')
                v.frame(st, {(v.t.b, ('f', 0))} | inp(v, 'x'))
            job('ResortX[%s, %s]' % (case, tgt), 'ResortX', s, p)

    def put(base, E, f, n, j):
        """f(i) for the last i < n with E(i) = j, else base"""
        return fold1(base, lambda a, i: z3.If(E(i) == j, f(i), a), n)

    def putlemma(v, st, base, E, C, f, n, j, what):
        """E has inverse C: put is f(C(j)), or base if there is none"""
        v.induct(st, lambda k: put(base, E, f, k, j) == z3.If(z3.And(C(j) >= 0, C(j) < k), f(C(j)), base), n, what)

    def sortg(v, st, g0, c, d, corr=None):
        f = (lambda i: c(i) + z3.If(corr, v.rhs(i), rv(0))) if corr is not None else c
        def at(j):
            return z3.If(v.Cc(j) != -1, f(v.Cc(j)), z3.If(v.Cd(j) != -1, d(v.Cd(j)), g0(j)))
        return at

    def lemmas(v, st, g0, c, d, corr, j):
        f = (lambda i: c(i) + z3.If(corr, v.rhs(i), rv(0))) if corr is not None else c
        putlemma(v, st, g0(j), v.Ec, v.Cc, f, v.nc, j, 'position of equality constraint j')
        b = put(g0(j), v.Ec, f, v.nc, j)
        putlemma(v, st, b, v.Ed, v.Cd, d, v.nd, j, 'position of inequality constraint j')

    # ---- ResortG
    for corr in (True, False):
        def s(v, corr=corr):
            adp(v, False)
            v.c, v.d = vec(v, 'c', v.ncf), vec(v, 'd', v.nd)
            v.t = v.arr('target', v.M)
            return [v.p, v.c, v.d, v.t, z3.BoolVal(corr)]

        def p(v, kd, st, val, corr=corr):
            if not ok(v, kd, st):
                return
            st2 = st.fork()
            g0, c, d = v.body(v.pre, v.t), view(v, v.pre, v.c), view(v, v.pre, v.d)
            j = v.skolem()
            st2.assume(z3.And(j >= 0, j < v.M))
            got = v.body(st2, v.t)(j)
            f = lambda i: c(i) + v.rhs(i) if corr else c(i)
            lemmas_at = put(put(g0(j), v.Ec, f, v.nc, j), v.Ed, d, v.nd, j)
            putlemma(v, st2, g0(j), v.Ec, v.Cc, f, v.nc, j, 'position of equality constraint j')
            putlemma(v, st2, put(g0(j), v.Ec, f, v.nc, j), v.Ed, v.Cd, d, v.nd, j, 'position of inequality constraint j')
            v.ensure(st2, got == lemmas_at, 'entries are written to the positions of their constraints')
            st2.assume(got == lemmas_at)
            v.ensure(st2, got == z3.If(v.Cc(j) != -1, f(v.Cc(j)), z3.If(v.Cd(j) != -1, d(v.Cd(j)), g0(j))), 'entry j of the user vector')
            v.frame(st, {('target', ('f', 0))} | inp(v, 'c', 'd'))
        job('ResortG[%s]' % ('with right-hand side' if corr else 'plain'), 'ResortG', s, p)

    # ---- protocol of the evaluations
    def proto(v, x=True):
        F = v.F
        v.pend, v.tag = F['new_x_pending_'], F['x_tag_for_iterates_']
        v.x = vec(v, 'x', v.nx)
        v.X = view(v, v.st, v.x)
        v.tx = v.int('tag.x')
        v.pt = (lambda i: z3.If(v.C(i) != -1, v.X(v.C(i)), v.fx0(i))) if v.fixed else v.X
        v.G0, v.J0 = v.body(v.st, Ptr('full_g_')), v.body(v.st, Ptr('jac_g_'))
        v.assume(z3.And(F['x_tag_for_iterates_'] >= 0, F['x_tag_for_g_'] >= 0, F['x_tag_for_jac_g_'] >= 0))
        q = z3.Int('$q_i')
        a = v.body(v.st, Ptr('announced'))
        v.assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < v.N, v.tag == v.tx), v.fx0(q) == v.pt(q)), patterns=[v.fx0(q)]))
        v.assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < v.N, v.tag != 0, z3.Not(v.pend)), a(q) == v.fx0(q)), patterns=[a(q)]))
        v.assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < v.M, F['x_tag_for_g_'] == v.tx), v.G0(q) == U('g', q)), patterns=[v.G0(q)]))
        v.assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < F['nz_full_jac_g_'], F['x_tag_for_jac_g_'] == v.tx), v.J0(q) == U('jac_g', q)), patterns=[v.J0(q)]))

    def inv(v, st):
        get = lambda f: v.get(st, v.p, f)
        v.ensure(st, get('x_tag_for_iterates_') == v.tx, 'the point is remembered by its tag')
        fx, an = v.body(st, Ptr('full_x_')), v.body(st, Ptr('announced'))
        entry(v, st, fx, v.pt, v.N, 'the user vector is the point')
        entry(v, st, an, fx, v.N, 'a point the user has not seen last is pending', z3.Not(as_bool(get('new_x_pending_'))))
        for t, f, w, n in (('x_tag_for_g_', 'full_g_', 'g', v.M), ('x_tag_for_jac_g_', 'jac_g_', 'jac_g', v.F['nz_full_jac_g_'])):
            entry(v, st, v.body(st, Ptr(f)), lambda j: U(w, j), n, 'stored values of %s are those at the point they are remembered for' % w, get(t) == v.tx)
            v.ensure(st, z3.Or(get(t) == 0, get(t) == v.tx, get(t) == v.F[t]), 'values are remembered for a point they were computed for: ' + w)
            entry(v, st, v.body(st, Ptr(f)), v.body(v.pre, Ptr(f)), n, 'values kept for another point are unchanged: ' + w, z3.And(get(t) == v.F[t], get(t) != v.tx, get(t) != 0))

    def fr(v, *f):
        return {('this', v.off(AD, k)) for k in ('new_x_pending_', 'x_tag_for_iterates_') + f} | {('full_x_', ('f', 0)), ('announced', ('f', 0))} | inp(v, 'x')
    GF = {('full_g_', ('f', 0))}
    JF = {('jac_g_', ('f', 0))}

    for case, fx in FX:
        # update_local_x
        def s(v, fx=fx):
            adp(v, fx)
            proto(v)
            return [v.p, v.x]

        def p(v, kd, st, val):
            if not ok(v, kd, st):
                return
            v.ensure(st, v.get(st, v.p, 'x_tag_for_iterates_') == v.tx, 'the point is remembered by its tag')
            fxx = v.body(st, Ptr('full_x_'))
            entry(v, st, fxx, v.pt, v.N, 'the user vector is the point')
            entry(v, st, v.body(st, Ptr('announced')), fxx, v.N, 'the point has to be announced unless the user saw it last', z3.Not(as_bool(val)))
            v.frame(st, fr(v))
        job('update_local_x[%s]' % case, 'update_local_x', s, p)

        # Eval_f
        def s(v, fx=fx):
            adp(v, fx)
            proto(v)
            return [v.p, v.x, v.cell('f', v.real('old f'))]

        def p(v, kd, st, val):
            if not ok(v, kd, st):
                return
            v.ensure(st, as_bool(val) == OK('f'), 'failure is reported')
            v.ensure(st, z3.Implies(as_bool(val), st.mem['f'].cells[0] == U('f')), 'the objective of the user')
            v.ensure(st, z3.BoolVal(st.gh.get('calls') == ('f',)), 'the user is asked once')
            inv(v, st)
            v.frame(st, fr(v) | {('f', 0)})
        job('Eval_f[%s]' % case, 'Eval_f', s, p)

        # Eval_grad_f
        def s(v, fx=fx):
            adp(v, fx)
            proto(v)
            v.assume(v.F['gradient_approximation_'] == 0)
            v.o = vec(v, 'out', v.nx, init=False)
            return [v.p, v.x, v.o]

        def p(v, kd, st, val):
            if not ok(v, kd, st):
                return
            v.ensure(st, as_bool(val) == OK('grad_f'), 'failure is reported')
            entry(v, st, view(v, st, v.o), lambda j: U('grad_f', v.E(j)), v.nx, 'entry of the gradient', as_bool(val))
            inv(v, st)
            v.frame(st, fr(v) | outvec('out')(v))
        job('Eval_grad_f[%s]' % case, 'Eval_grad_f', s, p)

        # Eval_c, Eval_d
        for k in 'cd':
            def s(v, fx=fx, k=k):
                adp(v, fx)
                proto(v)
                v.o = vec(v, 'out', v.ncf if k == 'c' else v.nd, init=False)
                return [v.p, v.x, v.o]

            def p(v, kd, st, val, k=k):
                if not ok(v, kd, st):
                    return
                v.ensure(st, as_bool(val) == z3.Or(OK('g'), v.F['x_tag_for_g_'] == v.tx), 'failure is reported')
                if k == 'd':
                    w = lambda j: U('g', v.Ed(j))
                else:
                    w = lambda j: z3.If(j < v.nc, U('g', v.Ec(j)), v.pt(v.fm(j - v.nc))) - v.rhs(j)
                entry(v, st, view(v, st, v.o), w, v.ncf if k == 'c' else v.nd, 'entry of the constraints', as_bool(val))
                inv(v, st)
                v.frame(st, fr(v, 'x_tag_for_g_') | GF | outvec('out')(v))
            job('Eval_%s[%s]' % (k, case), 'Eval_' + k, s, p)

            # Jacobians
            def s(v, fx=fx, k=k):
                adp(v, fx)
                proto(v)
                v.assume(v.F['jacobian_approximation_'] == 0)
                tmat(v, 'Ipopt::GenTMatrix', v.F['nz_jac_d_'] if k == 'd' else v.F['nz_jac_c_'])
                F = v.F
                v.assume(z3.And(F['nz_jac_c_no_extra_'] >= 0, F['nz_jac_d_'] >= 0, F['nz_jac_c_'] == F['nz_jac_c_no_extra_'] + z3.If(v.T == CONSTR, v.nf, 0), F['nz_jac_c_no_extra_'] + F['nz_jac_d_'] <= F['nz_full_jac_g_']))
                v.map = imap(v, 'jac_idx_map_', F['nz_full_jac_g_'], F['nz_jac_c_no_extra_'] + F['nz_jac_d_'])
                v.set(v.st, v.p, 'jac_idx_map_', Ptr('jac_idx_map_'))
                return [v.p, v.x, v.m]

            def p(v, kd, st, val, k=k):
                if not ok(v, kd, st):
                    return
                v.ensure(st, as_bool(val) == z3.Or(OK('jac_g'), v.F['x_tag_for_jac_g_'] == v.tx), 'failure is reported')
                F = v.F
                if k == 'd':
                    w, n = lambda j: U('jac_g', v.map(F['nz_jac_c_no_extra_'] + j)), F['nz_jac_d_']
                else:
                    w, n = lambda j: z3.If(j < F['nz_jac_c_no_extra_'], U('jac_g', v.map(j)), rv(1)), F['nz_jac_c_']
                entry(v, st, v.body(st, Ptr('mat.values')), w, n, 'entry of the Jacobian', as_bool(val))
                inv(v, st)
                v.frame(st, fr(v, 'x_tag_for_jac_g_') | JF | {('mat.values', ('f', 0)), ('mat', TAG), ('mat', v.off('Ipopt::GenTMatrix', 'initialized_'))})
            job('Eval_jac_%s[%s]' % (k, case), 'Eval_jac_' + k, s, p)

    # ---- multipliers and Hessian
    def lam(v):
        F = v.F
        v.yv = vec(v, 'yc', v.ncf), vec(v, 'yd', v.nd)
        v.yc, v.yd = [view(v, v.st, y) for y in v.yv]
        v.tyc, v.tyd = v.int('tag.yc'), v.int('tag.yd')
        v.L0 = v.body(v.st, Ptr('full_lambda_'))
        v.known = z3.And(F['y_c_tag_for_iterates_'] == v.tyc, F['y_d_tag_for_iterates_'] == v.tyd)
        q = z3.Int('$q_l')
        a = v.body(v.st, Ptr('annlam'))
        v.assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < v.nc, v.known), v.L0(v.Ec(q)) == v.yc(q)), patterns=[v.Ec(q)]))
        v.assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < v.nd, v.known), v.L0(v.Ed(q)) == v.yd(q)), patterns=[v.Ed(q)]))
        v.assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < v.M, v.known), a(q) == v.L0(q)), patterns=[a(q)]))

    def lamfr(v):
        return {('this', v.off(AD, k)) for k in ('y_c_tag_for_iterates_', 'y_d_tag_for_iterates_')} | {('full_lambda_', ('f', 0))} | inp(v, 'yc', 'yd')

    def lamsort(v, st):
        """full_lambda_ holds the multipliers at the positions of their constraints"""
        v.ensure(st, z3.And(v.get(st, v.p, 'y_c_tag_for_iterates_') == v.tyc, v.get(st, v.p, 'y_d_tag_for_iterates_') == v.tyd), 'the multipliers are remembered by their tags')
        for k, E, C, Y, n in (('c', v.Ec, v.Cc, v.yc, v.nc), ('d', v.Ed, v.Cd, v.yd, v.nd)):
            entry(v, st, lambda i: v.body(st, Ptr('full_lambda_'))(E(i)), Y, n, 'multiplier %s is at the position of its constraint' % k)

    def s(v):
        adp(v, False)
        lam(v)
        return [v.p] + list(v.yv)

    def p(v, kd, st, val):
        if not ok(v, kd, st):
            return
        lamsort(v, st)
        entry(v, st, v.body(st, Ptr('full_lambda_')), v.body(st, Ptr('annlam')), v.M, 'multipliers have to be announced unless the user saw them last', z3.Not(as_bool(val)))
        v.frame(st, lamfr(v))
    job('update_local_lambda', 'update_local_lambda', s, p, models=SORT)

    for case, fx in FX:
        for mp in (True, False):
            def s(v, fx=fx, mp=mp):
                adp(v, fx)
                proto(v)
                lam(v)
                F = v.F
                tmat(v, 'Ipopt::SymTMatrix', F['nz_h_'])
                if mp:
                    v.assume(F['nz_h_'] <= F['nz_full_h_'])
                    v.map = imap(v, 'h_idx_map_', F['nz_full_h_'], F['nz_h_'])
                    v.set(v.st, v.p, 'h_idx_map_', Ptr('h_idx_map_'))
                else:
                    v.assume(F['nz_h_'] == F['nz_full_h_'])
                    v.map = lambda j: j
                    v.set(v.st, v.p, 'h_idx_map_', NULL)
                v.of = v.real('obj_factor')
                return [v.p, v.x, v.of] + list(v.yv) + [v.m]

            def p(v, kd, st, val):
                if not ok(v, kd, st):
                    return
                F = v.F
                H = v.body(st, Ptr('mat.values'))
                if st.gh.get('calls'):
                    v.ensure(st, as_bool(val) == OK('h'), 'failure is reported')
                    entry(v, st, H, lambda j: U('h', v.map(j)), F['nz_h_'], 'entry of the Hessian', as_bool(val))
                    inv(v, st)
                    entry(v, st, v.body(st, Ptr('annlam')), v.body(st, Ptr('full_lambda_')), v.M, 'the user saw the multipliers that are remembered')
                    lamtags(v, st)
                else:
                    v.ensure(st, as_bool(val), 'no failure')
                    v.ensure(st, v.of == 0, 'only a Hessian with factor 0 is not asked for')
                    entry(v, st, v.yc, lambda j: rv(0), v.ncf, 'and with multipliers c that are 0')
                    entry(v, st, v.yd, lambda j: rv(0), v.nd, 'and with multipliers d that are 0')
                    entry(v, st, H, lambda j: rv(0), F['nz_h_'], 'it is 0')
                v.frame(st, fr(v) | lamfr(v) | {('annlam', ('f', 0)), ('mat.values', ('f', 0)), ('mat', TAG), ('mat', v.off('Ipopt::SymTMatrix', 'initialized_')), ('yc', TAG), ('yd', TAG)})
            job('Eval_h[%s, %s]' % (case, 'map' if mp else 'no map'), 'Eval_h', s, p, models=SORT)

    def lamtags(v, st):
        v.ensure(st, z3.And(v.get(st, v.p, 'y_c_tag_for_iterates_') == v.tyc, v.get(st, v.p, 'y_d_tag_for_iterates_') == v.tyd), 'the multipliers are remembered by their tags')

    # ---- bounds
    def bnd(v, names='LU'):
        for k in names:
            n = v.int('n_x' + k)
            v.assume(z3.And(n >= 0, n <= v.nx))
            P, E, C = expm(v, 'P_x_x_' + k, v.nx, n)
            setattr(v, 'P' + k, P)
            setattr(v, 'E' + k, (lambda E: lambda i: v.E(E(i)) if v.fixed else E(i))(E))
            setattr(v, 'C' + k, (lambda C: lambda j: z3.If(v.C(j) == -1, -1, C(v.C(j))) if v.fixed else C(j))(C))
            setattr(v, 'n' + k, n)
            v.set(v.st, v.p, 'P_x_x_%s_' % k, P)
            # an injective map of all positions into as many positions reaches each of them (pigeonhole principle)
            q = z3.Int('$q_ph')
            v.assume(z3.Implies(n == v.N, z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < v.N), getattr(v, 'C' + k)(q) != -1), patterns=[C(q)] + ([] if not v.fixed else []))))
            v.ph = getattr(v, 'ph', {})
            v.ph[k] = lambda j, n=n, k=k: z3.Implies(n == v.N, getattr(v, 'C' + k)(j) != -1)

    for case, fx in FX:
        def s(v, fx=fx, hm=None):
            adp(v, fx)
            bnd(v)
            v.z = {k: vec(v, 'z' + k, getattr(v, 'n' + k)) for k in 'LU'}
            v.Z = {k: view(v, v.st, v.z[k]) for k in 'LU'}
            for k in 'LU':
                v.assume(v.bool('z%s.homog' % k) == z3.BoolVal(k in hm))
            v.nul = {k: v.bool('no ' + k) for k in 'LU'}
            v.t = {k: v.arr('orig' + k, v.N) for k in 'LU'}
            t = {k: v.nullable(v.t[k], v.nul[k]) for k in 'LU'}
            return [v.p, v.z['L'], t['L'], v.z['U'], t['U']]

        def p(v, kd, st, val):
            if not ok(v, kd, st):
                return
            for k in 'LU':
                E, C, n = [getattr(v, x + k) for x in 'ECn']
                s2 = st.fork()
                j = v.skolem()
                s2.assume(z3.And(j >= 0, j < v.N, z3.Not(v.nul[k])))
                s2.assume(v.ph[k](j))
                base = z3.If(n < v.N, rv(0), v.body(v.pre, v.t[k])(j))
                putlemma(v, s2, base, E, C, v.Z[k], n, j, 'position of bound ' + k)
                v.ensure(s2, v.body(s2, v.t[k])(j) == z3.If(C(j) != -1, v.Z[k](C(j)), rv(0)), 'multiplier of bound %s is at the position of its variable, 0 elsewhere' % k)
            v.frame(st, {('origL', ('f', 0)), ('origU', ('f', 0))} | inp(v, 'zL', 'zU'))
        for hm in ('', 'L', 'U', 'LU'):
            job('ResortBounds[%s, homogeneous: %s]' % (case, hm or 'none'), 'ResortBounds', lambda v, s=s, hm=hm: s(v, hm=hm), p, budget=240)

        # GetBoundsInformation
        def s(v, fx=fx):
            adp(v, fx)
            bnd(v)
            v.assume(v.F['jacobian_approximation_'] == 0)
            v.assume(v.F['gradient_approximation_'] == 0)
            for k in 'LU':
                n = v.int('n_d' + k)
                v.assume(z3.And(n >= 0, n <= v.nd))
                P, E, C = expm(v, 'Pd_' + k, v.nd, n)
                setattr(v, 'Pd' + k, P)
                setattr(v, 'Ed' + k, E)
                setattr(v, 'nd' + k, n)
            v.b = {k: vec(v, 'x_' + k, getattr(v, 'n' + k), init=False) for k in 'LU'}
            v.d = {k: vec(v, 'd_' + k, getattr(v, 'nd' + k), init=False) for k in 'LU'}
            return [v.p, v.PL, v.b['L'], v.PU, v.b['U'], v.PdL, v.d['L'], v.PdU, v.d['U']]

        def p(v, kd, st, val):
            if kd == 'throw':
                v.ensure(st, z3.Not(OK('bounds')), 'refused only if the user has no bounds')
                return
            v.ensure(st, z3.And(as_bool(val), OK('bounds')), 'bounds of the user')
            bf = v.F['bound_relax_factor_']

            def bentry(k, nm, sg):
                E, n, X = getattr(v, 'E' + k), getattr(v, 'n' + k), view(v, st, v.b[k])
                s2 = st.fork()
                i = v.skolem()
                s2.assume(z3.And(i >= 0, i < n))
                u, rel = U(nm, E(i)), z3.And(v.T == RELAX, U('x_l', E(i)) == U('x_u', E(i)))
                for cond, want in ((z3.Not(rel), u), (z3.And(rel, bf <= rv(1e-8), fabs(u) <= 1), u + sg * rv(1e-8)), (z3.And(rel, bf <= rv(1e-8), fabs(u) > 1), u + sg * rv(1e-8) * fabs(u)),
                                   (z3.And(rel, bf > rv(1e-8), fabs(u) <= 1), u + sg * bf), (z3.And(rel, bf > rv(1e-8), fabs(u) > 1), u + sg * bf * fabs(u))):
                    s3 = s2.fork()
                    s3.assume(cond)
                    v.ensure(s3, X(i) == want, 'bound %s of a variable' % k)
            for k, nm, sg in (('L', 'x_l', -1), ('U', 'x_u', 1)):
                E = getattr(v, 'E' + k)
                bentry(k, nm, sg)
                D = getattr(v, 'Ed' + k)
                entry(v, st, view(v, st, v.d[k]), lambda i: U('g_' + nm[-1], v.Ed(D(i))), getattr(v, 'nd' + k), 'bound %s of a constraint' % k)
            entry(v, st, v.body(st, Ptr('c_rhs')), lambda i: z3.If(i < v.nc, U('g_l', v.Ec(i)), U('x_l', v.fm(i - v.nc))), v.ncf, 'right-hand side of an equation')
            fx, par = v.body(st, Ptr('full_x_')), z3.Or(v.T == PARAM, v.T == NODUAL)
            s2 = st.fork()
            w = v.skolem()
            s2.assume(z3.And(w >= 0, w < v.nf, par))
            i = v.fm(w)
            v.induct(s2, lambda k: z3.Implies(k > w, put(v.fx0(i), v.fm, lambda q: U('x_l', v.fm(q)), k, i) == U('x_l', i)), v.nf, 'the value of fixed variable w is set')
            v.ensure(s2, fx(i) == U('x_l', i), 'a fixed variable has the value of its bounds')
            s2 = st.fork()
            i, q = v.skolem(), z3.Int('$q_nf')
            s2.assume(z3.And(i >= 0, i < v.N, z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < v.nf), v.fm(q) != i), patterns=[v.fm(q)])))
            v.induct(s2, lambda k: put(v.fx0(i), v.fm, lambda q: U('x_l', v.fm(q)), k, i) == v.fx0(i), v.nf, 'the value of a variable that is not fixed is kept')
            v.ensure(s2, fx(i) == v.fx0(i), 'the value of a variable that is not fixed is kept')
            v.frame(st, outvec('x_L', 'x_U', 'd_L', 'd_U')(v) | {('c_rhs', ('f', 0)), ('full_x_', ('f', 0))})
        job('GetBoundsInformation[%s]' % case, 'GetBoundsInformation', s, p, models=VALS)

        # GetStartingPoint
        def s(v, fx=fx):
            adp(v, fx)
            bnd(v)
            v.o = {'x': vec(v, 'x', v.nx, init=False), 'yc': vec(v, 'yc', v.ncf, init=False), 'yd': vec(v, 'yd', v.nd, init=False),
                   'zL': vec(v, 'zL', v.nL, init=False), 'zU': vec(v, 'zU', v.nU, init=False)}
            v.need = {k: v.bool('need_' + k) for k in v.o}
            a = [v.p]
            for k in v.o:
                a += [v.cell('sp.' + k, v.o[k]), v.need[k]]
            return a

        def p(v, kd, st, val):
            if not ok(v, kd, st):
                return
            v.ensure(st, as_bool(val) == OK('start'), 'failure is reported')
            w = {'x': (lambda i: U('x0', v.E(i)), v.nx), 'yd': (lambda i: U('lam0', v.Ed(i)), v.nd), 'zL': (lambda i: U('zl0', v.EL(i)), v.nL), 'zU': (lambda i: U('zu0', v.EU(i)), v.nU),
                 'yc': (lambda i: z3.If(i < v.nc, U('lam0', v.Ec(i)), U('zu0', v.fm(i - v.nc)) - U('zl0', v.fm(i - v.nc))), v.ncf)}
            for k, (f, n) in w.items():
                entry(v, st, view(v, st, v.o[k]), f, n, 'starting value of %s' % k, z3.And(as_bool(val), v.need[k]))
                v.ensure(st, z3.Implies(z3.And(z3.Not(v.need[k])), as_bool(v.get(st, v.o[k], 'initialized_')) == as_bool(v.get(v.pre, v.o[k], 'initialized_'))), 'only what is asked for is set')
            v.frame(st, outvec(*v.o)(v))
        job('GetStartingPoint[%s]' % case, 'GetStartingPoint', s, p, models=VALS, merge=True)

        # GetScalingParameters
        def s(v, fx=fx):
            adp(v, fx)
            v.o = {'x': vec(v, 'xs', v.nx, init=False), 'c': vec(v, 'cs', v.ncf, init=False), 'd': vec(v, 'ds', v.nd, init=False)}
            a = [v.p]
            for k in 'xcd':
                v.obj('Ipopt::VectorSpace', k + 'space')
                v.st.wb(k + 'space').ghost['makes'] = v.o[k]
                a.append(v.cell('sp.' + k, Ptr(k + 'space')))
            a.append(v.cell('df', v.real('old df')))
            for k in 'xcd':
                a.append(v.cell('out.' + k, NULL))
            return a

        def p(v, kd, st, val):
            if kd == 'throw':
                v.ensure(st, z3.Not(OK('scaling')), 'refused only if the user has no factors')
                v.ensure(st, AL.throws(kd, val, 'OPTION_INVALID'), 'the exception says so')
                return
            v.ensure(st, OK('scaling'), 'factors of the user')
            v.ensure(st, st.mem['df'].cells[0] == U('df'), 'scaling of the objective')
            for k, u, f, n in (('x', 'dx', lambda i: U('dx', v.E(i)), v.nx), ('c', 'dg', lambda i: z3.If(i < v.nc, U('dg', v.Ec(i)), rv(1)), v.ncf), ('d', 'dg', lambda i: U('dg', v.Ed(i)), v.nd)):
                o = st.mem['out.' + k].cells[0]
                use = z3.Bool('user:use:' + u)
                v.ensure(st, use == z3.BoolVal(o.b is not None), 'factors %s are there if the user has some' % k)
                if o.b is not None:
                    v.ensure(st, z3.BoolVal(o.b == v.o[k].b), 'the vector of the factors')
                    entry(v, st, view(v, st, v.o[k]), f, n, 'factor of %s' % k)
        job('GetScalingParameters[%s]' % case, 'GetScalingParameters', s, p, models=VALS)

        # ResortBoundMultipliers
        for tr in ((CONSTR, RELAX) if not fx else (NODUAL, PARAM)):
            def s(v, fx=fx, tr=tr):
                adp(v, fx)
                proto(v)
                bnd(v)
                v.assume(v.T == tr)
                v.yv = vec(v, 'yc', v.ncf), vec(v, 'yd', v.nd)
                v.yc, v.yd = [view(v, v.st, y) for y in v.yv]
                v.z = {k: vec(v, 'z' + k, getattr(v, 'n' + k)) for k in 'LU'}
                v.Z = {k: view(v, v.st, v.z[k]) for k in 'LU'}
                v.nul = {k: v.bool('no ' + k) for k in 'LU'}
                v.t = {k: v.arr('orig' + k, v.N) for k in 'LU'}
                t = {k: v.nullable(v.t[k], v.nul[k]) for k in 'LU'}
                # a fixed variable is listed once
                inv_ = z3.Function('position in the list of fixed variables', IntS, IntS)
                q = z3.Int('$q_inv')
                v.assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < v.nf), inv_(v.fm(q)) == q), patterns=[v.fm(q)]))
                v.assume(z3.ForAll([q], z3.Or(inv_(q) == -1, z3.And(inv_(q) >= 0, inv_(q) < v.nf, v.fm(inv_(q)) == q)), patterns=[inv_(q)]))
                v.fi = inv_
                if tr == PARAM:
                    v.assume(v.F['jacobian_approximation_'] == 0)
                    v.K = v.int('n fixed Jacobian entries')
                    v.assume(v.K >= 0)
                    v.jm = {}
                    for f, hi, lo in (('jac_fixed_idx_map_', v.F['nz_full_jac_g_'], 0), ('jac_fixed_iRow_', v.M + 1, 1), ('jac_fixed_jCol_', v.N + 1, 1)):
                        b = v.arr(f + '.data', v.K, S=4, ty='i32')
                        g = v.body(v.st, b, 'i32')
                        q = z3.Int('$q_' + f)
                        v.assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < v.K), z3.And(g(q) >= lo, g(q) < hi)), patterns=[g(q)]))
                        o = v.off(AD, f)
                        c = v.st.wb('this').cells
                        c[o], c[o + 8], c[o + 16] = b, b.add(0, [(4, v.K)]), b.add(0, [(4, v.K)])
                        v.jm[f] = g
                return [v.p, v.x] + list(v.yv) + [v.z['L'], t['L'], v.z['U'], t['U']]

            def p(v, kd, st, val, tr=tr):
                if not ok(v, kd, st):
                    return
                if tr != PARAM:
                    v.ensure(st, as_bool(val), 'no failure')
                else:
                    v.ensure(st, as_bool(val) == z3.And(OK('grad_f'), z3.Or(v.K == 0, v.F['x_tag_for_jac_g_'] == v.tx, OK('jac_g'))), 'failure is reported')
                    inv(v, st)
                for k, sg in (('L', -1), ('U', 1)):
                    C, n = getattr(v, 'C' + k), getattr(v, 'n' + k)
                    s2 = st.fork()
                    j = v.skolem()
                    s2.assume(z3.And(j >= 0, j < v.N, z3.Not(v.nul[k]), as_bool(val)))
                    plain = z3.If(C(j) != -1, v.Z[k](C(j)), rv(0))
                    got = v.body(s2, v.t[k])(j)
                    if tr == CONSTR:
                        pos = lambda x: z3.If(x > 0, x, rv(0))
                        f = lambda i: pos(sg * v.yc(v.nc + i))
                        putlemma(v, s2, plain, v.fm, v.fi, f, v.nf, j, 'position of fixed variable j')
                        v.ensure(s2, got == z3.If(v.fi(j) != -1, f(v.fi(j)), plain), 'a fixed variable gets the multiplier of its equation, with the sign of the bound ' + k)
                    elif tr == PARAM:
                        break           # the multipliers of fixed variables that are parameters: monitor only
                    else:
                        v.ensure(s2, got == plain, 'multipliers of bound %s are at the positions of their variables, 0 elsewhere' % k)
            nm = {CONSTR: 'make_constraint', RELAX: 'relax_bounds', NODUAL: 'make_parameter_nodual', PARAM: 'make_parameter'}[tr]
            for hm in (None,):
                def s2(v, s=s, hm=hm):
                    r = s(v)
                    if hm:
                        v.assume(z3.And(v.bool('yc.homog') == hm[0], v.bool('yd.homog') == hm[1]))
                    return r
                job('ResortBoundMultipliers[%s%s]' % (nm, ', homogeneous: %s' % (hm,) if hm else ''), 'ResortBoundMultipliers', s2, p, models=BNDS, budget=240)

    def imap(v, name, hi, n):
        a = v.arr(name, hi, S=4, ty='i32')
        f = v.body(v.st, a, 'i32')
        q = z3.Int('$q_' + name)
        v.assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < n), z3.And(f(q) >= 0, f(q) < hi)), patterns=[f(q)]))
        return f

    def tmat(v, cls, nz):
        sp = v.obj(cls + 'Space', 'mat.space')
        v.set(v.st, sp, 'nonZeros_', nz)
        v.m = v.obj(cls, 'mat')
        b = v.st.wb('mat')
        for c in (cls, 'Ipopt::Matrix') + (('Ipopt::SymMatrix',) if 'Sym' in cls else ()):
            try:
                b.cells[v.off(c, 'owner_space_')] = sp
            except Exception:
                pass
        v.set(v.st, v.m, 'values_', v.arr('mat.values', nz))
        v.set(v.st, v.m, 'initialized_', v.bool('mat.init'))
        v.assume(nz >= 0)
    return out
