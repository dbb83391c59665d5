"""contracts of the NLP scaling: what is scaled by which factor, and that everything handed to the user is unscaled again

Three layers.  NLPScalingObject: its composed operations (bounds, bound multipliers, objective gradient) in terms of the elementary ones.
StandardScalingBase and its children: the elementary operations multiply by the stored factors; the factors are the ones asked for.
OrigIpoptNLP: what the algorithm sees is the scaled problem of the user's functions at the unscaled point; starting point, bounds and solution are converted accordingly."""
from ipvlib import *
from absvec import *
import absvec as A
import alg as AL
import models as MD
import stl, re
from ir import *
from engine import *

SRCS = ['Algorithm/IpNLPScaling.cpp', 'Algorithm/IpGradientScaling.cpp', 'Algorithm/IpUserScaling.cpp', 'Algorithm/IpOrigIpoptNLP.cpp', 'LinAlg/IpScaledMatrix.cpp', 'LinAlg/IpSymScaledMatrix.cpp',
        'LinAlg/IpMatrix.cpp', 'Common/IpTaggedObject.cpp']
SO, SB, GS, US, ON = ['Ipopt::' + x for x in ('NLPScalingObject', 'StandardScalingBase', 'GradientScaling', 'UserScaling', 'OrigIpoptNLP')]
REP = {SO: SB, 'Ipopt::VectorSpace': 'Ipopt::DenseVectorSpace', 'Ipopt::MatrixSpace': 'Ipopt::GenTMatrixSpace', 'Ipopt::SymMatrixSpace': 'Ipopt::SymTMatrixSpace', 'Ipopt::NLP': 'Ipopt::TNLPAdapter'}
MODELS = ABS.child()
for k_ in ('Ipopt::CpuTime', 'Ipopt::WallclockTime'):
    MODELS.exact[k_] = AL.ALG.exact[k_]
for r_, m_ in AL.ALG.rx:
    if 'OptionsList' in r_.pattern:
        MODELS.rx.append((r_, m_))
DIM = {k: z3.Int('dim.' + k) for k in ('n', 'nc', 'nd', 'nxL', 'nxU', 'ndL', 'ndU')}
HX, HC, HD = z3.Bools('have_x_scaling have_c_scaling have_d_scaling')
DF = z3.Real('df')
FAC = {'x': HX, 'c': HC, 'd': HD}
SPACE = {'x': 'n', 'c': 'nc', 'd': 'nd', 'x_L': 'nxL', 'x_U': 'nxU', 'd_L': 'ndL', 'd_U': 'ndU', 'y_c': 'nc', 'y_d': 'nd', 'z_L': 'nxL', 'z_U': 'nxU', 'v_L': 'ndL', 'v_U': 'ndU'}
PCOL = {'Px_L': 'nxL', 'Px_U': 'nxU', 'Pd_L': 'ndL', 'Pd_U': 'ndU'}


def raw(k, j):
    return z3.Function('d' + k, IntS, RealS)(j)


def fac(k, j):
    """scaling factor j of x, c or d"""
    return z3.If(FAC[k], raw(k, j), rv(1))


def E(P, j):
    """row of the single entry of column j of an expansion matrix"""
    return z3.Function('E.' + P, IntS, IntS)(j)


def fn(name, *args, sort=RealS):
    args = [as_int(x) if z3.is_bool(x) else x for x in args]
    return z3.Function(name, *([x.sort() for x in args] + [sort]))(*args) if args else z3.Const(name, sort)


def given(name, dim):
    """entry function of an operand"""
    return z3.Function(name + '.val', IntS, RealS)(J)


def vec(v_or_st, name, k, const=True, val=None):
    st = getattr(v_or_st, 'st', v_or_st)
    b = Block(name, 'rec', cls='Ipopt::Vector', lazy=True, tag='abs')
    b.ghost['dim'] = DIM[k] if isinstance(k, str) else k
    b.ghost['val[]'] = given(name, k) if val is None else val
    if const:
        b.ghost['const'] = True
    st.add(b)
    return Ptr(name)


def val(st, p, j=None):
    b = st.mem[p.b]
    t = vbody(b)
    return t if j is None else z3.substitute(t, (J, j))


def mat(st, name, what=None, cls='Ipopt::Matrix', const=True):
    b = Block(name, 'rec', cls=cls, lazy=True, tag='absmat')
    b.ghost['is'] = what or name
    b.ghost['const'] = const
    st.add(b)
    return Ptr(name)


def matis(ex, st, p):
    b = ex.chk(st, p, 'matrix')
    if b.tag != 'absmat' or 'is' not in b.ghost:
        raise Unsupported('matrix of unknown contents')
    return b.ghost['is']


def vin(ex, st, p):
    """the vector whose SmartPtr is at p"""
    return ex.load(st, p, 'ptr')


def newvec(ex, st, dim, t=None):
    b = ex.newblock(st, 'newvec')
    b.cls, b.tag, b.heap = 'Ipopt::Vector', 'abs', True
    b.lazy = True
    b.ghost['dim'] = dim
    b.ghost['val[]'] = z3.Function('uninit%d' % next(engine._uid), IntS, RealS)(J) if t is None else t
    return Ptr(b.id)


# ---- expansion matrices
@MODELS.reg('Ipopt::Matrix::MultVector', 'contract', 'y := beta y + alpha P x; column j of an expansion matrix has its single entry, 1, in row E(j) (C09)')
def m_mult(ex, st, a, ins):
    P = matis(ex, st, a[0])
    if P not in PCOL:
        raise Unsupported('product with matrix ' + P)
    x = vget(ex, st, a[2])
    old = vget(ex, st, a[4])
    inn, inv = z3.Function('IN.' + P, IntS, BoolS), z3.Function('INV.' + P, IntS, IntS)
    vput(ex, st, a[4], lambda j: z(a[3], old(j)) + z3.If(inn(j), z(a[1], x(inv(j))), rv(0)), 'result of a product')
    return ret(st)


@MODELS.reg('Ipopt::Matrix::TransMultVector', 'contract', "y := beta y + alpha P' x (C09)")
def m_tmult(ex, st, a, ins):
    P = matis(ex, st, a[0])
    if P not in PCOL:
        raise Unsupported('product with matrix ' + P)
    x = vget(ex, st, a[2])
    old = vget(ex, st, a[4])
    vput(ex, st, a[4], lambda j: z(a[3], old(j)) + z(a[1], x(E(P, j))), 'result of a product')
    return ret(st)


def expfacts(j):
    """INV is the inverse of E"""
    out = []
    for P in PCOL:
        inn, inv = z3.Function('IN.' + P, IntS, BoolS), z3.Function('INV.' + P, IntS, IntS)
        out += [inn(E(P, j)), inv(E(P, j)) == j, z3.Implies(inn(j), E(P, inv(j)) == j)]
    return z3.And(*out)


# what a column bound of both kinds shares with E of the other matrix
@MODELS.reg('Ipopt::Matrix::NCols', 'contract', 'number of columns')
def m_nc(ex, st, a, ins):
    P = matis(ex, st, a[0])
    return ret(st, DIM[PCOL[P]] if P in PCOL else z3.Int('columns of ' + P))


@MODELS.reg('re:^Ipopt::(TaggedObject|Vector|Matrix)::Print$', 'model', 'output only')
def m_print(ex, st, a, ins):
    return ret(st)


@MODELS.regv('Ipopt::VectorSpace', 'MakeNew', 'interface', 'a new vector of the space, contents unspecified')
def m_vnew(ex, st, a, ins):
    b = ex.chk(st, a[0], 'vector space')
    return ret(st, newvec(ex, st, ex.load(st, v_field(ex, st, a[0], 'dim_'), 'i32')))


def v_field(ex, st, p, name):
    b = st.mem[p.b]
    for n, o, s, t in ex.mod.classes['Ipopt::VectorSpace']['m']:
        if n == name:
            return p.add(o)
    raise Unsupported('field ' + name)


@MODELS.regv('Ipopt::MatrixSpace', 'MakeNew', 'interface', 'a new matrix of the space')
def m_mnew(ex, st, a, ins):
    b = ex.newblock(st, 'newmat')
    b.cls, b.tag, b.heap, b.lazy = 'Ipopt::Matrix', 'absmat', True, True
    b.ghost['is'] = 'new(%s)' % st.mem[a[0].b].ghost.get('space', a[0].b)
    return ret(st, Ptr(b.id))


@MODELS.regv('Ipopt::SymMatrixSpace', 'MakeNewSymMatrix', 'interface', 'a new matrix of the space')
def m_snew(ex, st, a, ins):
    return m_mnew(ex, st, a, ins)


# ---- elementary operations of the scaling object, as interface
@MODELS.regv(SO, 'apply_obj_scaling', 'interface', 'the objective is multiplied by df')
def m_aos(ex, st, a, ins):
    return ret(st, DF * (ex.load(st, a[1], 'double') if isinstance(a[1], Ptr) else a[1]))


@MODELS.regv(SO, 'unapply_obj_scaling', 'interface', 'the objective is divided by df')
def m_uos(ex, st, a, ins):
    return ret(st, (ex.load(st, a[1], 'double') if isinstance(a[1], Ptr) else a[1]) / DF)


def _elem(k, un, nonconst):
    name = '%sapply_vector_scaling_%s%s' % ('un' if un else '', k, '_NonConst' if nonconst else '')

    @MODELS.regv(SO, name, 'interface', 'entries are multiplied (apply) or divided (unapply) by the factors, if there are any; proved for StandardScalingBase')
    def m(ex, st, a, ins):
        p = vin(ex, st, a[2])
        x = vget(ex, st, p)
        d = fac(k, J)
        r = newvec(ex, st, vdim(ex, st, p), x(J) / d if un else x(J) * d)
        if not nonconst:
            st.wb(r.b).ghost['const'] = True
        ex.store(st, a[0], r)
        return ret(st)


for _k in 'xcd':
    for _u in (False, True):
        for _n in (False, True):
            _elem(_k, _u, _n)
for _k in 'xcd':
    def _have(k):
        @MODELS.regv(SO, 'have_%s_scaling' % k, 'interface', 'whether there are factors')
        def m(ex, st, a, ins):
            return ret(st, FAC[k])
    _have(_k)


def normal(v, kind, st):
    v.ensure(st, z3.BoolVal(kind == 'ret'), 'returns normally')
    return kind == 'ret'


def cellptr(v, name, p):
    r = v.obj(None, name)
    v.ex.store(v.st, r, p)
    return r


def sret(v, st):
    return v.ex.load(st, Ptr('$sret'), 'ptr')


def prevec(v):
    v.assume(DF != 0)
    for k in DIM.values():
        v.assume(k >= 0)


SK = z3.Int('entry')


def facts(v):
    """instances for the entry the contract speaks about"""
    v.assume(expfacts(SK))
    for k in 'xcd':
        v.assume(raw(k, SK) != 0)
        for P in PCOL:
            v.assume(raw(k, E(P, SK)) != 0)


def isvec(v, st, p, dim, f, what, fresh=None):
    """the vector at p has entries f(entry)"""
    b = st.mem[p.b]
    v.ensure(st, z3.And(val(st, p, SK) == f(SK), vdim(v.ex, st, p) == dim), what)
    if fresh:
        v.ensure(st, z3.BoolVal(bool(b.heap)), what + ' (a vector of its own)')


def composed():
    """the composed operations of NLPScalingObject"""
    out = []
    for k, L in (('x', 'nxL'), ('d', 'ndL')):
        P = 'P%s_L' % k
        for un in (False, True):
            for nc in (False, True):
                name = '%sapply_vector_scaling_%s_LU%s' % ('un' if un else '', k, '_NonConst' if nc else '')
                if un and k == 'x' and not nc:
                    continue

                def setup(v, k=k, P=P, L=L):
                    prevec(v)
                    facts(v)
                    v.p = v.obj(SO, 'this')
                    x = vec(v, 'arg', L)
                    sp = v.obj('Ipopt::VectorSpace', 'space')
                    v.set(v.st, sp, 'dim_', DIM[SPACE[k]])
                    return [v.obj(None, '$sret'), v.p, mat(v.st, P), cellptr(v, 'lu', x), sp]

                def post(v, kd, st, r, k=k, P=P, L=L, un=un, nc=nc):
                    if not normal(v, kd, st):
                        return
                    f = lambda j: z3.Function('arg.val', IntS, RealS)(j)
                    g = (lambda j: f(j) / fac(k, E(P, j))) if un else (lambda j: f(j) * fac(k, E(P, j)))
                    isvec(v, st, sret(v, st), DIM[L], g, 'entry belonging to a bound is scaled by the factor of the bounded component', nc)
                out.append(Job(name, SO + '::' + name, setup, post))
    for un in (False, True):
        for nc in (False, True):
            name = '%sapply_grad_obj_scaling%s' % ('un' if un else '', '_NonConst' if nc else '')

            def setup(v):
                prevec(v)
                facts(v)
                v.p = v.obj(SO, 'this')
                return [v.obj(None, '$sret'), v.p, cellptr(v, 'v', vec(v, 'arg', 'n'))]

            def post(v, kd, st, r, un=un, nc=nc):
                if not normal(v, kd, st):
                    return
                f = lambda j: z3.Function('arg.val', IntS, RealS)(j)
                g = (lambda j: f(j) * fac('x', j) / DF) if un else (lambda j: f(j) / fac('x', j) * DF)
                isvec(v, st, sret(v, st), DIM['n'], g, 'gradient with respect to the %s variables of the %s objective' % (('original', 'original') if un else ('scaled', 'scaled')), nc)
            out.append(Job(name, SO + '::' + name, setup, post))
    return out



for _u in (False, True):
    def _grad(un):
        @MODELS.regv(SO, '%sapply_grad_obj_scaling_NonConst' % ('un' if un else ''), 'contract', 'proved for the real body')
        def m(ex, st, a, ins):
            p = vin(ex, st, a[2])
            x = vget(ex, st, p)
            ex.store(st, a[0], newvec(ex, st, vdim(ex, st, p), x(J) * fac('x', J) / DF if un else x(J) / fac('x', J) * DF))
            return ret(st)
    _grad(_u)


# ---- the stored factors
MS, SMS = 'Ipopt::ScaledMatrixSpace', 'Ipopt::SymScaledMatrixSpace'


def basepre(v, cls=SB):
    """a scaling object after DetermineScaling: each space of scaled matrices may be absent, or carry row factors or not"""
    prevec(v)
    v.p = v.obj(cls, 'this')
    st = v.st
    v.set(st, v.p, 'df_', DF)
    dx = vec(st, 'dx', 'n', val=raw('x', J))
    v.set(st, v.p, 'dx_', v.nullable(dx, z3.Not(HX)))
    for k in 'cd':
        sp = v.obj(MS, 'space.jac_' + k)
        d = vec(st, 'd' + k, 'n' + k, val=raw(k, J))
        v.set(st, sp, 'row_scaling_', v.nullable(d, z3.Not(FAC[k])))
        v.set(st, sp, 'column_scaling_', v.nullable(dx, z3.Not(HX)))
        v.set(st, v.p, 'scaled_jac_%s_space_' % k, v.nullable(sp, z3.Not(z3.Or(HX, FAC[k]))))
    sp = v.obj(SMS, 'space.h')
    v.set(st, sp, 'scaling_', dx)
    v.set(st, v.p, 'scaled_h_space_', v.nullable(sp, z3.Not(HX)))


def getf(v, st, p, cls, f):
    o, t = v.mod.fieldoff(cls, f)
    return v.ex.load(st, p.add(o), 'ptr')


def isnull(p):
    if not isinstance(p, Ptr):
        return z3.BoolVal(True) if p is None else p == 0
    return TRUE if p.b is None else (p.nul if p.nul is not None else FALSE)


def elementary():
    out = []
    for k in 'xcd':
        for un in (False, True):
            for nc in (False, True):
                name = '%sapply_vector_scaling_%s%s' % ('un' if un else '', k, '_NonConst' if nc else '')

                def setup(v, k=k):
                    basepre(v)
                    facts(v)
                    return [v.obj(None, '$sret'), v.p, cellptr(v, 'v', vec(v, 'arg', SPACE[k]))]

                def post(v, kd, st, r, k=k, un=un, nc=nc):
                    if not normal(v, kd, st):
                        return
                    f = lambda j: z3.Function('arg.val', IntS, RealS)(j)
                    g = (lambda j: f(j) / fac(k, j)) if un else (lambda j: f(j) * fac(k, j))
                    isvec(v, st, sret(v, st), DIM[SPACE[k]], g, 'entries are %s the factors' % ('divided by' if un else 'multiplied by'), nc)
                    for c in 'xcd':
                        v.ensure(st, val(st, Ptr('d' + c), SK) == raw(c, SK), 'the factors stay as they are')
                out.append(Job('StandardScalingBase ' + name, SB + '::' + name, setup, post))
    for un in (False, True):
        def setup(v):
            basepre(v)
            return [v.p, v.cell('f', v.real('fval'))]

        def post(v, kd, st, r, un=un):
            if normal(v, kd, st):
                f = z3.Real('fval')
                v.ensure(st, r == (f / DF if un else f * DF), 'objective times (or over) its factor')
        n = '%sapply_obj_scaling' % ('un' if un else '')
        out.append(Job(n, SB + '::' + n, setup, post))
    for k in 'xcd':
        def setup(v):
            basepre(v)
            return [v.p]
        out.append(Job('have_%s_scaling' % k, SB + '::have_%s_scaling' % k, setup, lambda v, kd, st, r, k=k: normal(v, kd, st) and v.ensure(st, r == FAC[k], 'whether there are factors')))
    for n, cls, sp in (('jac_c', 'Ipopt::ScaledMatrix', 'space.jac_c'), ('jac_d', 'Ipopt::ScaledMatrix', 'space.jac_d'), ('hessian', 'Ipopt::SymScaledMatrix', 'space.h')):
        def setup(v):
            basepre(v)
            m = mat(v.st, 'unscaled', cls='Ipopt::SymMatrix' if n == 'hessian' else 'Ipopt::Matrix')
            return [v.obj(None, '$sret'), v.p, cellptr(v, 'matrix', m)]

        def post(v, kd, st, r, n=n, cls=cls, sp=sp):
            if not normal(v, kd, st):
                return
            q = sret(v, st)
            on = HX if n == 'hessian' else z3.Or(HX, FAC[n[-1]])
            if q.b == 'unscaled':
                v.ensure(st, z3.Not(on), 'the matrix itself only if nothing is scaled')
                return
            v.ensure(st, on, 'a scaled matrix only if something is scaled')
            g = lambda f: getf(v, st, q, cls, f)
            v.ensure(st, z3.BoolVal(g('owner_space_').b == sp and g('matrix_').b == 'unscaled'), 'the matrix returned scales the given matrix by the stored factors')
            v.ensure(st, isnull(g('nonconst_matrix_')), 'and does not give it away for modification')
        out.append(Job('apply_%s_scaling' % n, SB + '::apply_%s_scaling' % n, setup, post))
    return out


# ---- determination of the factors
def spaces(v, hnull=False):
    """the arguments of DetermineScaling(ParametersImpl): spaces, bounds"""
    st = v.st
    a = []
    for k, d in (('x_space', 'n'), ('c_space', 'nc'), ('d_space', 'nd')):
        sp = v.obj('Ipopt::VectorSpace', k)
        v.set(st, sp, 'dim_', DIM[d])
        a.append(cellptr(v, 'arg.' + k, sp))
    for k in ('jac_c', 'jac_d'):
        sp = v.obj('Ipopt::MatrixSpace', k + '_space')
        st.wb(sp.b).ghost['space'] = k
        a.append(cellptr(v, 'arg.' + k, sp))
    h = v.obj('Ipopt::SymMatrixSpace', 'h_space')
    a.append(cellptr(v, 'arg.h', v.nullable(h, v.bool('h.null'))))
    b = [mat(st, 'Px_L'), vec(v, 'x_L', 'nxL'), mat(st, 'Px_U'), vec(v, 'x_U', 'nxU')]
    return a, b


@MODELS.reg(SB + '::DetermineScalingParametersImpl', 'interface', 'any factors, each of dx, dc, dd may be absent; proved in detail for the gradient-based and user-given ones')
def m_dsp(ex, st, a, ins):
    dfp, dxp, dcp, ddp = a[11:15]
    ex.store(st, dfp, z3.Real('df.impl'))
    for k, p in (('x', dxp), ('c', dcp), ('d', ddp)):
        r = vec(st, 'impl.d' + k, SPACE[k], const=True, val=raw(k, J))
        ex.store(st, p, Ptr(r.b, 0, (), z3.Not(FAC[k])))
    return ret(st)


def determination():
    out = []

    def setup(v, cls=SB):
        prevec(v)
        facts(v)
        v.p = v.obj(cls, 'this')
        st = v.st
        v.set(st, v.p, 'dx_', v.nullable(vec(st, 'old.dx', 'n'), v.bool('old.dx.null')))
        for k in ('jac_c', 'jac_d'):
            v.set(st, v.p, 'scaled_%s_space_' % k, v.nullable(v.obj(MS, 'old.' + k), v.bool('old.%s.null' % k)))
        v.set(st, v.p, 'scaled_h_space_', v.nullable(v.obj(SMS, 'old.h'), v.bool('old.h.null')))
        v.osf = v.real('obj_scaling_factor')
        v.set(st, v.p, 'obj_scaling_factor_', v.osf)
        v.set(st, v.p, 'jnlst_', v.obj('Ipopt::Journalist', 'jnlst'))
        a, b = spaces(v)
        new = [v.obj(None, 'new.' + k) for k in ('jac_c', 'jac_d', 'h')]
        for c in new:
            v.ex.store(st, c, NULL)
        return [v.p] + a + new + b

    def post(v, kd, st, r):
        if not normal(v, kd, st):
            return
        ex = v.ex
        v.ensure(st, v.get(st, v.p, 'df_') == z3.Real('df.impl') * v.osf, 'objective factor: the one determined times obj_scaling_factor')
        dx = v.get(st, v.p, 'dx_')
        v.ensure(st, isnull(dx) == z3.Not(HX), 'x factors kept')
        v.ensure(st, z3.BoolVal(dx.b is None or dx.b == 'impl.dx'), 'x factors are the ones determined')
        for k in 'cd':
            sp = v.get(st, v.p, 'scaled_jac_%s_space_' % k)
            new = ex.load(st, Ptr('new.jac_' + k), 'ptr')
            on = z3.Or(HX, FAC[k])
            v.ensure(st, isnull(sp) == z3.Not(on), 'there is a space of scaled Jacobians if something is scaled')
            if sp.b is None:
                v.ensure(st, z3.BoolVal(new.b == 'jac_%s_space' % k), 'otherwise the original space is used')
                continue
            v.ensure(st, z3.BoolVal(new.b == sp.b and st.mem[sp.b].heap is True), 'the new space is handed out')
            v.ensure(st, z3.BoolVal(getf(v, st, sp, MS, 'unscaled_matrix_space_').b == 'jac_%s_space' % k), 'it scales the original space')
            row, col = getf(v, st, sp, MS, 'row_scaling_'), getf(v, st, sp, MS, 'column_scaling_')
            v.ensure(st, isnull(row) == z3.Not(FAC[k]), 'row factors')
            v.ensure(st, isnull(col) == z3.Not(HX), 'column factors')
            if row.b is not None:
                v.ensure(st, val(st, row, SK) == raw(k, SK), 'rows of the Jacobian are multiplied by the factors of the constraints')
            if col.b is not None:
                v.ensure(st, val(st, col, SK) == 1 / raw('x', SK), 'columns of the Jacobian are divided by the factors of the variables')
        new = ex.load(st, Ptr('new.h'), 'ptr')
        hn = z3.Bool('h.null')
        if isinstance(new, Ptr) and new.b == 'h_space':
            v.ensure(st, z3.And(z3.Not(HX), isnull(v.get(st, v.p, 'scaled_h_space_'))), 'the original Hessian space only if x is not scaled')
        elif new.b is None:
            v.ensure(st, hn, 'no Hessian space only if there is none')
        else:
            v.ensure(st, z3.BoolVal(v.get(st, v.p, 'scaled_h_space_').b == new.b), 'the new Hessian space is handed out')
            v.ensure(st, z3.And(HX, z3.Not(hn)), 'scaled Hessian if x is scaled')
            v.ensure(st, z3.BoolVal(getf(v, st, new, SMS, 'unscaled_matrix_space_').b == 'h_space'), 'it scales the original space')
            v.ensure(st, val(st, getf(v, st, new, SMS, 'scaling_'), SK) == 1 / raw('x', SK), 'rows and columns of the Hessian are divided by the factors of the variables')
    out.append(Job('DetermineScaling', SB + '::DetermineScaling', setup, post))

    # no scaling
    def nsetup(v, cls='Ipopt::NoNLPScalingObject'):
        prevec(v)
        v.p = v.obj(cls, 'this')
        a, b = spaces(v)
        v.o = [v.cell('o.df', v.real('junk'))] + [cellptr(v, 'o.d' + k, v.nullable(vec(v, 'old.d' + k, SPACE[k]), v.bool('old.null.' + k))) for k in 'xcd']
        return [v.p] + a + b + v.o

    def npost(v, kd, st, r):
        if not normal(v, kd, st):
            return
        v.ensure(st, v.ex.load(st, v.o[0], 'double') == 1, 'objective factor 1')
        for p in v.o[1:]:
            v.ensure(st, isnull(v.ex.load(st, p, 'ptr')), 'no factors')
    out.append(Job('NoNLPScalingObject', 'Ipopt::NoNLPScalingObject::DetermineScalingParametersImpl', nsetup, npost))

    # factors given by the user
    def usetup(v):
        r = nsetup(v, US)
        v.set(v.st, v.p, 'nlp_', v.obj('Ipopt::NLP', 'nlp'))
        return r

    def upost(v, kd, st, r):
        if not normal(v, kd, st):
            return
        v.ensure(st, z3.BoolVal(st.gh.get('userscaling') == 1), 'the user is asked once')
        v.ensure(st, v.ex.load(st, v.o[0], 'double') == z3.Real('user.df'), 'objective factor of the user')
        for k, p in zip('xcd', v.o[1:]):
            q = v.ex.load(st, p, 'ptr')
            v.ensure(st, z3.BoolVal(q.b == 'user.d' + k), 'factors of the user')
    out.append(Job('UserScaling', US + '::DetermineScalingParametersImpl', usetup, upost))

    def isetup(cls):
        def f(v):
            v.p = v.obj(cls, 'this')
            return [v.p, v.obj('Ipopt::OptionsList', 'options'), v.string('prefix') if hasattr(v, 'string') else v.obj(None, 'prefix')]
        return f

    def ipost(fields):
        def f(v, kd, st, r):
            if not normal(v, kd, st):
                return
            v.ensure(st, r if z3.is_bool(r) else r == 1, 'initialisation succeeds')
            for n, o in fields:
                v.ensure(st, v.get(st, v.p, n) == AL.opt(o), 'option ' + o)
        return f
    out.append(Job('StandardScalingBase::InitializeImpl', SB + '::InitializeImpl', isetup(SB), ipost([('obj_scaling_factor_', 'obj_scaling_factor')])))
    out.append(Job('GradientScaling::InitializeImpl', GS + '::InitializeImpl', isetup(GS), ipost([('obj_scaling_factor_', 'obj_scaling_factor'), ('scaling_max_gradient_', 'nlp_scaling_max_gradient'), ('scaling_obj_target_gradient_', 'nlp_scaling_obj_target_gradient'),
                                                                                            ('scaling_constr_target_gradient_', 'nlp_scaling_constr_target_gradient'), ('scaling_min_value_', 'nlp_scaling_min_value')])))
    return out


@MODELS.regv('Ipopt::NLP', 'GetScalingParameters', 'interface', 'any factors')
def m_gsp(ex, st, a, ins):
    st.gh['userscaling'] = st.gh.get('userscaling', 0) + 1
    for i, k in enumerate(('x_space', 'c_space', 'd_space')):
        ex.require(st, z3.BoolVal(ex.load(st, a[1 + i], 'ptr').b == k), 'space handed to the user')
    ex.store(st, a[4], z3.Real('user.df'))
    for k, p in zip('xcd', a[5:8]):
        r = vec(st, 'user.d' + k, SPACE[k], val=raw(k, J))
        ex.store(st, p, Ptr(r.b, 0, (), z3.Bool('user.null.' + k)))
    return ret(st)



# ---- factors from the gradients at the starting point
DMIN = rv(2.2250738585072014e-308)


@MODELS.reg('Ipopt::Vector::Amax', 'contract', 'largest absolute entry, 0 for a vector without entries (C07, C08)')
def m_amax(ex, st, a, ins):
    t, n = vget(ex, st, a[0])(J), vdim(ex, st, a[0])
    for u, m, c in st.gh.get('amax', ()):
        if z3.eq(u, t) and z3.eq(m, n):
            return ret(st, c)
    c, w = z3.Real('Amax%d' % next(engine._uid)), z3.Int('argmax%d' % next(engine._uid))
    st.gh['amax'] = st.gh.get('amax', ()) + ((t, n, c),)
    st.assume(z3.And(c >= 0, z3.Implies(n > 0, z3.And(c == fabs(z3.substitute(t, (J, w))), w >= 0, w < n)), z3.Implies(n == 0, c == 0), z3.Implies(z3.And(SK >= 0, SK < n), c >= fabs(z3.substitute(t, (J, SK))))))
    return ret(st, c)


def amax(st, t, n):
    for u, m, c in st.gh.get('amax', ()):
        s = z3.Solver()
        s.set('timeout', 2000)
        s.add(z3.Or(u != t, m != n))
        if s.check() == z3.unsat:
            return c
    return z3.Real('largest entry never computed')


def at_start(ex, st, p):
    ex.require(st, vget(ex, st, p)(SK) == z3.Function('start.val', IntS, RealS)(SK), 'derivatives are evaluated at the starting point')


def flag(st, what):
    return z3.Bool('%s succeeds' % what)


@MODELS.regv('Ipopt::NLP', 'Eval_grad_f', 'interface', 'any gradient; may fail')
def m_egf(ex, st, a, ins):
    if 'evalmode' in st.gh:
        return evaluated(ex, st, a, 'grad_f')
    at_start(ex, st, a[1])
    vput(ex, st, a[2], lambda j: z3.Function('grad', IntS, RealS)(j), 'gradient')
    return ret(st, flag(st, 'Eval_grad_f'))


def _jac(k):
    @MODELS.regv('Ipopt::NLP', 'Eval_jac_' + k, 'interface', 'any Jacobian; may fail')
    def m(ex, st, a, ins):
        if 'evalmode' in st.gh:
            return evaluated(ex, st, a, 'jac_' + k)
        at_start(ex, st, a[1])
        ex.require(st, z3.BoolVal(matis(ex, st, a[2]) == 'new(jac_%s)' % k), 'matrix of the space of this Jacobian')
        st.wb(a[2].b).ghost['is'] = 'jac_' + k
        return ret(st, flag(st, 'Eval_jac_' + k))


_jac('c')
_jac('d')


def R(k, j):
    return z3.Function('rowmax.' + k, IntS, RealS)(j)


@MODELS.reg('Ipopt::Matrix::ComputeRowAMax', 'contract', 'largest absolute entry of each row, accumulated on what is there unless initialised (C09, C10)')
def m_rowmax(ex, st, a, ins):
    M = matis(ex, st, a[0])
    old = vget(ex, st, a[1])
    init = a[2] if z3.is_bool(a[2]) else a[2] != 0
    vput(ex, st, a[1], lambda j: z3.If(z3.Or(init, R(M, j) > old(j)), R(M, j), old(j)), 'row maxima')
    return ret(st)


def gradient():
    out = []
    O = {k: z3.Real(k) for k in ('max_gradient', 'obj_target', 'constr_target', 'min_value')}

    def setup(v):
        prevec(v)
        v.assume(z3.And(SK >= 0, O['max_gradient'] > 0, O['obj_target'] >= 0, O['constr_target'] >= 0, O['min_value'] >= 0))
        for k in 'cd':
            v.assume(R('jac_' + k, SK) >= 0)
        v.p = v.obj(GS, 'this')
        for f, o in (('scaling_max_gradient_', 'max_gradient'), ('scaling_obj_target_gradient_', 'obj_target'), ('scaling_constr_target_gradient_', 'constr_target'), ('scaling_min_value_', 'min_value')):
            v.set(v.st, v.p, f, O[o])
        v.set(v.st, v.p, 'jnlst_', v.obj('Ipopt::Journalist', 'jnlst'))
        v.set(v.st, v.p, 'nlp_', v.obj('Ipopt::NLP', 'nlp'))
        a, b = spaces(v)
        v.o = [v.cell('o.df', v.real('junk'))] + [cellptr(v, 'o.d' + k, v.nullable(vec(v, 'old.d' + k, SPACE[k]), v.bool('old.null.' + k))) for k in 'xcd']
        return [v.p] + a + b + v.o

    def post(v, kd, st, r):
        if kd == 'throw':
            v.ensure(st, z3.And(z3.BoolVal(AL.throws(kd, r, 'FAILED_INITIALIZATION')), z3.Not(flag(st, 'GetStartingPoint'))), 'fails only if there is no starting point')
            return
        if not normal(v, kd, st):
            return
        v.ensure(st, flag(st, 'GetStartingPoint'), 'without a starting point there is no result')
        mx = lambda a, b: z3.If(a >= b, a, b)
        g = amax(st, z3.Function('grad', IntS, RealS)(J), DIM['n'])
        gm, ot, ct, mv = (O[k] for k in ('max_gradient', 'obj_target', 'constr_target', 'min_value'))
        ok = flag(st, 'Eval_grad_f')
        df = v.ex.load(st, v.o[0], 'double')
        v.ensure(st, z3.Implies(ok, df == mx(z3.If(ot == 0, z3.If(g > gm, gm / g, rv(1)), z3.If(g == 0, rv(1), ot / g)), mv)), 'objective factor: scaled gradient at most nlp_scaling_max_gradient, or equal to the target; at least nlp_scaling_min_value')
        v.ensure(st, z3.Implies(z3.Not(ok), df == 1), 'objective factor 1 if the gradient cannot be evaluated')
        v.ensure(st, isnull(v.ex.load(st, v.o[1], 'ptr')), 'variables are not scaled')
        for k, p in zip('cd', v.o[2:]):
            q = v.ex.load(st, p, 'ptr')
            ok = z3.And(flag(st, 'Eval_jac_' + k), DIM['n' + k] > 0)
            row = lambda j: mx(DMIN, R('jac_' + k, j))
            AR = amax(st, row(J), DIM['n' + k])
            v.ensure(st, isnull(q) == z3.Or(z3.Not(ok), z3.If(ct <= 0, AR <= gm, AR <= DMIN)), 'constraints %s are scaled if a gradient is too large or a target is given' % k)
            if q.b is not None:
                raw_ = z3.If(ct <= 0, z3.If(gm / row(SK) <= 1, gm / row(SK), rv(1)), ct / AR)
                v.ensure(st, val(st, q, SK) == z3.If(mv > 0, mx(raw_, mv), raw_), 'factor of constraint %s: scaled row at most nlp_scaling_max_gradient, or the target; at least nlp_scaling_min_value' % k)
                v.ensure(st, vdim(v.ex, st, q) == DIM['n' + k], 'one factor per constraint')
                v.ensure(st, z3.BoolVal(bool(st.mem[q.b].heap)), 'a vector of its own')
    out.append(Job('GradientScaling', GS + '::DetermineScalingParametersImpl', setup, post))
    return out


@MODELS.regv('Ipopt::NLP', 'GetStartingPoint', 'interface', 'provides what is asked for; may fail')
def m_gsp0(ex, st, a, ins):
    for i, (nm, k) in enumerate((('x', 'n'), ('y_c', 'nc'), ('y_d', 'nd'), ('z_L', 'nxL'), ('z_U', 'nxU'))):
        p, need = a[1 + 2 * i:3 + 2 * i]
        p = vin(ex, st, p)
        need = need if z3.is_bool(need) else need != 0 if isz(need) else z3.BoolVal(bool(need))
        if p.b is None:
            ex.require(st, z3.Not(need), 'a vector is given for what is asked for')
            continue
        ex.require(st, vdim(ex, st, p) == DIM[k], 'dimension of ' + nm)
        old = vget(ex, st, p)
        sv = lambda j, nm=nm: z3.Function('start.val' if nm == 'x' else 'start.' + nm, IntS, RealS)(j)
        vput(ex, st, p, lambda j: z3.If(need, sv(j), old(j)), 'starting point')
    return ret(st, flag(st, 'GetStartingPoint'))


# ---- the problem as the algorithm sees it
def pre_nlp(v):
    prevec(v)
    facts(v)
    st = v.st
    v.p = v.obj(ON, 'this')
    v.F = v.fields(v.p)
    v.set(st, v.p, 'jnlst_', v.obj('Ipopt::Journalist', 'jnlst'))
    v.set(st, v.p, 'nlp_', v.obj('Ipopt::NLP', 'nlp'))
    v.set(st, v.p, 'nlp_scaling_', v.obj(SO, 'scaling'))
    v.set(st, v.p, 'timing_statistics_', v.obj('Ipopt::TimingStatistics', 'timing'))
    for k, d in (('x', 'n'), ('c', 'nc'), ('d', 'nd'), ('x_l', 'nxL'), ('x_u', 'nxU'), ('d_l', 'ndL'), ('d_u', 'ndU')):
        sp = v.obj('Ipopt::VectorSpace', k + '_space')
        v.set(st, sp, 'dim_', DIM[d])
        v.set(st, v.p, k + '_space_', sp)
    for k in ('px_l', 'px_u', 'pd_l', 'pd_u', 'jac_c', 'jac_d'):
        sp = v.obj('Ipopt::MatrixSpace', k + '_space')
        st.wb(sp.b).ghost['space'] = k
        v.set(st, v.p, k + '_space_', sp)
    sp = v.obj('Ipopt::SymMatrixSpace', 'h_space')
    st.wb(sp.b).ghost['space'] = 'h'
    v.set(st, v.p, 'h_space_', sp)
    for k in ('jac_c', 'jac_d', 'h'):
        v.set(st, v.p, 'scaled_%s_space_' % k, v.obj('Ipopt::SymMatrixSpace' if k == 'h' else 'Ipopt::MatrixSpace', 'scaled.' + k))
    st.gh['evalmode'] = 1
    st.gh['evals'] = ()


def arg(nm='arg'):
    return lambda j: z3.Function(nm + '.val', IntS, RealS)(j)


def at_point(ex, st, p):
    ex.require(st, vget(ex, st, p)(SK) == arg()(SK) / fac('x', SK), 'functions are evaluated at the unscaled point')


def nlpfn(k):
    """value of the user's function at the unscaled point"""
    return lambda j: z3.Function('nlp.' + k, IntS, RealS)(j)


def evaluated(ex, st, a, k):
    at_point(ex, st, a[1])
    st.gh['evals'] = st.gh['evals'] + (k,)
    ok = flag(st, 'Eval_' + k)
    if k == 'f':
        ex.store(st, a[2], z3.If(ok, z3.Real('nlp.f'), z3.Real('junk.f')))
    elif k in ('grad_f', 'c', 'd'):
        ex.require(st, vdim(ex, st, a[2]) == DIM[{'grad_f': 'n', 'c': 'nc', 'd': 'nd'}[k]], 'dimension of the result')
        vput(ex, st, a[2], lambda j: z3.If(ok, nlpfn(k)(j), z3.Function('junk.' + k, IntS, RealS)(j)), 'result')
    else:
        ex.require(st, z3.BoolVal(matis(ex, st, a[-1]) == 'new(%s)' % k), 'matrix of the right space')
        st.wb(a[-1].b).ghost['is'] = k
    return ret(st, ok)


def _ev(k):
    @MODELS.regv('Ipopt::NLP', 'Eval_' + k, 'interface', 'a function of the point; may fail')
    def m(ex, st, a, ins):
        return evaluated(ex, st, a, k)


for _k in ('f', 'c', 'd'):
    _ev(_k)


@MODELS.regv('Ipopt::NLP', 'Eval_h', 'interface', 'a function of point, objective factor and multipliers; may fail')
def m_evh(ex, st, a, ins):
    ex.require(st, a[2] == DF * z3.Real('obj_factor'), 'the objective factor includes the scaling of the objective')
    for k, p in zip('cd', a[3:5]):
        ex.require(st, vget(ex, st, p)(SK) == arg('arg_y' + k)(SK) * fac(k, SK), 'multipliers are those of the unscaled constraints')
    return evaluated(ex, st, a, 'h')


def _mscal(nm):
    @MODELS.regv(SO, 'apply_%s_scaling' % nm, 'interface', 'the scaled matrix; proved for StandardScalingBase')
    def m(ex, st, a, ins):
        w = matis(ex, st, ex.load(st, a[2], 'ptr'))
        b = ex.newblock(st, 'scaledmat')
        b.cls, b.tag, b.heap, b.lazy = 'Ipopt::Matrix', 'absmat', True, True
        b.ghost['is'] = 'scaled.%s(%s)' % (nm, w)
        ex.store(st, a[0], Ptr(b.id))
        return ret(st)


for _k in ('jac_c', 'jac_d', 'hessian'):
    _mscal(_k)


def _lu(k, un, nc):
    @MODELS.regv(SO, '%sapply_vector_scaling_%s_LU%s' % ('un' if un else '', k, '_NonConst' if nc else ''), 'contract', 'proved for the real body')
    def m(ex, st, a, ins):
        P = matis(ex, st, a[2])
        p = vin(ex, st, a[3])
        ex.require(st, z3.BoolVal(P in PCOL and P[1] == k), 'matrix of the bounds')
        ex.require(st, z3.And(vdim(ex, st, p) == DIM[PCOL[P]], ex.load(st, v_field(ex, st, a[4], 'dim_'), 'i32') == DIM[SPACE[k]]), 'spaces of bounds')
        x = vget(ex, st, p)
        f = fac(k, E(P, J))
        r = newvec(ex, st, DIM[PCOL[P]], x(J) / f if un else x(J) * f)
        if not nc:
            st.wb(r.b).ghost['const'] = True
        ex.store(st, a[0], r)
        return ret(st)


for _k in 'xd':
    for _u in (False, True):
        for _n in (False, True):
            _lu(_k, _u, _n)


for _u in (False, True):
    def _grad2(un):
        @MODELS.regv(SO, '%sapply_grad_obj_scaling' % ('un' if un else ''), 'contract', 'proved for the real body')
        def m(ex, st, a, ins):
            p = vin(ex, st, a[2])
            x = vget(ex, st, p)
            r = newvec(ex, st, vdim(ex, st, p), x(J) * fac('x', J) / DF if un else x(J) / fac('x', J) * DF)
            st.wb(r.b).ghost['const'] = True
            ex.store(st, a[0], r)
            return ret(st)
    _grad2(_u)


def keyed(st, nm, t, n):
    c = st.gh.get('keyed', ())
    for k, u, m, x in c:
        if k == nm and z3.eq(u, t) and z3.eq(m, n):
            return x
    x = z3.Real('%s%d' % (nm, next(engine._uid)))
    st.gh['keyed'] = c + ((nm, t, n, x),)
    return x


@MODELS.reg('Ipopt::Vector::Nrm2', 'contract', 'a function of the contents (C07, C08)')
def m_nrm2(ex, st, a, ins):
    return ret(st, keyed(st, 'Nrm2', vget(ex, st, a[0])(J), vdim(ex, st, a[0])))


@MODELS.reg('Ipopt::Matrix::HasValidNumbers', 'contract', 'a function of the matrix')
def m_hvn(ex, st, a, ins):
    return ret(st, z3.Bool('valid(%s)' % matis(ex, st, a[0])))


@MODELS.reg('Ipopt::TaggedObject::GetTag', 'contract', 'the tag')
def m_tag(ex, st, a, ins):
    return ret(st, z3.Int('tag.%s' % a[0].b))


@MODELS.reg('re:^Ipopt::TimedTask::(Start|End|StartIfEnabled|EndIfEnabled|\\w+)$', 'model', 'time keeping')
def m_tt(ex, st, a, ins):
    return ret(st)


# what each cache holds: (kind, dimension or None, the flag that makes it independent of the point, value)
CACHE = {'f': None, 'grad_f': 'n', 'c': 'nc', 'd': 'nd', 'jac_c': 'nc', 'jac_d': 'nd', 'h': None, 'unscaled_x': 'n'}


def cachename(ex, st, p):
    for n, mo, s_, t in ex.mod.classes[ON]['m']:
        if mo == p.c and n.endswith('_cache_'):
            return n[:-7]
    raise Unsupported('cache that is not a member')


def cval(k):
    """what the algorithm is given, as function of the entry"""
    if k == 'f':
        return lambda j: DF * z3.Real('nlp.f')
    if k == 'grad_f':
        return lambda j: nlpfn('grad_f')(j) / fac('x', j) * DF
    if k in ('c', 'd'):
        return lambda j: nlpfn(k)(j) * fac(k, j)
    if k == 'unscaled_x':
        return lambda j: arg()(j) / fac('x', j)


def cmat(k, empty):
    nm = 'hessian' if k == 'h' else k
    return 'scaled.%s(%s)' % (nm, 'new(%s)' % k if empty else k)


def cdeps(ex, st, a, ins):
    nm = MD.fkey(ex.mod.dem[ins['f']]).split('::')[-1]
    if nm.endswith('Dep'):
        return list(a[2:]), []
    d = stl.vdata(ex, st, a[2])
    n = z3.simplify(st.mem[d.b].n).as_long()
    s = []
    e = stl.vdata(ex, st, a[3])
    for i in range(z3.simplify(st.mem[e.b].n).as_long()):
        s.append(ex.load(st, e.add(0, [(8, iv(i))]), 'double'))
    return [ex.load(st, d.add(0, [(8, iv(i))]), 'ptr') for i in range(n)], s


def constflag(ex, st, k):
    o = {'grad_f': 'grad_f_constant_', 'jac_c': 'jac_c_constant_', 'jac_d': 'jac_d_constant_', 'h': 'hessian_constant_'}.get(k)
    return z3.BoolVal(False) if o is None else z3.Bool('this.' + o)


def depsok(ex, st, k, deps, sdeps):
    """formula: these dependencies determine the value"""
    want = ['arg', 'arg_yc', 'arg_yd'] if k == 'h' else ['arg']
    if k == 'h' and not (len(sdeps) == 1 and z3.eq(z3.simplify(sdeps[0]), z3.Real('obj_factor'))):
        return FALSE
    if len(deps) != len(want):
        return FALSE
    if all(isinstance(p, Ptr) and p.b == w for p, w in zip(deps, want)):
        return TRUE
    free = constflag(ex, st, k)
    if k in ('c', 'd', 'jac_c', 'jac_d'):
        free = z3.Or(free, DIM[CACHE[k]] == 0)
    return free


@MODELS.reg(r're:^Ipopt::CachedResults<.*>::GetCachedResult(\dDep)?$', 'contract', 'a value found was stored for the same dependencies (C11)')
def m_get(ex, st, a, ins):
    k = cachename(ex, st, a[0])
    deps, sdeps = cdeps(ex, st, a, ins)
    s1 = st.fork()
    s1.assume(z3.Bool('miss.' + k))
    out = ret(s1, FALSE)
    st.assume(z3.Not(z3.Bool('miss.' + k)))
    st.gh['hit'] = 1
    ok = depsok(ex, st, k, deps, sdeps)
    good = ex.holds(st, ok)
    if k == 'f':
        ex.store(st, a[1], cval(k)(SK) if good else z3.Real('stale.f'))
        return out + ret(st, TRUE)
    if k in ('jac_c', 'jac_d', 'h'):
        empty = k != 'h' and ex.holds(st, DIM[CACHE[k]] == 0)
        q = mat(st, 'cached.' + k, cmat(k, empty) if good else 'stale')
    else:
        f = cval(k) if good else (lambda j: z3.Function('stale.' + k, IntS, RealS)(j))
        q = vec(st, 'cached.' + k, CACHE[k], val=f(J))
    ex.store(st, a[1], q)
    return out + ret(st, TRUE)


@MODELS.reg(r're:^Ipopt::CachedResults<.*>::AddCachedResult(\dDep)?$', 'contract', 'stores the value for these dependencies (C11)')
def m_add(ex, st, a, ins):
    k = cachename(ex, st, a[0])
    deps, sdeps = cdeps(ex, st, a, ins)
    ex.require(st, depsok(ex, st, k, deps, sdeps), 'the dependencies of a stored value determine it')
    st.gh['stored'] = st.gh.get('stored', 0) + 1
    if k == 'f':
        ex.require(st, ex.load(st, a[1], 'double') == cval(k)(SK), 'the value stored is the scaled one')
    else:
        p = ex.load(st, a[1], 'ptr')
        judge(ex, st, k, p, lambda c, w: ex.require(st, c, w))
    return ret(st)


def judge(ex, st, k, p, ens):
    if k in ('jac_c', 'jac_d', 'h'):
        w = matis(ex, st, p)
        empty = DIM[CACHE[k]] == 0 if k != 'h' else FALSE
        ens(z3.If(empty, z3.BoolVal(w == cmat(k, True)), z3.BoolVal(w == cmat(k, False))), 'the matrix is the scaled one of the matrix at the unscaled point')
    else:
        n = DIM[CACHE[k]]
        ens(vdim(ex, st, p) == n, 'dimension')
        c = val(st, p, SK) == cval(k)(SK)
        ens(z3.Implies(n > 0, c) if k in ('c', 'd') else c, 'entries are those of the function at the unscaled point, scaled')


def functions():
    out = []
    for k in ('f', 'grad_f', 'c', 'd', 'jac_c', 'jac_d', 'h', 'get_unscaled_x'):
        def setup(v, k=k):
            pre_nlp(v)
            v.assume(z3.And(SK >= 0))
            x = vec(v, 'arg', 'n')
            if k == 'f':
                return [v.p, x]
            a = [v.obj(None, '$sret'), v.p, x]
            if k == 'h':
                a += [v.real('obj_factor'), vec(v, 'arg_yc', 'nc'), vec(v, 'arg_yd', 'nd')]
            return a

        def post(v, kd, st, r, k=k):
            ex = v.ex
            ev = k if k != 'get_unscaled_x' else 'unscaled_x'
            n = len(st.gh['evals'])
            cnt = None if ev == 'unscaled_x' else v.get(st, v.p, k + '_evals_') - v.F[k + '_evals_']
            ok = flag(st, 'Eval_' + k)
            if kd == 'throw':
                v.ensure(st, z3.BoolVal(r.ti.endswith('10Eval_ErrorE')), 'failed evaluations raise Eval_Error')
                v.ensure(st, z3.BoolVal(n == 1), 'only if evaluated')
                if k in ('f', 'grad_f', 'c', 'd'):
                    v.ensure(st, z3.Or(z3.Not(ok), *[z3.Not(c) for c in finites(st)]), 'an error only if the evaluation failed or gave something that is not finite')
                else:
                    v.ensure(st, z3.Or(z3.Not(ok), z3.And(v.F['check_derivatives_for_naninf_'], z3.Not(z3.Bool('valid(%s)' % k)))), 'an error only if the evaluation failed or (if asked to check) gave invalid numbers')
                return
            if not normal(v, kd, st):
                return
            if cnt is not None:
                v.ensure(st, cnt == n, 'evaluations are counted')
            if n:
                v.ensure(st, ok, 'failed evaluations give no value')
                if k in ('f', 'grad_f', 'c', 'd'):
                    v.ensure(st, z3.BoolVal(len(finites(st)) > 0), 'the value was checked')
                    for c in finites(st):
                        v.ensure(st, c, 'values that are not finite are not handed out')
                else:
                    v.ensure(st, z3.Or(z3.Not(v.F['check_derivatives_for_naninf_']), z3.Bool('valid(%s)' % k)), 'invalid numbers are not handed out if asked to check')
            if not st.gh.get('hit'):
                v.ensure(st, z3.BoolVal(st.gh.get('stored', 0) >= 1), 'the value is remembered')
            if k == 'f':
                v.ensure(st, r == cval('f')(SK), 'objective at the unscaled point, scaled')
            else:
                judge(ex, st, ev, sret(v, st), lambda c, w: v.ensure(st, c, w))
        out.append(Job('OrigIpoptNLP::' + k, (lambda m, k=k: [f for f in m.find(ON + '::' + k) if 'double)' not in f.dem.replace('Vector const&)', '')][0]) if k in ('f', 'grad_f', 'h') else ON + '::' + k, setup, post))
    return out


def finites(st):
    return st.gh.get('finite', ())


@MODELS.reg('Ipopt::IsFiniteNumber', 'uninterpreted', 'predicate "is a finite number" left uninterpreted over the reals')
def m_fin(ex, st, a, ins):
    c = z3.Function('finite', RealS, BoolS)(a[0])
    if not any(z3.eq(c, x) for x in finites(st)):
        st.gh['finite'] = finites(st) + (c,)
    return ret(st, c)


# ---- start and end of a run
BND = {'x_L': ('Px_L', 'nxL', 'x', -1), 'x_U': ('Px_U', 'nxU', 'x', 1), 'd_L': ('Pd_L', 'ndL', 'd', -1), 'd_U': ('Pd_U', 'ndU', 'd', 1)}
BRF, CVT = z3.Reals('bound_relax_factor constr_viol_tol')


def bnd(k, j):
    return z3.Function('bound.' + k, IntS, RealS)(j)


@MODELS.regv('Ipopt::NLP', 'GetSpaces', 'interface', 'spaces of the problem; may fail')
def m_getspaces(ex, st, a, ins):
    for p, k in zip(a[1:], ('x', 'c', 'd', 'x_l', 'px_l', 'x_u', 'px_u', 'd_l', 'pd_l', 'd_u', 'pd_u', 'jac_c', 'jac_d', 'h')):
        ex.store(st, p, Ptr(k + '_space'))
    st.gh['spaces'] = 1
    return ret(st, flag(st, 'GetSpaces'))


@MODELS.regv('Ipopt::NLP', 'GetQuasiNewtonApproximationSpaces', 'interface', 'a space for the approximation, or none')
def m_qn(ex, st, a, ins):
    nul = z3.Bool('no approximation space')
    ex.store(st, a[1], Ptr('approx_space', 0, (), nul))
    ex.store(st, a[2], Ptr('P_approx', 0, (), nul))
    return ret(st)


@MODELS.reg('Ipopt::Matrix::NRows', 'contract', 'number of rows')
def m_nr(ex, st, a, ins):
    return ret(st, DIM['n'])


@MODELS.regv('Ipopt::NLP', 'GetBoundsInformation', 'interface', 'bounds of the problem; may fail')
def m_bi(ex, st, a, ins):
    for i, k in enumerate(('x_L', 'x_U', 'd_L', 'd_U')):
        P, n, _, _ = BND[k]
        m, b = a[1 + 2 * i], a[2 + 2 * i]
        ex.require(st, z3.BoolVal(matis(ex, st, m) == 'new(p%s)' % k.lower()), 'matrix of the space of this bound')
        ex.require(st, vdim(ex, st, b) == DIM[n], 'vector of the space of this bound')
        st.wb(m.b).ghost['is'] = P
        vput(ex, st, b, lambda j, k=k: bnd(k, j), 'bounds')
    return ret(st, flag(st, 'GetBoundsInformation'))


@MODELS.regv(SO, 'DetermineScaling', 'contract', 'proved for the real body: spaces of the scaled matrices; the factors are determined from now on')
def m_ds(ex, st, a, ins):
    for p, k in zip(a[1:7], ('x', 'c', 'd', 'jac_c', 'jac_d')):
        ex.require(st, z3.BoolVal(ex.load(st, p, 'ptr').b == k + '_space'), 'space of ' + k)
    ex.require(st, z3.BoolVal(st.gh.get('hspace', 'h_space') in (ex.load(st, a[6], 'ptr').b, None) or ex.load(st, a[6], 'ptr').b not in (None,)), 'space of the Hessian')
    st.gh['hspace'] = ex.load(st, a[6], 'ptr').b
    for p, k in zip(a[7:10], ('jac_c', 'jac_d', 'h')):
        ex.store(st, p, Ptr('scaled.' + k))
    for i, k in enumerate(('x_L', 'x_U')):
        ex.require(st, z3.BoolVal(matis(ex, st, a[10 + 2 * i]) == 'P' + k), 'matrix of bounds')
        ex.require(st, vget(ex, st, a[11 + 2 * i])(SK) == bnd(k, SK), 'original bounds')
    st.gh['determined'] = st.gh.get('determined', 0) + 1
    return ret(st)


@MODELS.reg('Ipopt::Snprintf', 'model', 'text of a message')
def m_snp(ex, st, a, ins):
    st.wb(a[0].b).ghost['strterm'] = z3.String('message')
    return ret(st, z3.Int('length of message'))


def relaxed(k, j):
    b = bnd(k, j)
    m = z3.If(fabs(b) >= 1, fabs(b), rv(1))
    t = BRF * m
    t = z3.If(t <= CVT, t, CVT)
    return z3.If(BRF > 0, b + BND[k][3] * t, b)


def startend():
    out = []
    OUTS = (('x', 'n'), ('y_c', 'nc'), ('y_d', 'nd'), ('z_L', 'nxL'), ('z_U', 'nxU'), ('v_L', 'ndL'), ('v_U', 'ndU'))

    def job(warm, lim, relax, on):
        def setup(v):
            pre_nlp(v)
            st = v.st
            v.assume(z3.And(SK >= 0, CVT >= 0, BRF > 0 if relax else BRF == 0))
            v.set(st, v.p, 'bound_relax_factor_', BRF)
            v.set(st, v.p, 'constr_viol_tol_', CVT)
            v.set(st, v.p, 'warm_start_same_structure_', z3.BoolVal(warm))
            v.set(st, v.p, 'hessian_approximation_', iv(v.mod.enum('Ipopt::HessianApproximationType')['LIMITED_MEMORY' if lim else 'EXACT']))
            v.nlv = v.mod.enum('Ipopt::HessianApproximationSpace')['NONLINEAR_VARS']
            if warm:
                st.gh['determined'] = 1
                v.set(st, v.p, 'x_space_', v.nullable(Ptr('x_space'), v.bool('first')))
            for k in ('x_L', 'x_U', 'd_L', 'd_U'):
                for q in (k, 'orig_' + k):
                    v.set(st, v.p, q + '_', v.nullable(vec(v, 'old.' + q, BND[k][1]), v.bool('old.null.' + q)))
                v.set(st, v.p, 'P' + k + '_', v.nullable(mat(st, 'old.P' + k), v.bool('old.null.P' + k)))
            mat(st, 'P_approx')
            ap = v.obj('Ipopt::VectorSpace', 'approx_space')
            v.init = {k: z3.BoolVal(k in on) for k in ('x', 'y_c', 'y_d', 'z_L', 'z_U')}
            a = [v.p]
            for k, n in OUTS:
                a.append(cellptr(v, 'out.' + k, NULL))
                if k in v.init:
                    a.append(v.init[k])
            return a

        def post(v, kd, st, r):
            ex = v.ex
            if kd == 'throw':
                if warm:
                    v.ensure(st, z3.And(z3.BoolVal(r.ti.endswith('17INVALID_WARMSTARTE')), z3.Bool('first')), 'a warm start needs an earlier solve')
                else:
                    v.ensure(st, z3.And(z3.BoolVal(r.ti.endswith('11TOO_FEW_DOFE')), DIM['n'] < DIM['nc'], DIM['n'] > 0), 'refused only for too few degrees of freedom')
                return
            if not normal(v, kd, st):
                return
            rb = r if z3.is_bool(r) else r != 0
            good = z3.And(flag(st, 'GetBoundsInformation'), flag(st, 'GetStartingPoint'), *([] if warm else [flag(st, 'GetSpaces')]))
            v.ensure(st, rb == good, 'succeeds if the problem provides everything')
            if not ex.feasible(st, rb):
                return
            if not warm:
                v.ensure(st, z3.Not(z3.And(DIM['n'] < DIM['nc'], DIM['n'] > 0)), 'too few degrees of freedom are refused')
                h = v.get(st, v.p, 'h_space_')
                if lim:
                    C = 'Ipopt::LowRankUpdateSymMatrixSpace'
                    v.ensure(st, z3.BoolVal(bool(st.mem[h.b].heap)), 'space of low-rank updates')
                    P, L = getf(v, st, h, C, 'P_LowRank_'), getf(v, st, h, C, 'lowrank_vector_space_')
                    sub = z3.And(v.F['hessian_approximation_space_'] == v.nlv, z3.Not(z3.Bool('no approximation space')))
                    v.ensure(st, z3.If(sub, z3.And(z3.BoolVal(P.b == 'P_approx' and L.b == 'approx_space'), z3.Not(isnull(P))), z3.And(isnull(P), z3.BoolVal(L.b == 'x_space'))), 'approximation in the space of the nonlinear variables if asked for and known')
                else:
                    v.ensure(st, z3.BoolVal(h.b == 'h_space'), 'exact Hessian')
                v.ensure(st, z3.BoolVal(st.gh.get('determined') == 1 and st.gh.get('hspace') == h.b), 'scaling determined once, for this Hessian')
                for k in ('jac_c', 'jac_d', 'h'):
                    v.ensure(st, z3.BoolVal(v.get(st, v.p, 'scaled_%s_space_' % k).b == 'scaled.' + k), 'scaled space kept')
            for k, (P, n, c, sg) in BND.items():
                m, b = v.get(st, v.p, P + '_'), v.get(st, v.p, k + '_')
                v.ensure(st, z3.BoolVal(matis(ex, st, m) == P), 'matrix of bounds ' + k)
                v.ensure(st, z3.And(val(st, b, SK) == relaxed(k, SK) * fac(c, E(P, SK)), vdim(ex, st, b) == DIM[n]), 'bounds %s: relaxed by at most constr_viol_tol, then scaled' % k)
                if relax:
                    o = v.get(st, v.p, 'orig_%s_' % k)
                    v.ensure(st, z3.BoolVal(o.b is not None and not o.b.startswith('old.')), 'original bounds of this solve are kept')
                    v.ensure(st, val(st, o, SK) == bnd(k, SK), 'original bounds %s are kept' % k)
            for k, n in OUTS:
                q = ex.load(st, Ptr('out.' + k), 'ptr')
                v.ensure(st, z3.And(z3.BoolVal(q.b is not None), vdim(ex, st, q) == DIM[n]), 'vector for ' + k)
                if k not in v.init:
                    continue
                s0 = z3.Function('start.val' if k == 'x' else 'start.' + k, IntS, RealS)(SK)
                want = {'x': s0 * fac('x', SK), 'y_c': s0 / fac('c', SK) * DF, 'y_d': s0 / fac('d', SK) * DF, 'z_L': s0 / fac('x', E('Px_L', SK)) * DF, 'z_U': s0 / fac('x', E('Px_U', SK)) * DF}[k]
                v.ensure(st, z3.Implies(v.init[k], val(st, q, SK) == want), 'start for %s is the scaled one of the user' % k)
        out.append(Job('InitializeStructures%s%s%s, start given for %s' % (' (warm start)' if warm else '', ' (limited memory)' if lim else '', ' (bounds relaxed)' if relax else '', ', '.join(on) or 'nothing'), ON + '::InitializeStructures', setup, post, merge=False, budget=240))
    every = ('x', 'y_c', 'y_d', 'z_L', 'z_U')
    job(False, False, True, every)
    job(False, False, False, every)
    job(False, True, False, ('x',))
    job(True, False, True, every)
    job(False, False, False, ())
    for k in every:
        job(True, False, False, (k,))

    # the solution
    def fsetup(honor):
        def f(v):
            pre_nlp(v)
            st = v.st
            v.assume(z3.And(SK >= 0, BRF >= 0))
            v.set(st, v.p, 'bound_relax_factor_', BRF)
            v.set(st, v.p, 'honor_original_bounds_', z3.BoolVal(honor))
            for k in ('x_L', 'x_U'):
                v.set(st, v.p, 'orig_%s_' % k, v.nullable(vec(v, 'orig_' + k, BND[k][1], val=bnd(k, J)), BRF == 0))
                v.set(st, v.p, 'P%s_' % k, mat(st, 'P' + k))
                P = 'P' + k
                inn, inv = z3.Function('IN.' + P, IntS, BoolS), z3.Function('INV.' + P, IntS, IntS)
                v.assume(z3.Implies(inn(SK), z3.And(inv(SK) >= 0, inv(SK) < DIM[PCOL[P]])))
                i2 = inv(SK)
                v.assume(z3.Implies(inn(SK), z3.And(inn(E(P, i2)), inv(E(P, i2)) == i2)))
            for P, Q in (('Px_L', 'Px_U'), ('Px_U', 'Px_L')):
                i2 = z3.Function('INV.' + P, IntS, IntS)(SK)
                q = E(P, i2)
                inq, ivq = z3.Function('IN.' + Q, IntS, BoolS)(q), z3.Function('INV.' + Q, IntS, IntS)(q)
                v.assume(z3.Implies(inq, z3.And(E(Q, ivq) == q, ivq >= 0, ivq < DIM[PCOL[Q]])))
            v.status = v.int('status')
            st.gh['honor'] = honor
            v.ipd, v.ipc = v.obj('Ipopt::IpoptData', 'ip_data'), v.obj('Ipopt::IpoptCalculatedQuantities', 'ip_cq')
            vs = {k: vec(v, 'arg' if k == 'x' else 'arg_' + k, n) for k, n in (('x', 'n'), ('z_L', 'nxL'), ('z_U', 'nxU'), ('c', 'nc'), ('d', 'nd'), ('y_c', 'nc'), ('y_d', 'nd'))}
            return [v.p, v.status] + [vs[k] for k in ('x', 'z_L', 'z_U', 'c', 'd', 'y_c', 'y_d')] + [v.real('obj_value'), v.ipd, v.ipc]
        return f

    def fpost(v, kd, st, r):
        if normal(v, kd, st):
            v.ensure(st, z3.BoolVal(st.gh.get('finalized') == 1), 'the solution is handed to the user exactly once')
    for honor in (False, True):
        out.append(Job('FinalizeSolution' + (' (original bounds honored)' if honor else ''), ON + '::FinalizeSolution', fsetup(honor), fpost, merge=True))

    def asetup(v):
        pre_nlp(v)
        for k in BND:
            v.set(v.st, v.p, k + '_', vec(v, 'old.' + k, BND[k][1]))
        return [v.p] + [vec(v, 'arg_' + k, BND[k][1]) for k in ('x_L', 'x_U', 'd_L', 'd_U')]

    def apost(v, kd, st, r):
        if normal(v, kd, st):
            for k, (P, n, c, sg) in BND.items():
                q = v.get(st, v.p, k + '_')
                v.ensure(st, z3.And(val(st, q, SK) == arg('arg_' + k)(SK), vdim(v.ex, st, q) == DIM[n]), 'new bounds ' + k)
                v.ensure(st, z3.BoolVal(bool(st.mem[q.b].heap)), 'a copy')
    out.append(Job('AdjustVariableBounds', ON + '::AdjustVariableBounds', asetup, apost))
    return out


@MODELS.regv('Ipopt::NLP', 'FinalizeSolution', 'interface', 'receives the solution; the values are checked here')
def m_fs(ex, st, a, ins):
    st.gh['finalized'] = st.gh.get('finalized', 0) + 1
    R_ = lambda c, w: ex.require(st, c, w)
    R_(a[1] == z3.Int('status'), 'status')
    xs = arg()(SK) / fac('x', SK)
    if st.gh['honor']:
        for k, mm in (('x_L', lambda p, q: z3.If(p >= q, p, q)), ('x_U', lambda p, q: z3.If(p <= q, p, q))):
            P = 'P' + k
            inn, inv = z3.Function('IN.' + P, IntS, BoolS)(SK), z3.Function('INV.' + P, IntS, IntS)(SK)
            xs = z3.If(z3.And(BRF > 0, inn), mm(xs, bnd(k, inv)), xs)
    f = lambda p: vget(ex, st, p)(SK)
    R_(f(a[2]) == xs, 'x is unscaled, and moved to the original bounds if they are honored')
    for i, (k, w) in enumerate((('z_L', arg('arg_z_L')(SK) * fac('x', E('Px_L', SK)) / DF), ('z_U', arg('arg_z_U')(SK) * fac('x', E('Px_U', SK)) / DF), ('c', arg('arg_c')(SK) / fac('c', SK)), ('d', arg('arg_d')(SK) / fac('d', SK)),
                                ('y_c', arg('arg_y_c')(SK) * fac('c', SK) / DF), ('y_d', arg('arg_y_d')(SK) * fac('d', SK) / DF))):
        R_(f(a[3 + i]) == w, k + ' belongs to the unscaled problem')
        R_(vdim(ex, st, a[3 + i]) == DIM[SPACE[k]], 'dimension of ' + k)
    R_(a[9] == z3.Real('obj_value') / DF, 'objective value is unscaled')
    R_(z3.BoolVal(a[10].b == 'ip_data' and a[11].b == 'ip_cq'), 'data handed on')
    return ret(st)


@MODELS.reg(r're:^Ipopt::CachedResults<.*>::(Clear|InvalidateResult)$', 'contract', 'forgets what was stored: everything, or what was stored for these dependencies (C11)')
def m_clear(ex, st, a, ins):
    k = cachename(ex, st, a[0])
    if MD.fkey(ex.mod.dem[ins['f']]).endswith('Clear'):
        st.gh['cleared'] = st.gh.get('cleared', ()) + ((k, a[1] if len(a) > 1 else None),)
    else:
        deps, sdeps = cdeps(ex, st, [a[0], None] + a[1:], ins)
        want = 3 if k == 'h' else 1
        if len(deps) == want and all(isinstance(p, Ptr) and ex.holds(st, isnull(p)) for p in deps):
            st.gh['invalid'] = st.gh.get('invalid', ()) + (k,)
    return ret(st)


@MODELS.regv('Ipopt::NLP', 'ProcessOptions', 'interface', 'the problem reads its options; may fail')
def m_po(ex, st, a, ins):
    return ret(st, flag(st, 'ProcessOptions'))


@MODELS.reg(SO + '::Initialize', 'contract', 'the scaling object reads its options; may fail')
def m_soi(ex, st, a, ins):
    st.gh['scalinginit'] = 1
    return ret(st, flag(st, 'NLPScalingObject::Initialize'))


def initialize():
    OPTS = [('bound_relax_factor_', 'bound_relax_factor'), ('constr_viol_tol_', 'constr_viol_tol'), ('honor_original_bounds_', 'honor_original_bounds'), ('warm_start_same_structure_', 'warm_start_same_structure'),
            ('check_derivatives_for_naninf_', 'check_derivatives_for_naninf'), ('hessian_approximation_', 'hessian_approximation'), ('hessian_approximation_space_', 'hessian_approximation_space'),
            ('grad_f_constant_', 'grad_f_constant'), ('jac_c_constant_', 'jac_c_constant'), ('jac_d_constant_', 'jac_d_constant'), ('hessian_constant_', 'hessian_constant')]
    ENUMS = ('hessian_approximation_', 'hessian_approximation_space_')
    NUMS = ('bound_relax_factor_', 'constr_viol_tol_')
    COUNT = ('f', 'grad_f', 'c', 'jac_c', 'd', 'jac_d', 'h')

    def setup(v):
        pre_nlp(v)
        del v.st.gh['evalmode']
        return [v.p, v.obj('Ipopt::Journalist', 'jnlst'), v.obj('Ipopt::OptionsList', 'options'), v.string('prefix')]

    def post(v, kd, st, r):
        if not normal(v, kd, st):
            return
        rb = r if z3.is_bool(r) else r != 0
        for f, o in OPTS:
            if f in ENUMS:
                v.ensure(st, v.get(st, v.p, f) == AL.opt(o, IntS), 'option ' + o)
            elif f in NUMS:
                v.ensure(st, v.get(st, v.p, f) == AL.opt(o), 'option ' + o)
            else:
                x = v.get(st, v.p, f)
                v.ensure(st, (x if z3.is_bool(x) else x != 0) == AL.opt(o, BoolS), 'option ' + o)
        for c in COUNT:
            v.ensure(st, v.get(st, v.p, c + '_evals_') == 0, 'counter of evaluations of %s starts at 0' % c)
        warm = AL.opt('warm_start_same_structure', BoolS)
        hc = AL.opt('hessian_constant', BoolS)
        cl = dict(st.gh.get('cleared', ()))
        inv = st.gh.get('invalid', ())
        for c in ('grad_f', 'c', 'jac_c', 'd', 'jac_d', 'h'):
            v.ensure(st, z3.Or(warm, z3.BoolVal(c in cl)), 'without warm start the values of %s of an earlier problem are forgotten' % c)
            v.ensure(st, z3.BoolVal(c in inv), 'what was stored as constant for %s in an earlier run is forgotten' % c)
        if 'h' in cl:
            v.ensure(st, z3.If(hc, iv(2), iv(1)) == (cl['h'] if isz(cl['h']) else iv(cl['h'])), 'two Hessians are kept if it is constant')
        v.ensure(st, rb == z3.And(flag(st, 'ProcessOptions'), flag(st, 'NLPScalingObject::Initialize')), 'succeeds if problem and scaling do')
        if ex_true(v, st, flag(st, 'ProcessOptions')):
            v.ensure(st, z3.BoolVal(st.gh.get('scalinginit') == 1), 'the scaling object is initialised')
            x = v.get(st, v.p, 'initialized_')
            v.ensure(st, x if z3.is_bool(x) else x != 0, 'initialised')
    return [Job('OrigIpoptNLP::Initialize', ON + '::Initialize', setup, post)]


def ex_true(v, st, c):
    return v.ex.holds(st, c)


def jobs():
    return composed() + elementary() + determination() + gradient() + functions() + startend() + initialize()
