"""contracts of the standard augmented system solver: the matrix handed to the linear solver is the augmented system of the current arguments (IpAugSystemSolver.hpp)
  [ W_factor W + D_x + delta_x I      0          J_c'          J_d'       ]
  [          0             D_s + delta_s I        0            -I         ]
  [         J_c                       0     D_c - delta_c I     0         ]
  [         J_d                      -I           0      D_d - delta_d I  ]"""
from pdsys import *
import pdsys as PDS
from scaling import mat, cellptr, sret, normal, isnull

SRCS = PDS.SRCS
REP = PDS.REP
MODELS = PDS.MODELS.child()
K = 'kkt.'


def mknew(rx, cls, what):
    @MODELS.reg('re:^Ipopt::%s$' % rx, 'contract', 'a new %s without contents (C10, C08)' % what)
    def m(ex, st, a, ins):
        sp = ex.chk(st, a[0], 'space')
        b = ex.newblock(st, what)
        b.cls, b.heap, b.lazy = cls, True, True
        b.ghost['space'] = sp.id
        b.ghost['content'] = ()
        return ret(st, Ptr(b.id))
    return m


mknew('CompoundSymMatrixSpace::MakeNewCompoundSymMatrix', 'Ipopt::CompoundSymMatrix', 'compound')
mknew('SumSymMatrixSpace::MakeNewSumSymMatrix', 'Ipopt::SumSymMatrix', 'sum')
mknew('DiagMatrixSpace::MakeNewDiagMatrix', 'Ipopt::DiagMatrix', 'diag')
mknew('IdentityMatrixSpace::MakeNewIdentityMatrix', 'Ipopt::IdentityMatrix', 'ident')
mknew('CompoundVectorSpace::MakeNewCompoundVector', 'Ipopt::CompoundVector', 'augvec')


def setc(rx, note, key):
    @MODELS.reg('re:^Ipopt::%s$' % rx, 'contract', note)
    def m(ex, st, a, ins):
        b = ex.chk(st, a[0], 'target')
        w = st.wb(b.id)
        k, val = key(ex, st, a)
        w.ghost['content'] = tuple(x for x in w.ghost.get('content', ()) if x[0] != k) + ((k, val),)
        t = z3.Int('tag!%d' % next(engine._uid))       # an object that changes gets a new tag (C11)
        w.ghost['chg'] = t
        return ret(st)
    return m


num = lambda x: z3.simplify(x).as_long()
setc('CompoundSymMatrix::SetComp', 'block of the compound matrix (C10)', lambda ex, st, a: ((num(a[1]), num(a[2])), a[3].b))
setc('SumSymMatrix::SetTerm', 'term of the sum (C10)', lambda ex, st, a: (num(a[1]), (a[2], a[3].b)))
setc('DiagMatrix::SetDiag', 'diagonal (C10)', lambda ex, st, a: ('diag', a[1].b))
setc('IdentityMatrix::SetFactor', 'factor of the identity (C10)', lambda ex, st, a: ('factor', a[1]))
setc('CompoundVector::SetComp', 'component (C08)', lambda ex, st, a: (num(a[1]), a[2].b))
setc('CompoundVector::SetCompNonConst', 'component (C08)', lambda ex, st, a: (num(a[1]), a[2].b))
setc('CompoundSymMatrixSpace::SetBlockDim', 'dimension of a block (C10)', lambda ex, st, a: (('dim', num(a[1])), a[2]))
setc('CompoundSymMatrixSpace::SetCompSpace', 'space of a block (C10)', lambda ex, st, a: ((num(a[1]), num(a[2])), a[3].b))
setc('SumSymMatrixSpace::SetTermSpace', 'space of a term (C10)', lambda ex, st, a: (num(a[1]), a[2].b))
setc('CompoundVectorSpace::SetCompSpace', 'space of a component (C08)', lambda ex, st, a: (num(a[1]), a[2].b))


def ctor(cls, note, key):
    n = cls.split('::')[-1]

    @MODELS.reg('%s::%s' % (cls, n), 'contract', note)
    def m(ex, st, a, ins):
        b = ex.chk(st, a[0], 'new object')
        w = st.wb(b.id)
        w.cls, w.lazy = w.cls or cls, True
        w.ghost['made'] = (cls,) + tuple(a[1:])
        return ret(st)


for n_ in ('CompoundSymMatrixSpace', 'DiagMatrixSpace', 'SumSymMatrixSpace', 'IdentityMatrixSpace', 'CompoundVectorSpace'):
    ctor('Ipopt::' + n_, 'a space of the given dimensions (C10, C08)', None)


@MODELS.reg('re:^Ipopt::(Matrix|SymMatrix|Vector)::(OwnerSpace|OwnerSymMatrixSpace)$', 'model', 'space of the object')
def m_owner(ex, st, a, ins):
    b = ex.chk(st, a[-1], 'object')
    k = 'space of ' + b.id
    if k not in st.mem:
        f = ex.mod.dem[ins['f']]
        st.add(Block(k, 'rec', cls='Ipopt::VectorSpace' if '::Vector::' in f else 'Ipopt::SymMatrixSpace' if 'Sym' in f else 'Ipopt::MatrixSpace', lazy=True))
    p = Ptr(k)
    if len(a) > 1:
        ex.store(st, a[0], p)
        return ret(st)
    return ret(st, p)


@MODELS.reg('re:^Ipopt::Matrix::(NRows|NCols)$', 'model', 'dimensions of the matrix')
def m_dims(ex, st, a, ins):
    b = ex.chk(st, a[0], 'matrix')
    r = {'J_c': ('nc', 'nx'), 'J_d': ('ns', 'nx'), 'W': ('nx', 'nx')}[b.id]
    return ret(st, DIM[r[0] if 'NRows' in ex.mod.dem[ins['f']] else r[1]])


@MODELS.reg('Ipopt::Snprintf', 'trusted', 'text for output is written into a buffer of the given size')
def m_snp(ex, st, a, ins):
    b = ex.chk(st, a[0], 'buffer')
    st.wb(b.id).ghost['strterm'] = z3.String('text%d' % next(engine._uid))
    return ret(st, iv(1))


TAGS = {'W': 'w_tag_', 'D_x': 'd_x_tag_', 'D_s': 'd_s_tag_', 'J_c': 'j_c_tag_', 'D_c': 'd_c_tag_', 'J_d': 'j_d_tag_', 'D_d': 'd_d_tag_'}
NUMS = {'W_factor': 'w_factor_', 'delta_x': 'delta_x_', 'delta_s': 'delta_s_', 'delta_c': 'delta_c_', 'delta_d': 'delta_d_'}
ORDER = ('W', 'W_factor', 'D_x', 'delta_x', 'D_s', 'delta_s', 'J_c', 'D_c', 'delta_c', 'J_d', 'D_d', 'delta_d')
COMP = {'D_x': 'x', 'D_s': 's', 'D_c': 'y_c', 'D_d': 'y_d'}


def tag_of(v, nm):
    return v.get(v.pre if v.pre is not None else v.st, Ptr(nm), 'tag_')


def sysargs(v, isn):
    """the arguments describing the matrix; isn: those that are NULL"""
    st = v.st
    out, v.arg = [], {}
    for k in ORDER:
        if k in NUMS:
            x = v.real(k)
        elif k in isn:
            x = NULL
        elif k in COMP:
            x = vec(v, k, COMP[k])
        else:
            x = mat(st, k, cls='Ipopt::SymMatrix' if k == 'W' else 'Ipopt::Matrix')
        v.arg[k] = x
        out.append(x)
        if k in TAGS and k not in isn:
            v.assume(v.get(st, x, 'tag_') > 0)
    return out


def self(v):
    facts(v)
    v.p, v.F = AL.strategy(v, SA)
    st = v.st
    st.add(Block('timing', 'rec', cls='Ipopt::TimedTask', lazy=True))
    v.set(st, v.p, 'linsolver_', v.obj('Ipopt::SymLinearSolver', 'lin'))
    for k in list(TAGS.values()) + ['augsys_tag_']:
        x = v.get(st, v.p, k)
        v.assume(x >= 0)
    return v.p


def spaces(v):
    st = v.st
    for f, c in (('augmented_system_space_', 'CompoundSymMatrixSpace'), ('sumsym_space_x_', 'SumSymMatrixSpace'), ('diag_space_x_', 'DiagMatrixSpace'), ('diag_space_s_', 'DiagMatrixSpace'),
                 ('diag_space_c_', 'DiagMatrixSpace'), ('ident_space_ds_', 'IdentityMatrixSpace'), ('diag_space_d_', 'DiagMatrixSpace'), ('augmented_vector_space_', 'CompoundVectorSpace')):
        v.set(st, v.p, f, v.obj('Ipopt::' + c, f))


def changed(v, st):
    """some argument differs from what the matrix was made of"""
    g = lambda f: v.get(st, v.p, f)
    out = []
    for k in ORDER:
        if k in NUMS:
            out.append(v.arg[k] != g(NUMS[k]))
        elif isinstance(v.arg[k], Ptr) and v.arg[k].b is None:
            out.append(g(TAGS[k]) != 0)
        else:
            out.append(v.get(st, v.arg[k], 'tag_') != g(TAGS[k]))
    return z3.Or(*out)


def recorded(v, st):
    return z3.Not(changed(v, st))


def cont(st, p):
    return dict(st.mem[p.b if isinstance(p, Ptr) else p].ghost.get('content', ()))


def kkt(v, st, p):
    """the matrix p is the augmented matrix of the arguments"""
    c = cont(st, p)
    A = v.arg
    ens = lambda f, lab: v.ensure(st, f if z3.is_expr(f) else z3.BoolVal(bool(f)), lab)
    ens(set(c) == {(0, 0), (1, 1), (2, 0), (2, 2), (3, 0), (3, 1), (3, 3)}, 'blocks of the augmented matrix')
    if set(c) != {(0, 0), (1, 1), (2, 0), (2, 2), (3, 0), (3, 1), (3, 3)}:
        return
    ens(c[2, 0] == 'J_c' and c[3, 0] == 'J_d', 'Jacobians are the ones given')
    t = cont(st, c[0, 0])
    ens(set(t) == {0, 1}, 'the first block has two terms')
    w = t[0]
    if A['W'].b is None:
        ens(z3.And(w[0] == 0, z3.BoolVal(w[1] == 'old W')), 'without Hessian the first term is zero')
    else:
        ens(z3.And(w[0] == A['W_factor'], z3.BoolVal(w[1] == 'W')), 'first term is the Hessian times its factor')
    ens(t[1][0] == 1, 'the diagonal enters with factor one')
    for blk, D, d, sg in ((t[1][1], 'D_x', 'delta_x', 1), (c[1, 1], 'D_s', 'delta_s', 1), (c[2, 2], 'D_c', 'delta_c', -1), (c[3, 3], 'D_d', 'delta_d', -1)):
        dg = cont(st, blk).get('diag')
        ens(dg is not None, 'diagonal block %s is set' % D)
        if dg is None:
            continue
        base_ = at(st, D, SK) if A[D].b is not None else rv(0)
        ens(at(st, dg, SK) == base_ + sg * A[d], 'diagonal block %s with its perturbation' % D)
        ens(st.mem[dg].ghost['dim'] == DIM[DIMOF[COMP[D]]], 'dimension of diagonal block %s' % D)
    i = cont(st, c[3, 1])
    ens(z3.And(z3.BoolVal(set(i) == {'factor'}), i.get('factor', rv(0)) == -1), 'minus identity couples slacks and inequalities')
    sp = lambda q: st.mem[q].ghost.get('space')
    ens([sp(p.b), sp(c[0, 0]), sp(t[1][1]), sp(c[1, 1]), sp(c[2, 2]), sp(c[3, 1]), sp(c[3, 3])] ==
        ['augmented_system_space_', 'sumsym_space_x_', 'diag_space_x_', 'diag_space_s_', 'diag_space_c_', 'ident_space_ds_', 'diag_space_d_'], 'every block comes from its space')


CASES = [(), ('W',), ('D_x',), ('D_s',), ('D_c',), ('D_d',), ('D_c', 'D_d'), ('W', 'D_x', 'D_s', 'D_c', 'D_d')]
MM = MODELS.child()


@MM.reg(SA + '::AugmentedSystemRequiresChange', 'contract', 'whether an argument differs from what the matrix was made of; proved in AugmentedSystemRequiresChange')
def m_req(ex, st, a, ins):
    v = ex.vv
    ok = all((x.key() if isinstance(x, Ptr) else x) == (y.key() if isinstance(y, Ptr) else y) if isinstance(x, Ptr) else z3.eq(z3.simplify(x), z3.simplify(y)) for x, y in zip(a[1:], [v.arg[k] for k in ORDER]))
    ex.require(st, z3.BoolVal(ok), 'arguments of the test are those given')
    return ret(st, z3.simplify(changed(v, st)))


@MM.reg(SA + '::CreateAugmentedSpace', 'contract', 'spaces of the blocks are made; proved in CreateAugmentedSpace')
def m_cspace(ex, st, a, ins):
    ex.require(st, z3.BoolVal([x.b for x in a[1:]] == ['W', 'J_c', 'J_d', 'rhs.x', 'rhs.s', 'rhs.y_c', 'rhs.y_d']), 'arguments of CreateAugmentedSpace')
    st.wb('this').ghost['spaces'] = TRUE
    v = ex.vv
    b = ex.newblock(st, 'augvecspace')
    b.cls, b.heap, b.lazy = 'Ipopt::CompoundVectorSpace', True, True
    ex.store(st, Ptr('this', v.off(SA, 'augmented_vector_space_')), Ptr(b.id))
    return ret(st)


@MM.reg(SA + '::CreateAugmentedSystem', 'contract', 'the matrix of the arguments is made and what it was made of recorded; proved in CreateAugmentedSystem')
def m_csys(ex, st, a, ins):
    v = ex.vv
    ok = all(x.key() == y.key() if isinstance(x, Ptr) else z3.eq(z3.simplify(x), z3.simplify(y)) for x, y in zip(a[1:], [v.arg[k] for k in ORDER]))
    ex.require(st, z3.BoolVal(ok), 'arguments are those given')
    ex.require(st, st.mem['this'].ghost['spaces'], 'spaces have been made')
    ex.require(st, z3.BoolVal([x.b for x in a[13:]] == ['rhs.x', 'rhs.s', 'rhs.y_c', 'rhs.y_d']), 'prototypes of the diagonals')
    b = ex.newblock(st, 'kkt')
    b.cls, b.heap, b.lazy = 'Ipopt::CompoundSymMatrix', True, True
    b.ghost['current'] = TRUE
    ex.store(st, Ptr('this', v.off(SA, 'augmented_system_')), Ptr(b.id))
    for k in ORDER:
        f = TAGS.get(k) or NUMS[k]
        x = v.arg[k]
        val = x if k in NUMS else iv(0) if x.b is None else v.get(st, x, 'tag_')
        v.set(st, v.p, f, val)
    return ret(st)


@MM.regv('Ipopt::SymLinearSolver', 'MultiSolve', 'interface', 'solves with the given matrix, or fails')
def m_lin(ex, st, a, ins):
    v = ex.vv
    m = st.mem[a[1].b]
    ex.require(st, m.ghost['current'], 'the linear solver gets the matrix of the current arguments')
    r, s = vecptrs(ex, st, a[2]), vecptrs(ex, st, a[3])
    ex.require(st, z3.BoolVal(len(r) == v.nrhs and len(s) == v.nrhs), 'as many right-hand sides and solutions as given')
    for i in range(v.nrhs):
        sfx = str(i) if i else ''
        ex.require(st, z3.BoolVal(cont(st, r[i]) == {n: 'rhs%s.%s' % (sfx, k) for n, k in enumerate(('x', 's', 'y_c', 'y_d'))}), 'right-hand side consists of the blocks given')
        ex.require(st, z3.BoolVal(cont(st, s[i]) == {n: 'sol%s.%s' % (sfx, k) for n, k in enumerate(('x', 's', 'y_c', 'y_d'))}), 'solution goes into the blocks given')
    ex.require(st, z3.And(as_bool(a[4]) == v.chk, a[5] == v.neg), 'inertia to be checked is passed on')
    st.wb('lin').ghost['called'] = TRUE
    return ret(st, z3.Int('status'))


for nm_, so_ in (('NumberOfNegEVals', IntS), ('IncreaseQuality', BoolS), ('ProvidesInertia', BoolS)):
    @MODELS.regv('Ipopt::SymLinearSolver', nm_, 'interface', 'answer of the linear solver')
    def m_lq(ex, st, a, ins, nm=nm_, so=so_):
        ex.require(st, z3.BoolVal(a[0].b == 'lin'), 'the linear solver is asked')
        return ret(st, z3.Const('lin.' + nm, so))


def jobs():
    out = []
    for isn in CASES:
        nm = ' without ' + ', '.join(isn) if isn else ''

        def s_req(v, isn=isn):
            self(v)
            return [v.p] + sysargs(v, isn)

        def p_req(v, kd, st, r):
            if not normal(v, kd, st):
                return
            v.ensure(st, as_bool(r) == changed(v, v.pre), 'a change is seen exactly if some argument differs from what the matrix was made of')
            v.frame(st, set())
        out.append(Job('AugmentedSystemRequiresChange' + nm, SA + '::AugmentedSystemRequiresChange', s_req, p_req))

        def s_sys(v, isn=isn):
            self(v)
            spaces(v)
            mat(v.st, 'old W', cls='Ipopt::SymMatrix')
            v.set(v.st, v.p, 'old_w_', Ptr('old W'))
            a = sysargs(v, isn)
            v.set(v.st, v.p, 'augmented_system_', NULL)
            return [v.p] + a + [vec(v, 'rhs.' + k, k) for k in ('x', 's', 'y_c', 'y_d')]

        def p_sys(v, kd, st, r):
            if not normal(v, kd, st):
                return
            p = v.get(st, v.p, 'augmented_system_')
            v.ensure(st, z3.BoolVal(isinstance(p, Ptr) and p.b is not None and p.b not in v.pre.mem), 'a new matrix is made')
            kkt(v, st, p)
            v.ensure(st, recorded(v, st), 'everything the matrix was made of is recorded')
            w = v.get(st, v.p, 'old_w_')
            v.ensure(st, z3.BoolVal(w.b == ('W' if v.arg['W'].b is not None else 'old W')), 'the last Hessian is kept for its structure')
            v.frame(st, {('this', v.off(SA, f)) for f in list(TAGS.values()) + list(NUMS.values()) + ['augsys_tag_', 'old_w_', 'augmented_system_']} | {(b, '*') for b in ('this',) if 0})
        out.append(Job('CreateAugmentedSystem' + nm, SA + '::CreateAugmentedSystem', s_sys, p_sys))

    def s_space(v):
        self(v)
        v.set(v.st, v.p, 'augmented_system_', NULL)
        for f in ('augmented_system_space_', 'sumsym_space_x_', 'diag_space_x_', 'diag_space_s_', 'diag_space_c_', 'ident_space_ds_', 'diag_space_d_', 'augmented_vector_space_', 'old_w_'):
            v.set(v.st, v.p, f, NULL)
        a = sysargs(v, ())
        return [v.p, v.arg['W'], v.arg['J_c'], v.arg['J_d']] + [vec(v, 'rhs.' + k, k) for k in ('x', 's', 'y_c', 'y_d')]

    def p_space(v, kd, st, r):
        if not normal(v, kd, st):
            return
        ens = lambda f, lab: v.ensure(st, f if z3.is_expr(f) else z3.BoolVal(bool(f)), lab)
        g = lambda f: v.get(st, v.p, f)
        made = lambda p: st.mem[p.b].ghost.get('made', (None,))
        tot = DIM['nx'] + 2 * DIM['ns'] + DIM['nc']
        S = g('augmented_system_space_')
        m = made(S)
        ens(m[0] == 'Ipopt::CompoundSymMatrixSpace' and z3.And(m[1] == 4, m[2] == tot), 'the augmented matrix has four blocks of the total dimension')
        c = cont(st, S)
        for i, k in enumerate(('x', 's', 'y_c', 'y_d')):
            ens(c.get(('dim', i), iv(-1)) == DIM[DIMOF[k]], 'dimension of block %s' % k)
        blk = {k: x for k, x in c.items() if k[0] != 'dim'}
        ens(blk == {(0, 0): g('sumsym_space_x_').b, (1, 1): g('diag_space_s_').b, (2, 0): 'space of J_c', (2, 2): g('diag_space_c_').b, (3, 0): 'space of J_d', (3, 1): g('ident_space_ds_').b, (3, 3): g('diag_space_d_').b}, 'spaces of the blocks')
        sm = made(g('sumsym_space_x_'))
        ens(z3.And(sm[1] == DIM['nx'], sm[2] == 2), 'the first block is a sum of two terms')
        ens(cont(st, g('sumsym_space_x_')) == {0: 'space of W', 1: g('diag_space_x_').b}, 'terms of the first block')
        for f, k in (('diag_space_x_', 'nx'), ('diag_space_s_', 'ns'), ('diag_space_c_', 'nc'), ('ident_space_ds_', 'ns'), ('diag_space_d_', 'ns')):
            ens(made(g(f))[1] == DIM[k], 'dimension of ' + f)
        V = g('augmented_vector_space_')
        mv = made(V)
        ens(z3.And(mv[1] == 4, mv[2] == tot), 'right-hand sides have four components of the total dimension')
        ens(cont(st, V) == {i: 'space of rhs.' + k for i, k in enumerate(('x', 's', 'y_c', 'y_d'))}, 'spaces of the components')
        ens(g('old_w_').b == 'W', 'the Hessian is kept for its structure')
    out.append(Job('CreateAugmentedSpace', SA + '::CreateAugmentedSpace', s_space, p_space))

    for first in (0, 1):
        def s_solve(v, first=first):
            self(v)
            v.nrhs = 1
            v.chk, v.neg = v.bool('check_NegEVals'), v.int('numberOfNegEVals')
            a = sysargs(v, ())
            st = v.st
            if first:
                v.set(st, v.p, 'augmented_system_', NULL)
                st.wb('this').ghost['spaces'] = FALSE
            else:
                st.wb('this').ghost['spaces'] = TRUE
                v.set(st, v.p, 'augmented_vector_space_', v.obj('Ipopt::CompoundVectorSpace', 'augvecspace'))
                v.set(st, v.p, 'augmented_system_', v.obj('Ipopt::CompoundSymMatrix', 'old kkt'))
                st.wb('old kkt').ghost['current'] = z3.simplify(z3.Not(changed(v, st)))
            st.wb('lin').ghost['called'] = FALSE
            return [v.p] + a + [vec(v, 'rhs.' + k, k) for k in ('x', 's', 'y_c', 'y_d')] + [vec(v, 'sol.' + k, k, False) for k in ('x', 's', 'y_c', 'y_d')] + [v.chk, v.neg]

        def p_solve(v, kd, st, r):
            if not normal(v, kd, st):
                return
            v.ensure(st, z3.And(r == z3.Int('status'), st.mem['lin'].ghost['called']), 'the status of the linear solver is returned')
            v.ensure(st, recorded(v, st), 'what the matrix was made of stays recorded')
            p = v.get(st, v.p, 'augmented_system_')
            v.ensure(st, st.mem[p.b].ghost['current'], 'the matrix kept is that of the arguments')
        out.append(Job('AugSystemSolver::Solve, %s call' % ('first' if first else 'later'), AS + '::Solve', s_solve, p_solve, models=MM))

    for n_, so_ in (('NumberOfNegEVals', IntS), ('IncreaseQuality', BoolS), ('ProvidesInertia', BoolS)):
        def s_q(v):
            self(v)
            return [v.p]

        def p_q(v, kd, st, r, n=n_, so=so_):
            if not normal(v, kd, st):
                return
            x = z3.Const('lin.' + n, so)
            v.ensure(st, as_bool(r) == x if so == BoolS else r == x, 'the answer is that of the linear solver')
            v.frame(st, set())
        out.append(Job('StdAugSystemSolver::' + n_, SA + '::' + n_, s_q, p_q))
    return out
