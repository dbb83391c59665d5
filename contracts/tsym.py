"""contracts of TSymLinearSolver: the solver interface gets the current matrix, symmetrically scaled, right-hand sides and solutions are scaled alike, statuses are passed on"""
from ipvlib import *
from absvec import *
import alg as AL
import stl
from alg import opt
import triplet as T
import structmat as SM
from triplet import mt, NE
from structmat import abmat

SRCS = ['Algorithm/LinearSolvers/IpTSymLinearSolver.cpp', 'Common/IpTaggedObject.cpp', '/verif/contracts/inst/tsym.cpp']
TS, SI, SC, CSR = 'Ipopt::TSymLinearSolver', 'Ipopt::SparseSymLinearSolverInterface', 'Ipopt::TSymScalingMethod', 'Ipopt::TripletToCSRConverter'
REP = {SI: 'ipv_ts::Solver', SC: 'ipv_ts::Scaling'}
MODELS = T.MODELS.child()
for k, m in AL.ALG.exact.items():
    MODELS.exact.setdefault(k, m)
for r, m in AL.ALG.rx:
    if 'OptionsList' in m.title or 'GetTag' in m.title:
        MODELS.rx.append((r, m))
SUCCESS, SINGULAR, WRONG, AGAIN, FATAL = range(5)
MID = ('A', [])
TAG = z3.Int('tag of A')
TV, TR, TC = [lambda k, n=n: mt(n, MID, k) for n in ('TV', 'TR', 'TC')]


@MODELS.reg('Ipopt::TaggedObject::GetTag', 'contract', 'the tag of the matrix (C11)')
def m_tag(ex, st, a, ins):
    return ret(st, TAG)


@MODELS.reg('Ipopt::TaggedObject::HasChanged', 'contract', 'the tag of the matrix differs (C11)')
def m_changed(ex, st, a, ins):
    return ret(st, a[1] != TAG)


@MODELS.reg('Ipopt::SymMatrix::Dim', 'contract', 'the dimension of the matrix')
def m_adim(ex, st, a, ins):
    return ret(st, ex.vv.dim)


@MODELS.reg('re:^Ipopt::Journalist::ProduceOutput$', 'contract', 'whether some journal takes the output (C26): both cases')
def m_po(ex, st, a, ins):
    return ret(st, z3.BoolVal(ex.vv.out))


def ent(st, fam, i):
    f = vbody(st.mem[fam.b])
    return lambda j: z3.substitute(f, (I_, iv(i)), (J, j))


def idxarr(ex, st, p, n, f, what):
    """array p holds f(j) for 0 <= j < n"""
    ex.require(st, z3.BoolVal(isinstance(p, Ptr) and p.b is not None), what + ' is given')
    g = M.rd(ex, st, p, 'i32')
    j = ex.vv.skolem('p')
    s2 = st.fork()
    s2.assume(z3.And(j >= 0, j < n))
    ex.require(s2, g(j) == f(j), what)


def scal(ex, st):
    """factor j currently stored"""
    v = ex.vv
    p = v.get(st, v.p, 'scaling_factors_')
    if p.b is None:
        return lambda j: rv(1)
    g = v.body(st, Ptr(p.b))
    u = as_bool(v.get(st, v.p, 'use_scaling_'))
    return lambda j: z3.If(u, g(j), rv(1))


def want(ex, st):
    s = scal(ex, st)
    return lambda k: TV(k) * s(TR(k) - 1) * s(TC(k) - 1)


def positions(ex, st, ia, ja):
    v = ex.vv
    if v.csr:
        ex.require(st, z3.BoolVal(ia.b == 'ia' and ja.b == 'ja'), 'the positions are those of the compressed format')
        ex.require(st, z3.BoolVal(bool(st.gh.get('converter') or v.have)), 'the compressed format was made for this matrix')
    else:
        for p, f, w in ((ia, TR, 'row'), (ja, TC, 'column')):
            idxarr(ex, st, p, NE(MID), f, 'the %s indices are those of the triplets of the matrix' % w)


@MODELS.reg(CSR + '::InitializeConverter', 'contract', 'the index arrays describe the matrix of the triplets (C18)')
def m_ic(ex, st, a, ins):
    v = ex.vv
    ex.require(st, z3.And(a[1] == v.dim, a[2] == NE(MID)), 'dimension and number of triplets')
    idxarr(ex, st, a[3], NE(MID), TR, 'row indices for the conversion')
    idxarr(ex, st, a[4], NE(MID), TC, 'column indices for the conversion')
    st.gh['converter'] = 1
    st.assume(v.cnnz >= 0)
    return ret(st, v.cnnz)


@MODELS.reg([CSR + '::IA', CSR + '::JA'], 'contract', 'the index arrays of the converter (C18)')
def m_ia(ex, st, a, ins):
    return ret(st, Ptr('ia' if '::IA' in ex.mod.dem[ins['f']] else 'ja'))


CSRV = z3.Function('compressed values', IntS, RealS)


@MODELS.reg(CSR + '::ConvertValues', 'contract', 'the compressed values of the triplets (C18)')
def m_cv(ex, st, a, ins):
    v = ex.vv
    ex.require(st, z3.And(a[1] == NE(MID), a[3] == v.cnnz), 'numbers of entries for the conversion')
    g, w = M.rd(ex, st, a[2], 'double'), want(ex, st)
    j = v.skolem('k')
    s2 = st.fork()
    s2.assume(z3.And(j >= 0, j < NE(MID)))
    ex.require(s2, g(j) == w(j), 'the values to be converted are those of the current matrix, scaled')
    T.segment(ex, st, a[4], v.cnnz, lambda k, o: CSRV(k), 'double')
    return ret(st)


@MODELS.regv(SI, 'InitializeStructure', 'interface', 'the solver learns the structure; any status')
def m_is(ex, st, a, ins):
    v = ex.vv
    ex.require(st, z3.And(a[1] == v.dim, a[2] == (v.cnnz if v.csr else NE(MID))), 'dimension and number of entries')
    positions(ex, st, a[3], a[4])
    st.gh['structure'] = st.gh.get('structure', 0) + 1
    r = z3.Int('structure status')
    st.assume(z3.And(r >= 0, r <= FATAL, r != AGAIN))
    return ret(st, r)


@MODELS.regv(SI, 'GetValuesArrayPtr', 'interface', 'array for the values')
def m_gv(ex, st, a, ins):
    return ret(st, Ptr('pa'))


@MODELS.regv(SC, 'ComputeSymTScalingFactors', 'interface', 'computes the factors for the matrix; any result')
def m_sc(ex, st, a, ins):
    v = ex.vv
    ex.require(st, z3.And(a[1] == v.dim, a[2] == NE(MID)), 'dimensions for the scaling')
    idxarr(ex, st, a[3], NE(MID), TR, 'row indices for the scaling')
    idxarr(ex, st, a[4], NE(MID), TC, 'column indices for the scaling')
    g = M.rd(ex, st, a[5], 'double')
    j = v.skolem('k')
    s2 = st.fork()
    s2.assume(z3.And(j >= 0, j < NE(MID)))
    ex.require(s2, g(j) == TV(j), 'factors are computed for the unscaled current matrix')
    SF = z3.Function('computed factor', IntS, RealS)
    T.segment(ex, st, a[6], v.dim, lambda k, o: SF(k), 'double')
    st.wb('ghost').cells[0] = TRUE
    return ret(st, z3.Bool('factors computed'))


SOL = lambda st: z3.Function('solution', IntS, RealS)


@MODELS.regv(SI, 'MultiSolve', 'interface', 'solves for the values in the array; any status; asked to be called again, it keeps the right-hand sides and forgets the values')
def m_ms(ex, st, a, ins):
    v = ex.vv
    newm, ia, ja, nrhs, rhs, chk, neg = a[1:]
    newm = as_bool(newm)
    G = st.mem['ghost'].cells
    ex.require(st, z3.BoolVal(bool(st.gh.get('structure')) or v.inited), 'the solver knows the structure')
    positions(ex, st, ia, ja)
    ex.require(st, z3.And(nrhs == v.nrhs, as_bool(chk) == v.chk, neg == v.neg), 'number of right-hand sides and expected inertia')
    ex.require(st, z3.Implies(z3.Or(v.changed, v.just), newm), 'a changed matrix or scaling is announced')
    if v.scaling:
        ex.require(st, z3.Implies(v.F['use_scaling_'], as_bool(G[0])), 'the scaling factors belong to the current matrix')
    j = v.skolem('k')
    g = v.body(st, Ptr('pa'))
    s2 = st.fork()
    s2.assume(z3.And(j >= 0, j < (v.cnnz if v.csr else NE(MID)), z3.Or(newm, as_bool(G[8]))))
    ex.require(s2, g(j) == (CSRV(j) if v.csr else want(ex, st)(j)), 'the solver has the values of the current matrix, scaled')
    r = M.rd(ex, st, rhs, 'double')
    sc = scal(ex, st)
    for i in range(v.nrhs):
        s2 = st.fork()
        s2.assume(z3.And(j >= 0, j < v.dim))
        ex.require(s2, r(i * v.dim + j) == ent(v.pre, v.rhs, i)(j) * sc(j), 'right-hand side %d, scaled' % i)
    stat = z3.Int('status!%d' % next(engine._uid))
    st.assume(z3.And(stat >= 0, stat <= FATAL))
    st.wb('ghost').cells[8] = stat == AGAIN
    st.wb('ghost').cells[16] = stat
    LOST = z3.Function('overwritten!%d' % next(engine._uid), IntS, RealS)
    T.segment(ex, st, Ptr('pa'), v.cnnz if v.csr else NE(MID), lambda k, o: LOST(k), 'double')
    OTHER = z3.Function('remains', IntS, RealS)
    T.segment(ex, st, rhs, v.nrhs * v.dim, lambda k, o: z3.If(stat == AGAIN, o, z3.If(stat == SUCCESS, SOL(st)(k), OTHER(k))), 'double')
    return ret(st, stat)


@MODELS.regv(SI, 'DetermineDependentRows', 'interface', 'dependent rows of the matrix in the array; any status')
def m_dep(ex, st, a, ins):
    v = ex.vv
    positions(ex, st, a[1], a[2])
    ex.require(st, z3.BoolVal(bool(st.gh.get('structure'))), 'the solver knows the structure')
    j = v.skolem('k')
    g = v.body(st, Ptr('pa'))
    s2 = st.fork()
    s2.assume(z3.And(j >= 0, j < (v.cnnz if v.csr else NE(MID))))
    ex.require(s2, g(j) == (CSRV(j) if v.csr else want(ex, st)(j)), 'the solver has the values of the matrix, scaled')
    stl.mklist(st, a[3], 'deps', iv(0), z3.Int('ndeps'), z3.Function('dependent', IntS, IntS)(J))
    st.assume(z3.Int('ndeps') >= 0)
    st.gh['deps'] = 1
    return ret(st, z3.Int('dependency status'))


@MODELS.reg(['Ipopt::AlgorithmStrategyObject::Initialize', 'Ipopt::AlgorithmStrategyObject::ReducedInitialize'], 'interface', 'a part of the algorithm is initialized, with success or not')
def m_init(ex, st, a, ins):
    st.gh['init'] = st.gh.get('init', ()) + (a[0].b,)
    return ret(st, z3.Bool('initialized ' + a[0].b))


@MODELS.reg(CSR + '::TripletToCSRConverter', 'contract', 'a converter for an offset and a format (C18)')
def m_conv(ex, st, a, ins):
    st.gh['conv'] = st.gh.get('conv', ()) + ((a[0].b, a[1], a[2]),)
    return ret(st)


for nm, so in (('NumberOfNegEVals', IntS), ('IncreaseQuality', BoolS), ('ProvidesInertia', BoolS), ('MatrixFormat', IntS), ('ProvidesDegeneracyDetection', BoolS)):
    @MODELS.regv(SI, nm, 'interface', 'answer of the solver')
    def m_q(ex, st, a, ins, nm=nm, so=so):
        st.gh['asked'] = st.gh.get('asked', 0) + 1
        return ret(st, z3.Const('solver.' + nm, so))


def jobs():
    out = []

    def base(v, scaling, csr, inited, have=True):
        v.scaling, v.csr, v.inited, v.have = scaling, csr, inited, have
        v.p, v.F = AL.strategy(v, TS)
        F, st = v.F, v.st
        v.dim, v.cnnz = v.int('dim'), v.int('nonzeros_compressed')
        v.A = abmat(v, 'A')
        n = NE(MID)
        v.assume(z3.And(v.dim >= 0, n >= 0, v.cnnz >= 0))
        q = z3.Int('$t')
        for f in (TR, TC):
            v.assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < n), z3.And(f(q) >= 1, f(q) <= v.dim)), patterns=[f(q)]))
        sv = v.obj(SI, 'solver')
        sm = v.obj(SC, 'scaling')
        for k, x in (('solver_interface_', sv), ('scaling_method_', sm if scaling else NULL), ('initialized_', z3.BoolVal(inited)), ('have_structure_', z3.BoolVal(have)), ('matrix_format_', v.int('format'))):
            v.set(st, v.p, k, x)
        v.fmt = v.int('format')
        v.assume(v.fmt != 0 if csr else v.fmt == 0)
        v.F['use_scaling_'] = z3.BoolVal(scaling == 2)
        v.set(st, v.p, 'use_scaling_', v.F['use_scaling_'])
        v.set(st, v.p, 'triplet_to_csr_converter_', v.obj(CSR, 'converter') if csr else NULL)
        v.just = as_bool(v.get(st, v.p, 'just_switched_on_scaling_'))
        v.assume(z3.Implies(v.just, v.F['use_scaling_']))
        v.atag = v.int('atag')
        v.set(st, v.p, 'atag_', v.atag)
        v.changed = v.atag != TAG
        st.add(Block('ghost', 'rec'))
        w = st.wb('ghost')
        w.cells[0] = z3.Not(z3.Or(v.changed, v.just))       # the factors belong to the current matrix
        w.cells[8] = FALSE                                  # the solver asked to be called again
        w.cells[16] = iv(-1)                                # last status
        v.arr('pa', v.cnnz if csr else n)
        v.arr('ia', v.int('nia'), S=4, ty='i32')
        v.arr('ja', v.int('nja'), S=4, ty='i32')
        if have:
            v.set(st, v.p, 'dim_', v.dim)
            v.set(st, v.p, 'nonzeros_triplet_', n)
            v.set(st, v.p, 'nonzeros_compressed_', v.cnnz)
            v.set(st, v.p, 'airn_', v.arr('airn', n, S=4, ty='i32', body=TR(J)))
            v.set(st, v.p, 'ajcn_', v.arr('ajcn', n, S=4, ty='i32', body=TC(J)))
            v.set(st, v.p, 'scaling_factors_', v.arr('factors', v.dim) if scaling else NULL)
        else:
            for k in ('airn_', 'ajcn_', 'scaling_factors_'):
                v.set(st, v.p, k, NULL)
            v.set(st, v.p, 'dim_', iv(0))
            v.set(st, v.p, 'nonzeros_triplet_', iv(0))
            v.set(st, v.p, 'nonzeros_compressed_', iv(0))

    def ms(scaling, csr, inited, have, nrhs, outp=False):
        def setup(v):
            base(v, scaling, csr, inited, have)
            v.out = outp
            if not inited and not have:
                v.assume(v.changed)                         # no matrix was seen before
                v.assume(z3.Not(v.just))
            v.nrhs = nrhs
            v.chk, v.neg = v.bool('check_NegEVals'), v.int('numberOfNegEVals')
            args = []
            for nm in ('rhs', 'sol'):
                fam = abvec(v, nm, nrhs, dim=v.dim)
                b = Block(nm + 'V.data', 'arr', S=8, n=iv(nrhs), lazy=True)
                b.fields[0] = FamVal(Ptr(fam.b, 0, ((1000, J),)))
                v.st.add(b)
                p = v.st.add(Block(nm + 'V', 'rec'))
                v.st.wb(nm + 'V').cells[0] = Ptr(b.id)
                setattr(v, nm, fam)
                args.append(Ptr(nm + 'V'))
            return [v.p, v.A] + args + [v.chk, v.neg]

        def post(v, kd, st, val):
            G = st.mem['ghost'].cells
            if kd != 'ret':
                v.ensure(st, z3.BoolVal(AL.throws(kd, val, 'ERROR_IN_LINEAR_SCALING_METHOD', 'INVALID_WARMSTART')), 'only a failed scaling or an invalid warm start is thrown')
                v.ensure(st, z3.Or(z3.Not(z3.Bool('factors computed')), z3.BoolVal(have and not inited)), 'thrown only if the scaling failed or the structure changed')
                return
            called = not G[16].eq(iv(-1))
            if not called:
                v.ensure(st, z3.And(val == z3.Int('structure status'), val != SUCCESS), 'without a solve the status is that of the failed initialization')
                v.ensure(st, z3.BoolVal(not inited), 'an initialized solver is always called')
                v.frame(st, {('this', '*'), ('pa', ('f', 0)), ('factors', ('f', 0)), ('airn', 'release'), ('ajcn', 'release'), ('factors', 'release')})
                return
            v.ensure(st, z3.And(val == G[16], val != AGAIN), 'the status is that of the solver')
            v.ensure(st, v.get(st, v.p, 'atag_') == TAG, 'the matrix is remembered')
            j = v.skolem('j')
            s = scal(v.ex, st)
            for i in range(nrhs):
                s2 = st.fork()
                s2.assume(z3.And(j >= 0, j < v.dim))
                x = ent(st, v.sol, i)(j)
                v.ensure(s2, x == z3.If(val == SUCCESS, SOL(st)(i * v.dim + j) * s(j), ent(v.pre, v.sol, i)(j)), 'solution %d is that of the solver, unscaled, or untouched' % i)
            v.ensure(st, z3.Not(as_bool(v.get(st, v.p, 'just_switched_on_scaling_'))), 'the switch of the scaling is consumed')
            v.ensure(st, z3.And(as_bool(v.get(st, v.p, 'initialized_')), as_bool(v.get(st, v.p, 'have_structure_')), v.get(st, v.p, 'dim_') == v.dim, v.get(st, v.p, 'nonzeros_triplet_') == NE(MID)), 'the structure is remembered')
            for k, f in (('airn_', TR), ('ajcn_', TC)):
                p = v.get(st, v.p, k)
                s2 = st.fork()
                s2.assume(z3.And(j >= 0, j < NE(MID)))
                v.ensure(s2, v.body(st, Ptr(p.b), 'i32')(j) == f(j), 'the positions are remembered')
            v.ensure(st, v.get(st, v.p, 'use_scaling_') == v.get(v.pre, v.p, 'use_scaling_'), 'scaling is used as before')
            v.frame(st, {('this', v.off(TS, k)) for k in ('atag_', 'just_switched_on_scaling_')} | ({('this', v.off(TS, k)) for k in ('initialized_', 'have_structure_', 'dim_', 'nonzeros_triplet_', 'nonzeros_compressed_', 'airn_', 'ajcn_', 'scaling_factors_')} if not inited else set())
                    | {('pa', ('f', 0)), ('factors', ('f', 0)), ('sol', ('g', 'val[]')), ('ghost', 0), ('ghost', 8), ('ghost', 16)})

        def inv(v, st, st0):
            G, G0 = st.mem['ghost'].cells, st0.mem['ghost'].cells
            n = v.cnnz if csr else NE(MID)
            q = z3.Int('$q')
            must = [('factors stay those of the current matrix', z3.Implies(as_bool(G0[0]), as_bool(G[0])))]
            g, w = v.body(st, Ptr('pa')), want(v.ex, st)
            S = G[16]
            ready = z3.Or(S == -1, S == AGAIN)
            must.append(('status', z3.And(S >= -1, S <= FATAL, as_bool(G[8]) == (S == AGAIN))))
            must.append(('before a call the values are those of the matrix', z3.Implies(z3.And(ready, z3.Or(as_bool(G[8]), v.changed, v.just)), z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < n), g(q) == (CSRV(q) if csr else w(q)))))))
            for bid, b in st0.mem.items():
                if b.live and b.kind == 'arr' and b.S == 8 and bid not in v.pre.mem and bid != v.get(st, v.p, 'scaling_factors_').b and isz(b.fields.get(0)) and b.fields[0].sort() == RealS:
                    y, y0 = v.body(st, Ptr(bid))(q), v.body(st0, Ptr(bid))(q)
                    must.append(('the right-hand sides stay until they are solved', z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < nrhs * v.dim), y == z3.If(ready, y0, z3.If(S == SUCCESS, SOL(st)(q), y))))))
            return {'must': must, 'terms': [S], 'preds': [ready, as_bool(G[8])]}
        inv.sel = 'GiveMatrixToSolver'
        nm = 'TSymLinearSolver::MultiSolve[%s%s%s, %d right-hand side%s]' % ('compressed' if csr else 'triplets', ('', ', scaling off', ', scaling')[scaling], '' if inited else ', warm start' if have else ', first call', nrhs, 's' if nrhs > 1 else '') + (' with output' if outp else '')
        out.append(Job(nm, TS + '::MultiSolve', setup, post, inv={TS + '::MultiSolve': inv}))
    for csr in (False, True):
        for scaling in (0, 1, 2):
            ms(scaling, csr, True, True, 1, scaling == 1)
            if scaling != 1:
                ms(scaling, csr, True, True, 2, scaling == 2)
            ms(scaling, csr, False, False, 1)
            ms(scaling, csr, False, True, 1)

    def simple(meth, so, setup=None):
        def s_(v):
            base(v, 1, False, True)
            v.out = False
            return [v.p]

        def p_(v, kd, st, val):
            v.ensure(st, z3.BoolVal(kd == 'ret'), 'returns normally')
            if kd == 'ret':
                x = z3.Const('solver.' + meth, so)
                v.ensure(st, (as_bool(val) if so == BoolS else val) == x, 'the answer of the solver')
                v.frame(st, set())
        out.append(Job('TSymLinearSolver::' + meth, TS + '::' + meth, s_, p_))
    simple('NumberOfNegEVals', IntS)
    simple('ProvidesInertia', BoolS)
    simple('ProvidesDegeneracyDetection', BoolS)

    for scaling in (0, 1, 2):
        def s_iq(v, scaling=scaling):
            base(v, scaling, False, True)
            v.out = False
            return [v.p]

        def p_iq(v, kd, st, val, scaling=scaling):
            v.ensure(st, z3.BoolVal(kd == 'ret'), 'returns normally')
            if kd != 'ret':
                return
            on = z3.And(z3.BoolVal(scaling == 1), as_bool(v.get(v.pre, v.p, 'linear_scaling_on_demand_')))
            g = lambda k: as_bool(v.get(st, v.p, k))
            v.ensure(st, as_bool(val) == z3.If(on, TRUE, z3.Bool('solver.IncreaseQuality')), 'better quality by scaling on demand, otherwise the answer of the solver')
            v.ensure(st, z3.And(g('use_scaling_') == z3.Or(on, z3.BoolVal(scaling == 2)), g('just_switched_on_scaling_') == z3.Or(on, v.just)), 'scaling is switched on exactly if it is on demand')
            v.ensure(st, z3.Not(on) == z3.BoolVal(bool(st.gh.get('asked'))), 'the solver is asked exactly if there is nothing else to do')
            v.frame(st, {('this', v.off(TS, k)) for k in ('use_scaling_', 'just_switched_on_scaling_')})
        out.append(Job('TSymLinearSolver::IncreaseQuality[%s]' % ('no scaling', 'scaling off', 'scaling on')[scaling], TS + '::IncreaseQuality', s_iq, p_iq))

    for csr in (False, True):
        for scaling in (0, 2):
            def s_dd(v, csr=csr, scaling=scaling):
                base(v, scaling, csr, False, False)
                v.out = False
                v.nr, v.nc, v.nj = v.int('n_rows'), v.int('n_cols'), v.int('n_jac_nz')
                v.assume(z3.And(v.nr >= 0, v.nc >= 0, v.nj >= 0, v.dim == v.nr + v.nc, NE(MID) == v.nj + v.dim))
                x = v.arr('jac_vals', v.nj)
                r, c = v.arr('jac_rows', v.nj, S=4, ty='i32'), v.arr('jac_cols', v.nj, S=4, ty='i32')
                q = z3.Int('$t')
                for f, a, o in ((TR, r, v.nc), (TC, c, 0)):
                    v.assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < NE(MID)), f(q) == z3.If(q < v.nj, v.body(v.st, a, 'i32')(q) + o, q - v.nj + 1)), patterns=[f(q)]))
                v.assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < NE(MID)), TV(q) == z3.If(q < v.nj, v.body(v.st, x)(q), z3.If(q < v.nj + v.nc, rv(1), rv(0)))), patterns=[TV(q)]))
                v.deps = v.st.add(Block('c_deps', 'rec'))
                return [v.p, v.nr, v.nc, v.nj, x, r, c, Ptr('c_deps')]

            def p_dd(v, kd, st, val):
                if kd != 'ret':
                    v.ensure(st, z3.BoolVal(AL.throws(kd, val, 'ERROR_IN_LINEAR_SCALING_METHOD')), 'only a failed scaling is thrown')
                    v.ensure(st, z3.Not(z3.Bool('factors computed')), 'thrown only if the scaling failed')
                    return
                if not st.gh.get('deps'):
                    v.ensure(st, z3.And(val == z3.Int('structure status'), val != SUCCESS), 'status of the failed initialization')
                    return
                v.ensure(st, val == z3.Int('dependency status'), 'the status is that of the solver')
                j = v.skolem('j')
                st.assume(z3.And(j >= 0, j < z3.Int('ndeps')))
                d = z3.Function('dependent', IntS, IntS)(j)
                g = st.mem['deps'].fields[8]
                f = lambda j: z3.substitute(g, (J, j))
                n = z3.Int('ndeps')
                v.ensure(st, z3.BoolVal(st.mem['c_deps'].cells[0].b == 'deps'), 'the list of the solver')
                v.ensure(st, z3.And(f(j) == z3.If(val == SUCCESS, d - v.nc, d)), 'the dependent rows are counted without the columns')
            out.append(Job('TSymLinearSolver::DetermineDependentRows[%s%s]' % ('compressed' if csr else 'triplets', ', scaling' if scaling else ''), TS + '::DetermineDependentRows', s_dd, p_dd))
    for warm in (False, True):
        for fmt in range(5):
            for scaling in (False, True):
                def s_in(v, warm=warm, fmt=fmt, scaling=scaling):
                    base(v, 1 if scaling else 0, fmt != 0, False, warm)
                    v.out = False
                    v.assume(opt('warm_start_same_structure', BoolS) == z3.BoolVal(warm))
                    if not warm:
                        v.assume(z3.Int('solver.MatrixFormat') == fmt)
                        v.set(v.st, v.p, 'triplet_to_csr_converter_', NULL)
                    o = v.obj('Ipopt::OptionsList', 'options')
                    q = v.string('prefix')
                    return [v.p, o, q]

                def p_in(v, kd, st, val, warm=warm, fmt=fmt, scaling=scaling):
                    v.ensure(st, z3.BoolVal(kd == 'ret'), 'returns normally')
                    if kd != 'ret':
                        return
                    ok = z3.And(z3.Bool('initialized solver'), z3.BoolVal(not scaling) if not scaling else z3.Bool('initialized scaling'))
                    v.ensure(st, as_bool(val) == ok, 'success exactly if the solver and the scaling could be initialized')
                    st.assume(as_bool(val))
                    g = lambda k: v.get(st, v.p, k)
                    od = opt('linear_scaling_on_demand', BoolS) if scaling else FALSE
                    v.ensure(st, z3.And(as_bool(g('linear_scaling_on_demand_')) == od, as_bool(g('use_scaling_')) == z3.And(z3.BoolVal(scaling), z3.Not(od)), z3.Not(as_bool(g('just_switched_on_scaling_')))), 'scaling is used from the start unless it is on demand')
                    v.ensure(st, z3.Not(as_bool(g('initialized_'))), 'the solver has to learn the structure')
                    if warm:
                        v.ensure(st, as_bool(g('have_structure_')), 'the structure is kept')
                        v.frame(st, {('this', v.off(TS, k)) for k in ('linear_scaling_on_demand_', 'use_scaling_', 'just_switched_on_scaling_', 'initialized_', 'warm_start_same_structure_')})
                        return
                    v.ensure(st, z3.And(g('atag_') == 0, z3.Not(as_bool(g('have_structure_'))), g('matrix_format_') == fmt), 'no matrix is known, the format is that of the solver')
                    c = g('triplet_to_csr_converter_')
                    cs = st.gh.get('conv', ())
                    if fmt == 0:
                        v.ensure(st, z3.BoolVal(c.b is None), 'no converter for triplets')
                    else:
                        v.ensure(st, z3.BoolVal(c.b is not None and len(cs) == 1 and cs[0][0] == c.b), 'one converter')
                        if len(cs) == 1:
                            v.ensure(st, z3.And(cs[0][1] == (fmt + 1) % 2, cs[0][2] == (1 if fmt > 2 else 0)), 'offset and format of the converter are those the solver asks for')
                out.append(Job('TSymLinearSolver::InitializeImpl[%s, format %d%s]' % ('warm start' if warm else 'new structure', fmt, ', scaling' if scaling else ''), TS + '::InitializeImpl', s_in, p_in))
    return out
