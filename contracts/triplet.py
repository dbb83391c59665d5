"""contracts of TripletHelper: the triplets of every kind of matrix in terms of those of the matrices it is made of"""
from ipvlib import *
from absvec import *
import absvec as A
import structmat as SM
import densevec as DV
import compvec as CVE
from structmat import abmat, bmember, matid, blockof

SRCS = ['LinAlg/TMatrices/IpTripletHelper.cpp', 'LinAlg/TMatrices/IpGenTMatrix.cpp', 'LinAlg/TMatrices/IpSymTMatrix.cpp', 'LinAlg/IpExpansionMatrix.cpp', 'LinAlg/IpMatrix.cpp',
        'LinAlg/IpDiagMatrix.cpp', 'LinAlg/IpIdentityMatrix.cpp', 'LinAlg/IpTransposeMatrix.cpp', 'LinAlg/IpScaledMatrix.cpp', 'LinAlg/IpSymScaledMatrix.cpp',
        'LinAlg/IpSumMatrix.cpp', 'LinAlg/IpSumSymMatrix.cpp', 'LinAlg/IpCompoundMatrix.cpp', 'LinAlg/IpCompoundSymMatrix.cpp', 'LinAlg/IpExpandedMultiVectorMatrix.cpp',
        'LinAlg/IpZeroMatrix.cpp', 'LinAlg/IpZeroSymMatrix.cpp', 'LinAlg/IpDenseVector.cpp', 'LinAlg/IpCompoundVector.cpp', 'Common/IpTaggedObject.cpp', '/verif/contracts/inst/structmat.cpp']
MODELS = SM.MODELS.child()
TH = 'Ipopt::TripletHelper'


def mt(kind, mid, *k):
    """NE: number of triplets of a matrix; TR, TC (1-based), TV: triplet k"""
    i, idx = mid
    so = RealS if kind == 'TV' else IntS
    a = list(idx) + list(k)
    if not a:
        return z3.Const('%s(%s)' % (kind, i), so)
    return z3.Function('%s(%s)' % (kind, i), *([IntS] * len(a) + [so]))(*a)


NE = lambda mid: mt('NE', mid)


def isabs(ex, st, p):
    return p.b is not None and st.mem[p.b].tag == 'absmat'


@MODELS.reg(TH + '::GetNumberEntries', 'contract', 'number of triplets of a matrix, proved for every kind of matrix')
def m_ne(ex, st, a, ins):
    n = NE(matid(ex, st, a[0]))
    st.assume(n >= 0)
    return ret(st, n)


def segment(ex, st, p, n, f, ty):
    """elements 0..n-1 behind p become f(k, old)"""
    if p.b is None:
        ex.require(st, n <= 0, 'null array for triplets')
        return
    b, idx, v = M.content(ex, st, p, ty)
    if b.kind != 'arr':
        raise Unsupported('triplets written to a scalar')
    ex.require(st, z3.Implies(n > 0, z3.And(idx >= 0, idx + n <= b.n)), 'room for the triplets')
    w = st.wb(b.id)
    _, fo = ex.elem(w, p, ty)
    w.fields[fo] = z3.simplify(z3.If(z3.And(J >= idx, J < idx + n), f(z3.simplify(J - idx), v), v))


@MODELS.reg(TH + '::FillRowCol', 'contract', 'positions of the triplets of a matrix, shifted; proved for every kind of matrix')
def m_rc(ex, st, a, ins):
    n, mp, ir, jc, ro, co = a
    mid = matid(ex, st, mp)
    ex.require(st, n == NE(mid), 'number of entries is that of the matrix')
    st.assume(n >= 0)
    if hasattr(ex.vv, 'inst') and mid[1]:
        st.assume(ex.vv.inst(mid[1]))   # an instance of the lemma proved when the matrix was set up
    segment(ex, st, ir, n, lambda k, o: mt('TR', mid, k) + ro, 'i32')
    segment(ex, st, jc, n, lambda k, o: mt('TC', mid, k) + co, 'i32')
    return ret(st)


@MODELS.reg(TH + '::FillValues', 'contract', 'values of the triplets of a matrix; proved for every kind of matrix')
def m_fv(ex, st, a, ins):
    n, mp, vals = a
    mid = matid(ex, st, mp)
    ex.require(st, n == NE(mid), 'number of entries is that of the matrix')
    st.assume(n >= 0)
    if hasattr(ex.vv, 'inst') and mid[1]:
        st.assume(ex.vv.inst(mid[1]))   # an instance of the lemma proved when the matrix was set up
    segment(ex, st, vals, n, lambda k, o: mt('TV', mid, k), 'double')
    return ret(st)


def vdim(ex, st, p):
    b, idx = abspart(ex, st, p)
    d = b.ghost['dim']
    if idx is not None:
        d = z3.substitute(d, (I_, idx))
    return d


@MODELS.reg('Ipopt::Vector::Dim', 'contract', 'dimension of the vector')
def m_dim(ex, st, a, ins):
    d = vdim(ex, st, a[0])
    st.assume(d >= 0)
    return ret(st, d)


@MODELS.reg(TH + '::FillValuesFromVector', 'contract', 'the entries of the vector; proved for every kind of vector')
def m_fvv(ex, st, a, ins):
    n, vp, vals = a
    f = vget(ex, st, vp)
    ex.require(st, n == vdim(ex, st, vp), 'number of entries is that of the vector')
    st.assume(n >= 0)
    segment(ex, st, vals, n, lambda k, o: f(k), 'double')
    return ret(st)


@MODELS.reg(TH + '::PutValuesInVector', 'contract', 'the entries of the vector become the values; proved for every kind of vector')
def m_pvv(ex, st, a, ins):
    n, vals, vp = a
    ex.require(st, n == vdim(ex, st, vp), 'number of entries is that of the vector')
    st.assume(n >= 0)
    if vals.b is None:
        ex.require(st, n <= 0, 'null array of values')
        return ret(st)
    M.inrange(ex, st, vals, 'double', n, iv(1), 'values')
    f = M.rd(ex, st, vals, 'double')
    old = vget(ex, st, vp)
    vput(ex, st, vp, lambda j: z3.If(z3.And(j >= 0, j < n), f(j), old(j)))
    return ret(st)


VECM = MODELS.child()
VECM.hide = ['Ipopt::CompoundVector::']
CMS, CSS = 'Ipopt::CompoundMatrixSpace', 'Ipopt::CompoundSymMatrixSpace'


def jobs():
    out = []

    def normal(v, kind, st):
        v.ensure(st, z3.BoolVal(kind == 'ret'), 'returns normally')
        return kind == 'ret'

    # ---- the kinds of matrices. Each prep builds the matrix and returns (number, row(j), col(j), value(j, old)) of triplet j
    def owner(v, cls, name, scls):
        sp = v.obj(scls, name)
        for c in (cls, 'Ipopt::Matrix', 'Ipopt::SymMatrix'):
            if v.mod.baseoff(cls, c) is not None and any(x[0] == 'owner_space_' for x in v.mod.classes[c]['m']):
                v.st.wb('m').cells[v.off(cls, 'owner_space_') if c == cls else v.mod.baseoff(cls, c) + v.off(c, 'owner_space_')] = sp
        return sp

    def dims(v, sp, scls, n=None, m=None):
        b = v.mod.baseoff(scls, 'Ipopt::MatrixSpace')
        v.nr, v.nc = v.int('rows') if n is None else n, v.int('cols') if m is None else m
        v.assume(z3.And(v.nr >= 0, v.nc >= 0))
        v.st.wb(sp.b).cells[b + v.off('Ipopt::MatrixSpace', 'nRows_')] = v.nr
        v.st.wb(sp.b).cells[b + v.off('Ipopt::MatrixSpace', 'nCols_')] = v.nc

    def tmat(cls, sym):
        scls = cls + 'Space'

        def prep(v):
            sp = owner(v, cls, 'space', scls)
            dims(v, sp, scls)
            n = v.int('nonzeros')
            v.assume(n >= 0)
            v.set(v.st, sp, 'nonZeros_', n)
            r, c, x = v.arr('irows', n, S=4, ty='i32'), v.arr('jcols', n, S=4, ty='i32'), v.arr('vals', n)
            v.set(v.st, sp, 'iRows_', r)
            v.set(v.st, sp, 'jCols_', c)
            v.set(v.st, v.m, 'values_', x)
            v.set(v.st, v.m, 'initialized_', TRUE)
            R, C, X = v.body(v.st, r, 'i32'), v.body(v.st, c, 'i32'), v.body(v.st, x)
            return n, R, C, X
        return prep

    def diag(v):
        cls = 'Ipopt::DiagMatrix'
        sp = owner(v, cls, 'space', None)
        v.st.wb(sp.b).cls = 'Ipopt::SymMatrixSpace'
        n = v.int('dim')
        dims(v, sp, 'Ipopt::SymMatrixSpace', n, n)
        d = abvec(v, 'diag', dim=n)
        v.set(v.st, v.m, 'diag_', d)
        D = vspec(v.st, d)
        return n, lambda j: j + 1, lambda j: j + 1, D

    def ident(v):
        cls = 'Ipopt::IdentityMatrix'
        sp = owner(v, cls, 'space', None)
        v.st.wb(sp.b).cls = 'Ipopt::SymMatrixSpace'
        n = v.int('dim')
        dims(v, sp, 'Ipopt::SymMatrixSpace', n, n)
        f = v.real('factor')
        v.set(v.st, v.m, 'factor_', f)
        return n, lambda j: j + 1, lambda j: j + 1, lambda j: f

    def expmat(v, m='m'):
        cls = 'Ipopt::ExpansionMatrix'
        sp = v.obj(cls + 'Space', m + '.space')
        for c in (cls, 'Ipopt::Matrix'):
            if any(x[0] == 'owner_space_' for x in v.mod.classes[c]['m']):
                v.st.wb(m).cells[v.off(cls, 'owner_space_') if c == cls else v.mod.baseoff(cls, c) + v.off(c, 'owner_space_')] = sp
        dims(v, sp, cls + 'Space')
        e = v.arr(m + '.expos', v.nc, S=4, ty='i32')
        v.set(v.st, sp, 'expanded_pos_', e)
        E = v.body(v.st, e, 'i32')
        return v.nc, lambda j: E(j) + 1, lambda j: j + 1, lambda j: rv(1)

    def scaled(cls, rows, cols):
        def prep(v):
            sp = owner(v, cls, 'space', cls + 'Space')
            dims(v, sp, cls + 'Space')
            if not cols:
                v.assume(v.nr == v.nc)
            u = abmat(v, 'inner')
            v.set(v.st, v.m, 'matrix_', u)
            mid = ('inner', [])
            q = z3.Int('$t')
            tr, tc = mt('TR', mid, q), mt('TC', mid, q)
            v.assume(NE(mid) >= 0)
            v.assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < NE(mid)), z3.And(tr >= 1, tr <= v.nr)), patterns=[tr]))
            v.assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < NE(mid)), z3.And(tc >= 1, tc <= v.nc)), patterns=[tc]))
            rs, hr = abvec(v, 'rowscaling', dim=v.nr), v.bool('has_rowscaling')
            v.set(v.st, sp, rows, v.nullable(rs, z3.Not(hr)))
            if cols:
                cs, hc = abvec(v, 'colscaling', dim=v.nc), v.bool('has_colscaling')
                v.set(v.st, sp, cols, v.nullable(cs, z3.Not(hc)))
            else:
                cs, hc = rs, hr
            Rs, Cs = vspec(v.st, rs), vspec(v.st, cs)

            def val(j):
                x = mt('TV', mid, j)
                x = x * z3.If(hr, Rs(mt('TR', mid, j) - 1), rv(1))
                return x * z3.If(hc, Cs(mt('TC', mid, j) - 1), rv(1))
            return NE(mid), lambda j: mt('TR', mid, j), lambda j: mt('TC', mid, j), val
        return prep

    def transpose(v):
        cls = 'Ipopt::TransposeMatrix'
        sp = owner(v, cls, 'space', cls + 'Space')
        v.set(v.st, v.m, 'orig_matrix_', abmat(v, 'orig'))
        mid = ('orig', [])
        v.assume(NE(mid) >= 0)
        return NE(mid), lambda j: mt('TC', mid, j), lambda j: mt('TR', mid, j), lambda j: mt('TV', mid, j)

    def zero(v):
        return iv(0), lambda j: iv(0), lambda j: iv(0), lambda j: rv(0)

    def generic(kind, cls, prep, case=''):
        nm = cls.split('::')[1]

        def base(v):
            v.m = v.obj(cls, 'm')
            v.spec = prep(v)

        def s_n(v):
            base(v)
            return [v.m]

        def p_n(v, k, st, val):
            if normal(v, k, st):
                v.ensure(st, val == v.spec[0], 'number of entries')
                v.frame(st, set())

        def s_rc(v):
            base(v)
            v.o, v.p, v.tot = v.int('row_offset'), v.int('col_offset'), v.int('room')
            v.assume(v.tot >= v.spec[0])
            return [v.spec[0], v.m, v.arr('iRow', v.tot, S=4, ty='i32'), v.arr('jCol', v.tot, S=4, ty='i32'), v.o, v.p]

        def spec(v, f, old, j, shift):
            if kind == 'S':
                return f(old, j, 0 if shift is None else shift)
            x = f(j)
            return z3.If(z3.And(j >= 0, j < v.spec[0]), x if shift is None else x + shift, old)

        def p_rc(v, k, st, val):
            if not normal(v, k, st):
                return
            j = v.skolem('j')
            for nme, f, sh in (('iRow', v.spec[1], v.o), ('jCol', v.spec[2], v.p)):
                v.ensure(st, v.body(st, Ptr(nme), 'i32')(j) == spec(v, f, v.body(v.pre, Ptr(nme), 'i32')(j), j, sh), 'position of triplet j (%s)' % nme)
            v.frame(st, {('iRow', ('f', 0)), ('jCol', ('f', 0))})

        def s_v(v):
            base(v)
            v.tot = v.int('room')
            v.assume(v.tot >= v.spec[0])
            return [v.spec[0], v.m, v.arr('values', v.tot)]

        def p_v(v, k, st, val):
            if not normal(v, k, st):
                return
            j = v.skolem('j')
            v.ensure(st, v.body(st, Ptr('values'))(j) == spec(v, v.spec[3], v.body(v.pre, Ptr('values'))(j), j, None), 'value of triplet j')
            v.frame(st, {('values', ('f', 0))})
        for fn, s, p in (('GetNumberEntries', s_n, p_n), ('FillRowCol', s_rc, p_rc), ('FillValues', s_v, p_v)):
            out.append(Job('TripletHelper::%s[%s%s]' % (fn, nm, case), TH + '::' + fn, s, p))

    generic('t', 'Ipopt::GenTMatrix', tmat('Ipopt::GenTMatrix', False))
    generic('t', 'Ipopt::SymTMatrix', tmat('Ipopt::SymTMatrix', True))
    generic('d', 'Ipopt::DiagMatrix', diag)
    generic('i', 'Ipopt::IdentityMatrix', ident)
    generic('e', 'Ipopt::ExpansionMatrix', expmat)
    generic('s', 'Ipopt::ScaledMatrix', scaled('Ipopt::ScaledMatrix', 'row_scaling_', 'column_scaling_'))
    generic('s', 'Ipopt::SymScaledMatrix', scaled('Ipopt::SymScaledMatrix', 'scaling_', None))
    generic('tr', 'Ipopt::TransposeMatrix', transpose)
    generic('z', 'Ipopt::ZeroMatrix', zero)
    generic('z', 'Ipopt::ZeroSymMatrix', zero)

    # sums: the triplets of term i follow those of the terms before it, values times the factor
    def summ(cls):
        fct = z3.Function('factor', IntS, RealS)

        def prep(v):
            nt = v.int('nterms')
            v.assume(nt >= 0)
            sp = owner(v, cls, 'space', cls + 'Space')
            v.set(v.st, sp, 'nterms_', nt)
            abmat(v, 'term', nt)
            for fld in ('matrices_', 'factors_'):
                b = Block('m.' + fld, 'arr', S=8, n=nt, lazy=True)
                b.fields[0] = FamVal(Ptr('term', 0, ((1000, J),), FALSE)) if fld == 'matrices_' else fct(J)
                v.st.add(b)
                v.st.wb('m').cells[v.off(cls, fld)] = Ptr(b.id)
            ne = lambda i: NE(('term', [i]))
            q = z3.Int('$t')
            v.assume(z3.ForAll([q], ne(q) >= 0, patterns=[ne(q)]))
            off = lambda n: fold1(iv(0), lambda a, i: a + ne(i), n)
            def P(n):
                return z3.And(off(n) >= 0, z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < n), z3.And(off(q) >= 0, off(q) + ne(q) <= off(n))), patterns=[off(q)]))
            v.induct(v.st, P, nt, 'the triplets of the terms follow each other')
            seg = lambda f: lambda old, j, sh: fold1(old, lambda a, i: z3.If(z3.And(j >= off(i), j < off(i) + ne(i)), f(i, j - off(i)) + sh, a), nt)
            tm = lambda k: lambda i, q: mt(k, ('term', [i]), q)
            return off(nt), seg(tm('TR')), seg(tm('TC')), seg(lambda i, q: fct(i) * mt('TV', ('term', [i]), q))
        return prep
    for c in ('Ipopt::SumMatrix', 'Ipopt::SumSymMatrix'):
        generic('S', c, summ(c))

    # compound matrices: the blocks follow each other row by row, positions shifted by the dimensions of the blocks before
    def vec(v, sp, scls, field, n):
        f = z3.Function(field, IntS, IntS)
        v.arr(field, n, S=4, ty='i32', body=f(J))
        v.st.wb(sp.b).cells[v.off(scls, field)] = Ptr(field)
        return f

    def compound(cls):
        sym = cls == SM.CS

        def prep(v):
            scls = cls + 'Space'
            sp = owner(v, cls, 'space', scls)
            R = v.int('block_rows')
            C = R if sym else v.int('block_cols')
            v.assume(z3.And(R >= 0, C >= 0))
            if sym:
                v.set(v.st, sp, 'ncomp_spaces_', R)
                br = bc = vec(v, sp, scls, 'block_dim_', R)
            else:
                v.set(v.st, sp, 'ncomps_rows_', R)
                v.set(v.st, sp, 'ncomps_cols_', C)
                v.set(v.st, sp, 'diagonal_', v.bool('diagonal'))
                br, bc = vec(v, sp, scls, 'block_rows_', R), vec(v, sp, scls, 'block_cols_', C)
            fam = abmat(v, 'block', R, C)
            f = z3.Function('present', IntS, IntS, BoolS)
            pres = (lambda i, j: z3.And(j <= i, f(i, j))) if sym else f
            b = v.st.wb('m')
            b.ghost['blocks'], b.ghost['present'] = fam, pres
            q, u = z3.Int('$t'), z3.Int('$u')
            ne = lambda i, j: NE(('block', [i, j]))
            nin = (lambda i: i + 1) if sym else (lambda i: C)
            # number of triplets in the first n blocks of row i, and in the first n rows
            add = lambda i: lambda a, j: z3.If((lambda i, j: f(i, j) if sym else pres(i, j))(i, j), a + ne(i, j), a)
            rs = lambda i, n: fold1(iv(0), add(i), n)
            base = lambda n: fold1(iv(0), lambda a, i: a + rs(i, nin(i)), n)
            pos = lambda i, j: base(i) + rs(i, j)
            # the same, counted through
            inn = lambda b0, i, n: fold1(b0, add(i), n)
            base2 = lambda n: fold1(iv(0), lambda a, i: inn(a, i, nin(i)), n)
            ro, co = (lambda s, n: fold1(s, lambda a, i: a + br(i), n)), (lambda s, n: fold1(s, lambda a, i: a + bc(i), n))

            def seg(fn):
                def g(old, j, sh):
                    return fold1(old, lambda a, i: fold1(a, lambda a2, c: z3.If(z3.And(pres(i, c), j >= pos(i, c), j < pos(i, c) + ne(i, c)), fn(i, c, j - pos(i, c), sh), a2), nin(i)), R)
                return g
            # the segments lie one after the other
            a0, i0, c0 = v.skolem('b'), v.skolem('i'), v.skolem('c')
            ga, gi, gc = z3.Ints('$ga $gi $gc')
            P = lambda n: z3.And(rs(i0, n) >= 0, z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < n, pres(i0, q)), z3.And(rs(i0, q) >= 0, rs(i0, q) + ne(i0, q) <= rs(i0, n))), patterns=[rs(i0, q)]))
            s2 = v.st.fork()
            s2.assume(z3.ForAll([u, q], ne(u, q) >= 0, patterns=[ne(u, q)]))
            s3 = s2.fork()
            v.induct(s3, P, c0, 'blocks of a row follow each other')
            # holds for every row i0 and number c0
            s2.assume(z3.ForAll([gi, gc], z3.substitute(z3.Implies(c0 >= 0, P(c0)), (i0, gi), (c0, gc)), patterns=[rs(gi, gc)]))
            Q = lambda n: z3.And(base(n) >= 0, z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < n), z3.And(base(q) >= 0, base(q) <= base(n), base(q) + rs(q, nin(q)) <= base(n))), patterns=[base(q)]))
            v.induct(s2, Q, R, 'rows of blocks follow each other')

            def inst(ids):
                i, c = ids
                return z3.Implies(z3.And(i >= 0, i < R, c >= 0, c < nin(i), pres(i, c)), z3.And(base(i) >= 0, rs(i, c) >= 0, rs(i, c) + ne(i, c) <= rs(i, nin(i)), base(i) + rs(i, nin(i)) <= base(R)))
            si, sc = v.skolem('i'), v.skolem('c')
            v.ensure(s2, inst([si, sc]), 'every block lies within its row and within the whole')
            v.inst = inst
            s4 = v.st.fork()
            v.induct(s4, lambda n: inn(a0, i0, n) == a0 + rs(i0, n), c0, 'entries of a row')
            s5 = v.st.fork()
            s5.assume(z3.ForAll([ga, gi, gc], z3.Implies(gc >= 0, inn(ga, gi, gc) == ga + rs(gi, gc)), patterns=[inn(ga, gi, gc)]))
            v.induct(s5, lambda n: base2(n) == base(n), R, 'entries of all rows')
            v.assume(base2(R) == base(R))
            tm = lambda k: lambda i, c, q, sh: mt(k, ('block', [i, c]), q)
            v.count = base2(R)
            return (base(R), seg(lambda i, c, q, sh: mt('TR', ('block', [i, c]), q) + ro(sh, i)), seg(lambda i, c, q, sh: mt('TC', ('block', [i, c]), q) + co(sh, c)), seg(tm('TV')))
        return prep
    generic('S', SM.CM, compound(SM.CM))
    generic('S', SM.CS, compound(SM.CS))

    # rows given by vectors, possibly expanded to more columns
    def emv(withP):
        cls = 'Ipopt::ExpandedMultiVectorMatrix'

        def prep(v):
            scls = cls + 'Space'
            sp = owner(v, cls, 'space', scls)
            dims(v, sp, scls)
            N, C = v.nr, v.nc
            n = C
            E = lambda j: j
            if withP:
                P = v.obj('Ipopt::ExpansionMatrix', 'P')
                n, e, c, x = expmat(v, 'P')
                v.nr, v.nc = N, C
                E = lambda j: e(j) - 1
                v.set(v.st, sp, 'exp_matrix_', P)
            else:
                v.set(v.st, sp, 'exp_matrix_', NULL)
            vs = v.obj('Ipopt::VectorSpace', 'vspace')
            v.set(v.st, vs, 'dim_', n)
            v.set(v.st, sp, 'vec_space_', vs)
            rows = abvec(v, 'rows', N, dim=n)
            nul = z3.Function('row_missing', IntS, BoolS)
            b = Block('m.vecs', 'arr', S=8, n=N, lazy=True)
            b.fields[0] = FamVal(Ptr(rows.b, 0, ((1000, J),), nul(J)))
            v.st.add(b)
            v.st.wb('m').cells[v.off(cls, 'vecs_')] = Ptr('m.vecs')
            X = z3.Function('rows.val', IntS, IntS, RealS)

            def inst(i):
                # 0 <= i < N and n >= 0 put row i within the whole
                return z3.Implies(z3.And(i >= 0, i < N, n >= 0), z3.And(i * n >= 0, i * n + n <= N * n))
            si = v.skolem('i')
            a, b2 = v.skolem('n'), v.skolem('m')
            v.ensure(v.st.fork(), z3.Implies(z3.And(si >= 0, si < b2, a >= 0), z3.And(si * a >= 0, (b2 - 1 - si) * a >= 0)), 'rows lie within the whole')
            v.inst = lambda ids: inst(ids[0])
            q = z3.Int('$t')
            v.assume(z3.ForAll([q], inst(q), patterns=[q * n]))
            seg = lambda fn: lambda old, j, sh: fold1(old, lambda a, i: z3.If(z3.And(j >= i * n, j < i * n + n), fn(i, j - i * n) + sh, a), N)
            return N * n, seg(lambda i, k: i + 1), seg(lambda i, k: E(k) + 1), seg(lambda i, k: z3.If(nul(i), rv(0), X(i, k)))
        return prep
    generic('S', 'Ipopt::ExpandedMultiVectorMatrix', emv(False), ', plain')
    generic('S', 'Ipopt::ExpandedMultiVectorMatrix', emv(True), ', expanded')

    # vectors
    def s_fvd(v):
        n = v.n = v.int('n')
        v.assume(n >= 0)
        v.x = DV.mkvec(v, 'x', n, DV.mkspace(v, 'space', n))
        v.st.wb('x').ghost['dim'] = n
        v.st.wb('x').tag = None
        v.tot = v.int('room')
        v.assume(v.tot >= n)
        v.a = v.arr('values', v.tot)
        return [n, v.x, v.a]

    def p_fvd(v, k, st, val):
        if not normal(v, k, st):
            return
        j = v.skolem('j')
        v.ensure(st, v.body(st, v.a)(j) == z3.If(z3.And(j >= 0, j < v.n), DV.view(v, v.pre, v.x)(j), v.body(v.pre, v.a)(j)), 'entry j of the vector')
        v.frame(st, {('values', ('f', 0))})
    out.append(Job('TripletHelper::FillValuesFromVector[DenseVector]', TH + '::FillValuesFromVector', s_fvd, p_fvd))

    def s_pvd(v):
        a = s_fvd(v)
        return [v.n, v.a, v.x]

    def p_pvd(v, k, st, val):
        if not normal(v, k, st):
            return
        j = v.skolem('j')
        st.assume(z3.And(j >= 0, j < v.n))
        v.ensure(st, DV.view(v, st, v.x)(j) == v.body(v.pre, v.a)(j), 'entry j becomes the value')
        v.ensure(st, DV.wf(v, st, v.x, v.n), 'the vector is well-formed')
        v.ensure(st, v.body(st, v.a)(j) == v.body(v.pre, v.a)(j), 'the values stay')
    out.append(Job('TripletHelper::PutValuesInVector[DenseVector]', TH + '::PutValuesInVector', s_pvd, p_pvd))

    def cvec(v):
        nc = v.int('ncomps')
        v.assume(nc >= 0)
        v.x, v.fam = CVE.compvec(v, 'x', nc, CVE.space(v, nc), v.const)
        d = z3.Function('dim_of_comp', IntS, IntS)
        v.st.wb(v.fam.b).ghost['dim'] = d(I_)
        off = lambda n: fold1(iv(0), lambda a, i: a + d(i), n)
        q = z3.Int('$t')
        v.assume(z3.ForAll([q], d(q) >= 0, patterns=[d(q)]))
        P = lambda n: z3.And(off(n) >= 0, z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < n), z3.And(off(q) >= 0, off(q) + d(q) <= off(n))), patterns=[off(q)]))
        v.induct(v.st, P, nc, 'the components follow each other')
        v.n, v.nc, v.d, v.offs = off(nc), nc, d, off
        v.tot = v.int('room')
        v.assume(v.tot >= v.n)
        v.a = v.arr('values', v.tot)
        X = z3.Function(v.fam.b + '.val', IntS, IntS, RealS)
        v.X = X
        return X, off, d

    def s_fvc(v):
        v.const = True
        cvec(v)
        return [v.n, v.x, v.a]

    def p_fvc(v, k, st, val):
        if not normal(v, k, st):
            return
        j = v.skolem('j')
        X, off, d = v.X, v.offs, v.d
        v.ensure(st, v.body(st, v.a)(j) == fold1(v.body(v.pre, v.a)(j), lambda a, i: z3.If(z3.And(j >= off(i), j < off(i) + d(i)), X(i, j - off(i)), a), v.nc), 'the entries of the components, one after the other')
        v.frame(st, {('values', ('f', 0))})
    out.append(Job('TripletHelper::FillValuesFromVector[CompoundVector]', TH + '::FillValuesFromVector', s_fvc, p_fvc, models=VECM))

    def s_pvc(v):
        v.const = False
        cvec(v)
        return [v.n, v.a, v.x]

    def p_pvc(v, k, st, val):
        if not normal(v, k, st):
            return
        i, j = v.skolem('i'), v.skolem('j')
        st.assume(z3.And(i >= 0, i < v.nc, j >= 0, j < v.d(i)))
        v.ensure(st, vspec(st, member(v.fam, i))(j) == v.body(v.pre, v.a)(v.offs(i) + j), 'entry j of component i becomes the value at its position')
    out.append(Job('TripletHelper::PutValuesInVector[CompoundVector]', TH + '::PutValuesInVector', s_pvc, p_pvc, models=VECM))
    return out
