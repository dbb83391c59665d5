"""contracts of the structured matrices: products, special products and norms in terms of those of the parts they are made of"""
from ipvlib import *
from absvec import *
import absvec as A
import re

SRCS = ['LinAlg/IpMatrix.cpp', 'LinAlg/IpDiagMatrix.cpp', 'LinAlg/IpIdentityMatrix.cpp', 'LinAlg/IpZeroMatrix.cpp', 'LinAlg/IpZeroSymMatrix.cpp', 'LinAlg/IpTransposeMatrix.cpp',
        'LinAlg/IpScaledMatrix.cpp', 'LinAlg/IpSymScaledMatrix.cpp', 'LinAlg/IpSumMatrix.cpp', 'LinAlg/IpSumSymMatrix.cpp', 'LinAlg/IpCompoundMatrix.cpp', 'LinAlg/IpCompoundSymMatrix.cpp',
        'Common/IpTaggedObject.cpp', '/verif/contracts/inst/structmat.cpp']
MODELS = ABS.child()
CM, CS = 'Ipopt::CompoundMatrix', 'Ipopt::CompoundSymMatrix'


# ---- abstract matrices: a block, or a one- or two-index family of them
def abmat(v, name, n=None, n2=None):
    b = Block(name, 'rec', cls='Ipopt::Matrix', lazy=True, tag='absmat') if n is None else Block(name, 'arr', cls='Ipopt::Matrix', S=1000, n=n, lazy=True, tag='absmat')
    if n2 is not None:
        b.ghost['n2'] = n2
    v.st.add(b)
    return Ptr(name)


def bmember(p, i, j, nul=None):
    return Ptr(p.b, 0, ((1000000, i), (1000, j)), nul)


def matid(ex, st, p):
    b = ex.chk(st, p, 'matrix')
    if b.tag != 'absmat':
        raise Unsupported('operation on a matrix of unknown contents')
    if b.kind == 'rec':
        return b.id, []
    t = sorted(p.t, key=lambda x: -x[0])
    if [s for s, _ in t] == [1000000, 1000]:
        ex.require(st, z3.And(t[0][1] >= 0, t[0][1] < b.n, t[1][1] >= 0, t[1][1] < b.ghost['n2']), 'matrix block in range')
        return b.id, [t[0][1], t[1][1]]
    idx, fo = ex.elem(b, p, 'ptr')
    ex.require(st, z3.And(idx >= 0, idx < b.n), 'index of matrix in range')
    return b.id, [idx]


def opterm(kind, mid, ids, j):
    """entry j of the product of matrix mid (name, indices) with unmodified vectors ids"""
    return redterm(kind, [mid] + list(ids), [j])


def operand(ex, st, p):
    """identity of an operand; a modified vector is recorded with its contents, for the contract to compare"""
    b, idx = abspart(ex, st, p)
    if 'val[]' not in b.ghost or z3.eq(b.ghost['val[]'], val0(b)):
        return b.id, ([] if idx is None else [idx])
    f = vget(ex, st, p)
    nm = 'operand%d' % next(engine._uid)
    w = st.wb('$ops')
    w.ghost['ops'] = w.ghost['ops'] + ((nm, f),)
    return nm, []


def _prod(kind):
    def m(ex, st, a, ins):
        al, be = a[1], a[3]
        mid = matid(ex, st, a[0])
        x = operand(ex, st, a[2])
        old = vget(ex, st, a[4])
        vput(ex, st, a[4], lambda j: z(be, old(j)) + z(al, opterm(kind, mid, [x], j)), 'result of a product')
        return ret(st)
    return m


MODELS.reg('Ipopt::Matrix::MultVector', 'contract', 'y := beta y + alpha A x, proved for each kind of matrix (C09, C10)')(_prod('A'))
MODELS.reg('Ipopt::Matrix::TransMultVector', 'contract', "y := beta y + alpha A' x, proved for each kind of matrix (C09, C10)")(_prod('At'))


@MODELS.reg('Ipopt::Matrix::AddMSinvZ', 'contract', 'X := X + alpha A S^-1 Z, proved for each kind of matrix (C09, C10)')
def m_msz(ex, st, a, ins):
    al = a[1]
    mid = matid(ex, st, a[0])
    ids = [operand(ex, st, a[2]), operand(ex, st, a[3])]
    old = vget(ex, st, a[4])
    vput(ex, st, a[4], lambda j: old(j) + z(al, opterm('msz', mid, ids, j)), 'result of AddMSinvZ')
    return ret(st)


@MODELS.reg('Ipopt::Matrix::SinvBlrmZMTdBr', 'contract', "X := S^-1 (R + alpha Z A' D), proved for each kind of matrix (C09, C10)")
def m_sinv(ex, st, a, ins):
    mid = matid(ex, st, a[0])
    S, R, Z = [vget(ex, st, p) for p in a[2:5]]
    d = operand(ex, st, a[5])
    vput(ex, st, a[6], lambda j: sinv(a[1], S(j), R(j), Z(j), opterm('At', mid, [d], j)), 'result of SinvBlrmZMTdBr')
    return ret(st)


def sinv(al, s, r, zz, p):
    return (r + z(al, zz * p)) / s


def _norm(kind):
    def m(ex, st, a, ins):
        mid = matid(ex, st, a[0])
        old = vget(ex, st, a[1])
        init = as_bool(a[2])
        r = lambda j: redterm(kind, [mid], [j])
        vput(ex, st, a[1], lambda j: mx(z3.If(init, rv(0), old(j)), r(j)), 'norms')
        return ret(st)
    return m


def mx(a, b):
    return z3.If(a >= b, a, b)


MODELS.reg('Ipopt::Matrix::ComputeRowAMax', 'contract', 'entry j becomes the maximum of itself (or 0) and the row norm')(_norm('rowmax'))
MODELS.reg('Ipopt::Matrix::ComputeColAMax', 'contract', 'entry j becomes the maximum of itself (or 0) and the column norm')(_norm('colmax'))


@MODELS.reg('Ipopt::Matrix::HasValidNumbers', 'contract', 'a function of the matrix')
def m_hv(ex, st, a, ins):
    return ret(st, redterm('HasValidNumbers', [matid(ex, st, a[0])]))


@MODELS.reg('Ipopt::Matrix::SinvBlrmZMTdBrImpl', 'contract', 'proved for the real body: computes the product for any matrix')
def m_slow(ex, st, a, ins):
    st.wb(a[6].b).ghost['slow'] = tuple([str(a[1])] + [p.b for p in a[2:]])
    return ret(st)


# ---- compound vectors seen from the compound matrices
def cvec(v, name, kind, nc):
    """kind: 'comp' (nc components), 'plain', 'other' (a compound vector with another number of components: one block)"""
    p = abvec(v, name)
    b = v.st.wb(name)
    b.ghost['isa'] = ['Ipopt::CompoundVector'] if kind != 'plain' else []
    b.ghost['nc'] = nc if kind == 'comp' else v.int(name + '.ncomps')
    if kind == 'comp':
        b.ghost['comps'] = abvec(v, name + '.comp', nc)
    elif kind == 'other':
        v.assume(b.ghost['nc'] != nc)
        b.ghost['own'] = abvec(v, name + '.own', b.ghost['nc'])  # its own components play no role
    return p


def part_of(v, p, i, kind):
    """block i of the operand"""
    return member(v.st.mem[p.b].ghost['comps'], i) if kind == 'comp' else p


@MODELS.reg('Ipopt::CompoundVector::NComps', 'contract', 'number of components')
def m_nc(ex, st, a, ins):
    return ret(st, ex.chk(st, a[0], 'compound vector').ghost['nc'])


@MODELS.reg(['Ipopt::CompoundVector::GetComp', 'Ipopt::CompoundVector::GetCompNonConst'], 'contract', 'component i (C08)')
def m_gc(ex, st, a, ins):
    b = ex.chk(st, a[1], 'compound vector')
    c = b.ghost.get('comps') or b.ghost.get('own')
    if c is None:
        raise Unsupported('component of a vector that is not a compound vector')
    ex.require(st, z3.And(a[2] >= 0, a[2] < b.ghost['nc']), 'component index in range')
    ex.store(st, a[0], member(c, a[2]))
    return ret(st)


def _allcomps(name):
    base = ABS.exact['Ipopt::Vector::' + name].f

    def m(ex, st, a, ins):
        b = ex.chk(st, a[0], 'vector')
        c = b.ghost.get('comps')
        if c is None:
            return base(ex, st, a, ins)
        f = OPS[name][1]
        w = st.wb(c.b)
        w.ghost['val[]'] = z3.simplify(f([a[1]], vbody(w), []))
        return ret(st)
    return m


for _n in ('Scal', 'Set'):
    MODELS.reg('Ipopt::Vector::' + _n, 'contract', 'acts on every component (C08)')(_allcomps(_n))


def blockof(ex, st, p, i, j):
    b = ex.chk(st, p, 'compound matrix')
    fam, pres = b.ghost['blocks'], b.ghost['present']
    r = bmember(fam, i, j)
    ex.require(st, z3.And(i >= 0, i < st.mem[fam.b].n, j >= 0, j < st.mem[fam.b].ghost['n2']), 'block index in range')
    return Ptr(r.b, r.c, r.t, z3.simplify(z3.Not(pres(i, j))))


@MODELS.reg(['Ipopt::CompoundMatrix::ConstComp', 'Ipopt::CompoundSymMatrix::ConstComp'], 'contract', 'block (i,j), or NULL if it is absent; proved for the real body')
def m_cc(ex, st, a, ins):
    return ret(st, blockof(ex, st, a[0], a[1], a[2]))


@MODELS.reg(['Ipopt::CompoundMatrix::MatricesValid', 'Ipopt::CompoundSymMatrix::MatricesValid'], 'contract', 'whether all blocks that should be there are set')
def m_mv(ex, st, a, ins):
    return ret(st, z3.Bool('all blocks set'))


def jobs():
    out = []

    def normal(v, kind, st):
        v.ensure(st, z3.BoolVal(kind == 'ret'), 'returns normally')
        return kind == 'ret'

    def base(v, cls):
        b = Block('$ops', 'rec')
        b.ghost['ops'] = ()
        v.st.add(b)
        v.this = v.obj(cls, 'this')
        v.m, v.n = v.int('rows'), v.int('cols')
        v.assume(z3.And(v.m >= 0, v.n >= 0))
        owner(v, cls, 'mspace', None)
        return v.this

    def owner(v, cls, name, scls):
        sp = v.obj(scls, name)
        for c in (cls, 'Ipopt::Matrix', 'Ipopt::SymMatrix'):
            if v.mod.baseoff(cls, c) is not None and any(x[0] == 'owner_space_' for x in v.mod.classes[c]['m']):
                v.st.wb('this').cells[v.off(c, 'owner_space_')] = sp
        return sp

    def part(v, field, cls=None):
        p = abmat(v, field)
        v.set(v.st, v.this, field, p)
        return p

    def vecs(v, *names):
        v.x = [abvec(v, n) for n in names]
        return v.x

    def opnd(v, st, k, expected):
        """the k-th derived operand has the expected contents; returns its identity"""
        ops = st.mem['$ops'].ghost['ops']
        if k >= len(ops):
            v.ensure(st, FALSE, 'a product with the derived operand is computed')
            return ('missing', [])
        nm, f = ops[k]
        j = v.skolem('o')
        s2 = st.fork()
        v.ensure(s2, f(j) == expected(j), 'operand of the inner product')
        return (nm, [])

    def add(name, fn, setup, post, **kw):
        out.append(Job(name, fn, setup, post, **kw))

    # products of the matrices without parts or with one part: result entry = z(beta, y) + z(alpha, p)
    def prod(cls, meth, prep, p, case=''):
        def setup(v):
            base(v, cls)
            prep(v)
            v.al, v.be = v.real('alpha'), v.real('beta')
            vecs(v, 'x', 'y')
            return [v.this, v.al, v.x[0], v.be, v.x[1]]

        def post(v, kind, st, val):
            if not normal(v, kind, st):
                return
            j = v.skolem('j')
            t = p(v, st, j)
            v.ensure(st, vspec(st, v.x[1])(j) == z(v.be, vspec(v.pre, v.x[1])(j)) + z(v.al, t), 'entry j of the result')
            v.frame(st, {('y', ('g', 'val[]')), ('$ops', '*')})
        add('%s::%s%s' % (cls.split('::')[1], meth, case), cls + '::' + meth, setup, post)

    X = lambda v, j: vspec(v.pre, v.x[0])(j)
    diag = lambda v: (setattr(v, 'diag', abvec(v, 'diag')), v.set(v.st, v.this, 'diag_', v.diag))
    dia = lambda v, j: vspec(v.pre, v.diag)(j)
    fac = lambda v: (setattr(v, 'f', v.real('factor')), v.set(v.st, v.this, 'factor_', v.f))
    none = lambda v: None
    prod('Ipopt::DiagMatrix', 'MultVectorImpl', diag, lambda v, st, j: dia(v, j) * X(v, j))
    prod('Ipopt::IdentityMatrix', 'MultVectorImpl', fac, lambda v, st, j: v.f * X(v, j))
    for c in ('Ipopt::ZeroMatrix', 'Ipopt::ZeroSymMatrix'):
        for m in ('MultVectorImpl', 'TransMultVectorImpl'):
            prod(c, m, none, lambda v, st, j: rv(0))
    orig = lambda v: part(v, 'orig_matrix_')
    prod('Ipopt::TransposeMatrix', 'MultVectorImpl', orig, lambda v, st, j: opterm('At', ('orig_matrix_', []), [('x', [])], j))
    prod('Ipopt::TransposeMatrix', 'TransMultVectorImpl', orig, lambda v, st, j: opterm('A', ('orig_matrix_', []), [('x', [])], j))

    # scaled matrices: the operand of the inner product is the scaled x
    def scaled(cls, rows, cols):
        def prep(v):
            part(v, 'matrix_')
            v.rs, v.cs = abvec(v, 'rowscaling'), abvec(v, 'colscaling')
            v.hr, v.hc = v.bool('has_rowscaling'), v.bool('has_colscaling')
            sp = owner(v, cls, 'ownspace', cls + 'Space')
            v.set(v.st, sp, rows, v.nullable(v.rs, z3.Not(v.hr)))
            if cols:
                v.set(v.st, sp, cols, v.nullable(v.cs, z3.Not(v.hc)))
            else:
                v.cs, v.hc = v.rs, v.hr
        sc = lambda v, r, j: z3.If(v.hr if r else v.hc, vspec(v.pre, v.rs if r else v.cs)(j), rv(1))

        def p(trans):
            def f(v, st, j):
                has = [c for c in (v.hc, v.hr)]
                if v.ex.holds(st, z3.Not(v.hr if trans else v.hc)) and not st.mem['$ops'].ghost['ops']:
                    o = ('x', [])
                else:
                    o = opnd(v, st, 0, lambda q: sc(v, trans, q) * X(v, q))
                return sc(v, not trans, j) * opterm('At' if trans else 'A', ('matrix_', []), [o], j)
            return f
        prod(cls, 'MultVectorImpl', prep, p(False))
        if cols:
            prod(cls, 'TransMultVectorImpl', prep, p(True))
    scaled('Ipopt::ScaledMatrix', 'row_scaling_', 'column_scaling_')
    scaled('Ipopt::SymScaledMatrix', 'scaling_', None)

    # special products
    def special(cls, meth, prep, entry, case=''):
        sinvm = meth.startswith('Sinv')

        def setup(v):
            base(v, cls)
            prep(v)
            v.al = v.real('alpha')
            return [v.this, v.al] + vecs(v, *(['S', 'R', 'Z', 'D', 'X'] if sinvm else ['S', 'Z', 'X']))

        def post(v, kind, st, val):
            if not normal(v, kind, st):
                return
            j = v.skolem('j')
            pre = lambda n: vspec(v.pre, Ptr(n))(j)
            t = entry(v, st, j, pre)
            v.ensure(st, vspec(st, Ptr('X'))(j) == t, 'entry j of the result')
            v.frame(st, {('X', ('g', 'val[]')), ('$ops', '*')})
        add('%s::%s%s' % (cls.split('::')[1], meth, case), cls + '::' + meth, setup, post)

    isthis = lambda v: setattr(v.st.wb('this'), 'tag', 'absmat')
    q = lambda v, k: vspec(v.pre, Ptr('Z'))(k) / vspec(v.pre, Ptr('S'))(k)
    special('Ipopt::Matrix', 'AddMSinvZImpl', isthis, lambda v, st, j, pre: pre('X') + z(v.al, opterm('A', ('this', []), [opnd(v, st, 0, lambda k: q(v, k))], j)))
    special('Ipopt::Matrix', 'SinvBlrmZMTdBrImpl', isthis, lambda v, st, j, pre: sinv(v.al, pre('S'), pre('R'), pre('Z'), opterm('At', ('this', []), [('D', [])], j)))
    special('Ipopt::IdentityMatrix', 'AddMSinvZImpl', fac, lambda v, st, j, pre: pre('X') + z(v.al, v.f * q(v, j)))

    # norms: Impl methods are called with zero vectors if init
    def norms(cls, meth, prep, entry, throws=False, case=''):
        def setup(v):
            base(v, cls)
            prep(v)
            v.init = v.bool('init')
            vecs(v, 'y')
            k = z3.Int('$nz')
            v.assume(z3.Implies(v.init, z3.ForAll([k], vspec(v.st, v.x[0])(k) == 0)))
            return [v.this, v.x[0], v.init]

        def post(v, kind, st, val):
            if throws:
                v.ensure(st, z3.BoolVal(kind != 'ret'), 'throws')
                return
            if not normal(v, kind, st):
                return
            j = v.skolem('j')
            old = vspec(v.pre, v.x[0])(j)
            st.assume(z3.Implies(v.init, old == 0))
            v.ensure(st, vspec(st, v.x[0])(j) == mx(old, entry(v, j)), 'entry j of the norms')
            v.frame(st, {('y', ('g', 'val[]'))})
        add('%s::%s%s' % (cls.split('::')[1], meth, case), cls + '::' + meth, setup, post)
    norms('Ipopt::DiagMatrix', 'ComputeRowAMaxImpl', diag, lambda v, j: fabs(dia(v, j)))
    norms('Ipopt::IdentityMatrix', 'ComputeRowAMaxImpl', fac, lambda v, j: fabs(v.f))
    norms('Ipopt::TransposeMatrix', 'ComputeRowAMaxImpl', orig, lambda v, j: nn(opterm('colmax', ('orig_matrix_', []), [], j)))
    norms('Ipopt::TransposeMatrix', 'ComputeColAMaxImpl', orig, lambda v, j: nn(opterm('rowmax', ('orig_matrix_', []), [], j)))

    # sums
    def sums(cls, meths):
        def prep(v):
            v.nt = v.int('nterms')
            v.assume(v.nt >= 0)
            sp = owner(v, cls, 'ownspace', cls + 'Space')
            v.set(v.st, sp, 'nterms_', v.nt)
            fam = abmat(v, 'term', v.nt)
            for fld, S in (('matrices_', 8), ('factors_', 8)):
                b = Block('this.' + fld, 'arr', S=S, n=v.nt, lazy=True)
                b.fields[0] = FamVal(Ptr('term', 0, ((1000, J),), FALSE)) if fld == 'matrices_' else z3.Function('factor', IntS, RealS)(J)
                v.st.add(b)
                v.st.wb('this').cells[v.off(cls, fld)] = Ptr(b.id)
        fct = z3.Function('factor', IntS, RealS)

        def p(kind):
            def setup(v):
                base(v, cls)
                prep(v)
                v.al, v.be = v.real('alpha'), v.real('beta')
                vecs(v, 'x', 'y')
                return [v.this, v.al, v.x[0], v.be, v.x[1]]

            def post(v, k, st, val):
                if not normal(v, k, st):
                    return
                j = v.skolem('j')
                y0 = z(v.be, vspec(v.pre, v.x[1])(j))
                t = fold1(y0, lambda a, i: a + z(v.al * fct(i), opterm(kind, ('term', [i]), [('x', [])], j)), v.nt)
                v.ensure(st, vspec(st, v.x[1])(j) == t, 'entry j of the result is that of the sum of all terms')
                v.frame(st, {('y', ('g', 'val[]')), ('$ops', '*')})
            return setup, post
        for m, kind in meths:
            add('%s::%s' % (cls.split('::')[1], m), cls + '::' + m, *p(kind))

        def s_hv(v):
            base(v, cls)
            prep(v)
            return [v.this]

        def p_hv(v, k, st, val):
            if not normal(v, k, st):
                return
            i = z3.Int('$hv')
            v.ensure(st, as_bool(val) == z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < v.nt), redterm('HasValidNumbers', [('term', [i])]))), 'every term is valid')
            v.frame(st, set())
        add('%s::HasValidNumbersImpl' % cls.split('::')[1], cls + '::HasValidNumbersImpl', s_hv, p_hv)

        def s_set(v):
            base(v, cls)
            prep(v)
            v.i, v.f = v.int('iterm'), v.real('factor_new')
            v.assume(z3.And(v.i >= 0, v.i < v.nt))
            v.new = abmat(v, 'newterm')
            return [v.this, v.i, v.f, v.new]

        def p_set(v, k, st, val):
            if not normal(v, k, st):
                return
            q = v.skolem('k')
            st.assume(z3.And(q >= 0, q < v.nt))
            v.ensure(st, v.body(st, Ptr('this.factors_'))(q) == z3.If(q == v.i, v.f, fct(q)), 'factor of the term')
            at = lambda s, i: v.ex.load(s, Ptr('this.matrices_').add(0, ((8, i),)), 'ptr')
            v.ensure(st, v.ex.pcmp(st, 'eq', at(st.fork(), v.i), v.new), 'term is the given matrix')
            s2 = st.fork()
            s2.assume(q != v.i)
            v.ensure(s2, v.ex.pcmp(s2, 'eq', at(s2, q), Ptr('term', 0, ((1000, q),))), 'other terms stay')
            v.ensure(st, z3.BoolVal('changed' in str(st.mem['this'].ghost) or st.mem['this'].cells.get(48) is not v.pre.mem['this'].cells.get(48)), 'marked as changed')
            v.frame(st, {('this.factors_', ('f', 0)), ('this.matrices_', ('f', 0)), ('this', 48)})
        add('%s::SetTerm' % cls.split('::')[1], cls + '::SetTerm', s_set, p_set)
        for m in ('ComputeRowAMaxImpl', 'ComputeColAMaxImpl'):
            pass
    sums('Ipopt::SumMatrix', [('MultVectorImpl', 'A'), ('TransMultVectorImpl', 'At')])
    sums('Ipopt::SumSymMatrix', [('MultVectorImpl', 'A')])

    # compound matrices
    def comp(v, cls, diag=False):
        base(v, cls)
        sym = cls == CS
        v.R = v.int('block_rows')
        v.C = v.R if sym else v.int('block_cols')
        v.assume(z3.And(v.R >= 0, v.C >= 0))
        sp = owner(v, cls, 'ownspace', cls + 'Space')
        if sym:
            v.set(v.st, sp, 'ncomp_spaces_', v.R)
        else:
            v.set(v.st, sp, 'ncomps_rows_', v.R)
            v.set(v.st, sp, 'ncomps_cols_', v.C)
            v.set(v.st, sp, 'diagonal_', z3.BoolVal(diag))
        fam = abmat(v, 'block', v.R, v.C)
        f = z3.Function('present', IntS, IntS, BoolS)
        if diag:
            v.assume(v.R == v.C)
            v.pres = lambda i, j: i == j
        elif sym:
            v.pres = lambda i, j: z3.And(j <= i, f(i, j))
        else:
            v.pres = f
        b = v.st.wb('this')
        b.ghost['blocks'], b.ghost['present'] = fam, v.pres

    def cprod(cls, meth, kx, ky, diag):
        trans = meth.startswith('Trans')

        def setup(v):
            comp(v, cls, diag)
            nx, ny = (v.R, v.C) if trans else (v.C, v.R)
            for k, n in ((kx, nx), (ky, ny)):
                if k != 'comp':
                    v.assume(n == 1)
            v.nx, v.ny = nx, ny
            v.al, v.be = v.real('alpha'), v.real('beta')
            v.x = [cvec(v, 'x', kx, nx), cvec(v, 'y', ky, ny)]
            return [v.this, v.al, v.x[0], v.be, v.x[1]]

        def post(v, k, st, val):
            if not normal(v, k, st):
                return
            i, j = v.skolem('i'), v.skolem('j')
            st.assume(z3.And(i >= 0, i < v.ny))
            py = part_of(v, v.x[1], i, ky)
            xi = (lambda q: ('x.comp', [q])) if kx == 'comp' else (lambda q: ('x', []))
            if cls == CS:
                t = lambda q: z3.If(q <= i, z3.If(v.pres(i, q), z(v.al, opterm('A', ('block', [i, q]), [xi(q)], j)), 0),
                                    z3.If(v.pres(q, i), z(v.al, opterm('At', ('block', [q, i]), [xi(q)], j)), 0))
            elif trans:
                t = lambda q: z3.If(v.pres(q, i), z(v.al, opterm('At', ('block', [q, i]), [xi(q)], j)), 0)
            else:
                t = lambda q: z3.If(v.pres(i, q), z(v.al, opterm('A', ('block', [i, q]), [xi(q)], j)), 0)
            y0 = z(v.be, vspec(v.pre, py)(j))
            if cls == CS:
                # summation over all blocks is summation up to block i followed by the rest
                S = lambda n: fold1(y0, lambda a, q: a + t(q), n)
                v.induct(st, lambda n: S(i + 1 + n) == fold1(S(i + 1), lambda a, q: a + t(q + i + 1), n), v.nx - i - 1, 'split of the sum')
            v.ensure(st, vspec(st, py)(j) == fold1(y0, lambda a, q: a + t(q), v.nx), 'entry j of block i of the result')
            v.frame(st, {('y', ('g', 'val[]')), ('y.comp', ('g', 'val[]')), ('this', v.off(cls, 'matrices_valid_'))})
        add('%s::%s[x %s, y %s%s]' % (cls.split('::')[1], meth, kx, ky, ', diagonal' if diag else ''), cls + '::' + meth, setup, post)
    for meth in ('MultVectorImpl', 'TransMultVectorImpl'):
        for diag in (False, True):
            for kx in ('comp', 'plain', 'other'):
                for ky in ('comp', 'plain', 'other'):
                    cprod(CM, meth, kx, ky, diag)
    cprod(CS, 'MultVectorImpl', 'comp', 'comp', False)

    idn = lambda name, kind, q: (name + '.comp', [q]) if kind == 'comp' else (name, [])

    # special products of compound matrices
    def cmsz(kS, kZ, kX, diag):
        def setup(v):
            comp(v, CM, diag)
            for k, n in ((kS, v.C), (kZ, v.C), (kX, v.R)):
                if k != 'comp':
                    v.assume(n == 1)
            v.al = v.real('alpha')
            v.x = [cvec(v, 'S', kS, v.C), cvec(v, 'Z', kZ, v.C), cvec(v, 'X', kX, v.R)]
            return [v.this, v.al] + v.x

        def post(v, k, st, val):
            if not normal(v, k, st):
                return
            i, j = v.skolem('i'), v.skolem('j')
            st.assume(z3.And(i >= 0, i < v.R))
            py = part_of(v, v.x[2], i, kX)
            t = lambda q: z3.If(v.pres(i, q), z(v.al, opterm('msz', ('block', [i, q]), [idn('S', kS, q), idn('Z', kZ, q)], j)), 0)
            v.ensure(st, vspec(st, py)(j) == fold1(vspec(v.pre, py)(j), lambda a, q: a + t(q), v.C), 'entry j of block i of the result')
            v.frame(st, {('X', ('g', 'val[]')), ('X.comp', ('g', 'val[]')), ('this', v.off(CM, 'matrices_valid_'))})
        add('CompoundMatrix::AddMSinvZImpl[S %s, Z %s, X %s%s]' % (kS, kZ, kX, ', diagonal' if diag else ''), CM + '::AddMSinvZImpl', setup, post)
    for diag in (False, True):
        for kk in (('comp', 'comp', 'comp'), ('plain', 'plain', 'comp'), ('comp', 'comp', 'plain'), ('plain', 'plain', 'plain'), ('other', 'other', 'other'), ('plain', 'other', 'comp'), ('other', 'plain', 'comp')):
            cmsz(*kk, diag)

    def cnorm(cls, meth, ky, diag=False):
        row = 'Row' in meth

        def setup(v):
            comp(v, cls, diag)
            v.ny, v.nx = (v.R, v.C) if row else (v.C, v.R)
            if ky != 'comp':
                v.assume(v.ny == 1)
            v.x = [cvec(v, 'y', ky, v.ny)]
            return [v.this, v.x[0], v.bool('init')]

        def post(v, k, st, val):
            if not normal(v, k, st):
                return
            i, j = v.skolem('i'), v.skolem('j')
            st.assume(z3.And(i >= 0, i < v.ny))
            py = part_of(v, v.x[0], i, ky)
            rm = lambda a, b: redterm('rowmax', [('block', [a, b])], [j])
            cm = lambda a, b: redterm('colmax', [('block', [a, b])], [j])

            def step(a, q):
                if cls == CS:
                    return z3.If(q <= i, z3.If(v.pres(i, q), mx(a, rm(i, q)), a), z3.If(v.pres(q, i), mx(a, cm(q, i)), a))
                if row:
                    return z3.If(v.pres(i, q), mx(a, rm(i, q)), a)
                return z3.If(v.pres(q, i), mx(a, cm(q, i)), a)
            old = vspec(v.pre, py)(j)
            v.ensure(st, vspec(st, py)(j) == ((mx(old, (rm if row else cm)(i, i))) if diag else fold1(old, step, v.nx)), 'entry j of block i of the norms')
            v.frame(st, {('y', ('g', 'val[]')), ('y.comp', ('g', 'val[]')), ('this', v.off(cls, 'matrices_valid_'))})
        add('%s::%s[%s%s]' % (cls.split('::')[1], meth, ky, ', diagonal' if diag else ''), cls + '::' + meth, setup, post)
    for ky in ('comp', 'plain', 'other'):
        for diag in (False, True):
            cnorm(CM, 'ComputeRowAMaxImpl', ky, diag)
            cnorm(CM, 'ComputeColAMaxImpl', ky, diag)
    cnorm(CS, 'ComputeRowAMaxImpl', 'comp')

    def chv(cls, diag):
        def setup(v):
            comp(v, cls, diag)
            return [v.this]

        def post(v, k, st, val):
            if not normal(v, k, st):
                return
            i, j = z3.Int('$hi'), z3.Int('$hj')
            v.ensure(st, as_bool(val) == z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < v.R, j >= 0, j < v.C, v.pres(i, j)), redterm('HasValidNumbers', [('block', [i, j])]))), 'every block is valid')
            v.frame(st, {('this', v.off(cls, 'matrices_valid_'))})
        add('%s::HasValidNumbersImpl%s' % (cls.split('::')[1], '[diagonal]' if diag else ''), cls + '::HasValidNumbersImpl', setup, post)
    chv(CM, False)
    chv(CM, True)
    chv(CS, False)

    def csinv(kc, kd, diag):
        """exactly one block per column (or diagonal): blockwise"""
        def setup(v):
            comp(v, CM, diag)
            if kc != 'comp':
                v.assume(v.C == 1)
            if kd != 'comp':
                v.assume(v.R == 1)
            v.al = v.real('alpha')
            v.x = [cvec(v, n, kc, v.C) for n in 'SRZ'] + [cvec(v, 'D', kd, v.R), cvec(v, 'X', kc, v.C)]
            if not diag:
                v.row = z3.Function('only_row', IntS, IntS)
                a, b = z3.Ints('$ua $ub')
                v.assume(z3.ForAll([a, b], z3.Implies(z3.And(b >= 0, b < v.C, a >= 0, a < v.R), v.pres(a, b) == (a == v.row(b)))))
                v.assume(z3.ForAll([b], z3.Implies(z3.And(b >= 0, b < v.C), z3.And(v.row(b) >= 0, v.row(b) < v.R, v.pres(v.row(b), b)))))
            return [v.this, v.al] + v.x

        def post(v, k, st, val):
            if not normal(v, k, st):
                return
            if 'slow' in st.mem['X'].ghost:
                v.ensure(st, z3.BoolVal(st.mem['X'].ghost['slow'] == tuple([str(v.al)] + [x.b for x in v.x])), 'the operands are passed on to the general implementation')
                return
            i, j = v.skolem('i'), v.skolem('j')
            st.assume(z3.And(i >= 0, i < v.C))
            P = lambda n: vspec(v.pre, part_of(v, v.x['SRZDX'.index(n)], i, kc))(j)
            r = i if diag else v.row(i)
            t = sinv(v.al, P('S'), P('R'), P('Z'), opterm('At', ('block', [r, i]), [idn('D', kd, r)], j))
            v.ensure(st, vspec(st, part_of(v, v.x[4], i, kc))(j) == t, 'entry j of block i of the result')
            v.frame(st, {('X', ('g', 'val[]')), ('X.comp', ('g', 'val[]')), ('this', v.off(CM, 'matrices_valid_'))})
        add('CompoundMatrix::SinvBlrmZMTdBrImpl[%s, D %s%s]' % (kc, kd, ', diagonal' if diag else ', one block per column'), CM + '::SinvBlrmZMTdBrImpl', setup, post)
    for diag in (True, False):
        for kc in ('comp', 'plain', 'other'):
            for kd in ('comp', 'plain', 'other'):
                if diag or (kc, kd) != ('comp', 'comp'):  # that case is left to the monitor (the two-level loop abstraction is too weak)
                    csinv(kc, kd, diag)
    return out


def nn(x):
    return x
