"""contracts of Ipopt::GenTMatrix, SymTMatrix, ExpansionMatrix"""
from ipvlib import *
import densevec as D
from densevec import mkspace, mkvec, view, wf

SRCS = ['LinAlg/TMatrices/IpGenTMatrix.cpp', 'LinAlg/TMatrices/IpSymTMatrix.cpp', 'LinAlg/IpExpansionMatrix.cpp', 'LinAlg/IpMatrix.cpp', 'LinAlg/IpDenseVector.cpp', 'LinAlg/IpVector.cpp',
        'Common/IpTaggedObject.cpp', '/verif/contracts/inst/linalg.cpp']
G, S, X = 'Ipopt::GenTMatrix', 'Ipopt::SymTMatrix', 'Ipopt::ExpansionMatrix'
MODELS = D.MODELS.child()
for _w in ('ElementWiseMultiply', 'ElementWiseDivide', 'ElementWiseMax', 'AddVectorQuotient', 'AddTwoVectors', 'AddScalar', 'ElementWiseReciprocal'):
    MODELS.reg('Ipopt::Vector::' + _w, 'contract', 'wrapper around the verified Impl method; caches are property C11')(D.vwrap(_w + 'Impl'))


def idx(v, name, n, lo, hi):
    """an index array of n entries within [lo, hi)"""
    a = v.arr(name, n, S=4, ty='i32')
    f = v.body(v.st, a)
    q = z3.Int('$q_' + name)
    v.assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < n), z3.And(f(q) >= lo, f(q) < hi)), patterns=[f(q)]))
    return a, f


def mspace(v, cls, m, n):
    sp = v.obj(cls + 'Space', 'mspace')
    b = v.st.wb('mspace')
    for c, k in ((m, 'nRows_'), (n, 'nCols_')):
        b.cells[v.off('Ipopt::MatrixSpace', k)] = c
    if cls == S:
        v.set(v.st, sp, 'dim_', n) if 'dim_' in str(v.mod.classes.get(S + 'Space')) else None
    return sp


def mat(v, cls, m, n, init=True):
    """arbitrary triplet or expansion matrix with m rows and n columns; v.mat(i,j-1) through v.I, v.Jc, v.val"""
    sp = mspace(v, cls, m, n)
    p = v.obj(cls, 'this')
    b = v.st.wb('this')
    for c in (cls, 'Ipopt::Matrix') + (('Ipopt::SymMatrix',) if cls == S else ()):
        try:
            b.cells[v.off(c, 'owner_space_')] = sp
        except Exception:
            pass
    if cls == X:
        e, f = idx(v, 'exppos', n, 0, m)
        v.set(v.st, sp, 'expanded_pos_', v.nullable(e, n <= 0))
        v.nz, v.I, v.Jc, v.val = n, f, lambda k: k, lambda k: rv(1)
    else:
        nz = v.int('nonzeros')
        v.assume(nz >= 0)
        r, fr = idx(v, 'irows', nz, 1, m + 1)
        c, fc = idx(v, 'jcols', nz, 1, n + 1)
        v.set(v.st, sp, 'nonZeros_', nz)
        v.set(v.st, sp, 'iRows_', r)
        v.set(v.st, sp, 'jCols_', c)
        a = v.arr('values', nz)
        v.set(v.st, p, 'values_', a)
        v.set(v.st, p, 'initialized_', TRUE if init else v.bool('initd'))
        f = v.body(v.st, a)
        v.nz, v.I, v.Jc, v.val = nz, lambda k: fr(k) - 1, lambda k: fc(k) - 1, f
    v.sym = cls == S
    return p


def vecs(v, *dims):
    out = []
    sps = {}
    for i, n in enumerate(dims):
        k = n.get_id()
        if k not in sps:
            sps[k] = mkspace(v, 'space%d' % i, n)
        out.append(mkvec(v, 'v%d' % i, n, sps[k], init=(i < len(dims) - 1) or v.yinit))
    return out


def jobs():
    out = []

    def dims(v, cls):
        m = v.int('rows')
        n = m if cls == S else v.int('cols')
        v.assume(z3.And(m >= 0, n >= 0))
        return m, n

    def allowed(v, y):
        a = {(y, v.off(D.DV, f)) for f in ('values_', 'expanded_values_', 'homogeneous_', 'scalar_', 'initialized_')} | {(y + '.vals', ('f', 0)), (y + '.vals', 'release'), (y, 48)}
        return a | {('v%d' % i, v.off(D.DV, 'expanded_values_')) for i in range(5)}

    def scat(v, base, j, term, tterm=None, ln=None):
        """base + sum of the terms of the entries in line j"""
        def step(a, k):
            r = z3.If((ln or v.I)(k) == j, a + term(k), a)
            if tterm is not None:
                r = z3.If(z3.And(v.Jc(k) == j, v.I(k) != v.Jc(k)), r + tterm(k), r)
            return r
        return fold1(base, step, v.nz)

    def add(cls, meth, setup, post, budget=120, case='', fn=None):
        out.append(Job('%s::%s%s' % (cls.split('::')[1], meth, case), fn or cls + '::' + meth, setup, post, budget=budget))

    def normal(v, kind, st):
        v.ensure(st, z3.BoolVal(kind == 'ret'), 'returns normally')
        return kind == 'ret'

    # ---- products
    def mult(cls, trans):
        for case in ('beta=0', 'beta<>0'):
            def setup(v, case=case):
                m, n = dims(v, cls)
                v.al, v.be = v.real('alpha'), v.real('beta')
                v.assume((v.be == 0) if case == 'beta=0' else (v.be != 0))
                p = mat(v, cls, m, n)
                v.yinit = case != 'beta=0'
                v.ny = n if trans else m
                v.xs = vecs(v, m if trans else n, v.ny)
                return [p, v.al, v.xs[0], v.be, v.xs[1]]

            def post(v, kind, st, val):
                if not normal(v, kind, st):
                    return
                j = v.skolem()
                st.assume(z3.And(j >= 0, j < v.ny))
                x, y0, y1 = view(v, v.pre, v.xs[0]), view(v, v.pre, v.xs[1]), view(v, st, v.xs[1])
                base = z3.If(v.be == 0, rv(0), v.be * y0(j))
                if cls == X and trans:
                    sp = base + v.al * x(v.I(j))
                else:
                    ln, col = (v.Jc, v.I) if trans else (v.I, v.Jc)
                    sp = scat(v, base, j, lambda k: v.al * v.val(k) * x(col(k)), (lambda k: v.al * v.val(k) * x(v.I(k))) if v.sym else None, ln)
                v.ensure(st, y1(j) == sp, 'component j of the result is that of the product')
                v.ensure(st, wf(v, st, v.xs[1], v.ny), 'representation invariant of the result')
                v.frame(st, allowed(v, 'v1'))
            add(cls, 'TransMultVectorImpl' if trans else 'MultVectorImpl', setup, post, case=' ' + case)
    for cls in (G, X):
        mult(cls, False)
        mult(cls, True)
    mult(S, False)

    # ---- norms
    def norms(cls, which, wrapper=False):
        def setup(v):
            m, n = dims(v, cls)
            p = mat(v, cls, m, n)
            v.yinit = True
            v.ny = m if which == 'Row' else n
            v.xs = vecs(v, v.ny)
            v.init = v.bool('init')
            # with init the caller (Matrix::ComputeRowAMax) has set the vector to zero
            y = view(v, v.st, v.xs[0])
            return [p, v.xs[0], v.init]

        def post(v, kind, st, val):
            if not normal(v, kind, st):
                return
            j = v.skolem()
            st.assume(z3.And(j >= 0, j < v.ny))
            y0, y1 = view(v, v.pre, v.xs[0]), view(v, st, v.xs[0])
            base = z3.If(v.init, rv(0), y0(j)) if wrapper or cls == S else y0(j)
            up = lambda a, x: z3.If(a >= x, a, x)
            if cls == X and which == 'Col':
                sp = z3.If(v.init, rv(1), up(y0(j), rv(1)))
            elif v.sym:
                sp = fold1(base, lambda a, k: z3.If(z3.Or(v.I(k) == j, v.Jc(k) == j), up(a, fabs(v.val(k))), a), v.nz)
            else:
                ln = v.I if which == 'Row' else v.Jc
                sp = fold1(base, lambda a, k: z3.If(ln(k) == j, up(a, fabs(v.val(k))), a), v.nz)
            v.ensure(st, y1(j) == sp, 'component j is the largest magnitude seen so far in line j')
            v.ensure(st, wf(v, st, v.xs[0], v.ny), 'representation invariant of the result')
            v.frame(st, allowed(v, 'v0'))
        add(cls, 'Compute%sAMax%s' % (which, '' if wrapper else 'Impl'), setup, post, fn='Ipopt::Matrix::Compute%sAMax' % which if wrapper else None)
    for cls in (G, X):
        norms(cls, 'Row')
        norms(cls, 'Col')
    norms(S, 'Row')
    for cls in (G, X):
        norms(cls, 'Row', True)
        norms(cls, 'Col', True)
    norms(S, 'Row', True)

    # ---- fused operations
    def msinv():
        for hom, zc in ((False, ''), (True, ' Z homogeneous'), (True, ' Z dense'), (True, ' empty')):
            def setup(v, hom=hom, zc=zc):
                m, n = dims(v, X)
                v.al = v.real('alpha')
                p = mat(v, X, m, n)
                v.yinit = True
                v.xs = vecs(v, n, n, m)
                v.m = m
                hs = as_bool(v.get(v.st, v.xs[0], 'homogeneous_'))
                v.assume(hs == hom)
                if zc:
                    v.assume((n == 0) if zc == ' empty' else z3.And(n > 0, as_bool(v.get(v.st, v.xs[1], 'homogeneous_')) == (zc == ' Z homogeneous')))
                f = view(v, v.st, v.xs[0])
                q = z3.Int('$qs')
                v.assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < n), f(q) != 0)))
                return [p, v.al, v.xs[0], v.xs[1], v.xs[2]]

            def post(v, kind, st, val, hom=hom):
                if not normal(v, kind, st):
                    return
                j = v.skolem()
                st.assume(z3.And(j >= 0, j < v.m))
                s, z, x0 = [view(v, v.pre, q) for q in v.xs]
                v.ensure(st, view(v, st, v.xs[2])(j) == scat(v, x0(j), j, lambda k: z3.If(v.al * (z(k) / s(k)) == 0, rv(0), v.al * (z(k) / s(k))) if hom else z3.If(v.al * z(k) == 0, rv(0), v.al * z(k) / s(k))), 'component j of X + alpha M S^-1 Z')
                v.ensure(st, wf(v, st, v.xs[2], v.m), 'representation invariant of the result')
                v.frame(st, allowed(v, 'v2'))
            add(X, 'AddMSinvZImpl', setup, post, case=' S homogeneous' + zc if hom else '', budget=200)

        for hom in range(4):
            def setup(v, hom=hom):
                m, n = dims(v, X)
                v.al = v.real('alpha')
                p = mat(v, X, m, n)
                v.yinit = False
                v.n = n
                v.xs = vecs(v, n, n, n, m, n)
                for i, b in ((0, 1), (3, 2)):
                    v.assume(as_bool(v.get(v.st, v.xs[i], 'homogeneous_')) == bool(hom & b))
                f = view(v, v.st, v.xs[0])
                q = z3.Int('$qs')
                v.assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < n), f(q) != 0)))
                return [p, v.al] + v.xs

            def post(v, kind, st, val):
                if not normal(v, kind, st):
                    return
                j = v.skolem()
                st.assume(z3.And(j >= 0, j < v.n))
                s, r, z, d, _ = [view(v, v.pre, q) for q in v.xs]
                v.ensure(st, view(v, st, v.xs[4])(j) == (r(j) + v.al * z(j) * d(v.I(j))) / s(j), 'component j of S^-1 (R + alpha Z M^T D)')
                v.ensure(st, wf(v, st, v.xs[4], v.n), 'representation invariant of the result')
                v.frame(st, allowed(v, 'v4'))
            add(X, 'SinvBlrmZMTdBrImpl', setup, post, case=(' S homogeneous' if hom & 1 else '') + (' D homogeneous' if hom & 2 else ''), budget=200)
    msinv()

    # ---- default implementation of the fused operations, on a general triplet matrix
    def dflt():
        def setup(v):
            m, n = dims(v, G)
            v.al = v.real('alpha')
            p = mat(v, G, m, n)
            v.yinit = True
            v.xs = vecs(v, n, n, m)
            v.m = m
            f = view(v, v.st, v.xs[0])
            q = z3.Int('$qs')
            v.assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < n), f(q) != 0)))
            return [p, v.al, v.xs[0], v.xs[1], v.xs[2]]

        def post(v, kind, st, val):
            if not normal(v, kind, st):
                return
            j = v.skolem()
            st.assume(z3.And(j >= 0, j < v.m))
            s, z, x0 = [view(v, v.pre, q) for q in v.xs]
            v.ensure(st, view(v, st, v.xs[2])(j) == scat(v, x0(j), j, lambda k: v.al * v.val(k) * (z(v.Jc(k)) / s(v.Jc(k)))), 'component j of X + alpha M S^-1 Z')
            v.frame(st, allowed(v, 'v2'))
        add('Ipopt::Matrix', 'AddMSinvZImpl', setup, post, case=' (default implementation)', budget=200)

        def setup2(v):
            m, n = dims(v, G)
            v.al = v.real('alpha')
            p = mat(v, G, m, n)
            v.yinit = False
            v.n = n
            v.xs = vecs(v, n, n, n, m, n)
            return [p, v.al] + v.xs

        def post2(v, kind, st, val):
            if not normal(v, kind, st):
                return
            j = v.skolem()
            st.assume(z3.And(j >= 0, j < v.n))
            s, r, z, d, _ = [view(v, v.pre, q) for q in v.xs]
            st.assume(s(j) != 0)
            mt = scat(v, rv(0), j, lambda k: v.al * v.val(k) * d(v.I(k)), ln=v.Jc)
            v.ensure(st, view(v, st, v.xs[4])(j) == (r(j) + z(j) * mt) / s(j), 'component j of S^-1 (R + alpha Z M^T D)')
            v.frame(st, allowed(v, 'v4'))
        add('Ipopt::Matrix', 'SinvBlrmZMTdBrImpl', setup2, post2, case=' (default implementation)', budget=200)
    dflt()

    # ---- data access
    def acc(cls, meth, mk, chk, allow=(), const=None):
        def setup(v):
            m, n = dims(v, cls)
            p = mat(v, cls, m, n, init=False)
            return [p] + mk(v)

        def post(v, kind, st, val):
            if not normal(v, kind, st):
                return
            j = v.skolem()
            st.assume(z3.And(j >= 0, j < v.nz))
            chk(v, st, val, j)
            v.frame(st, {('this', 48)} | set(allow) | {('this', v.off(cls, 'initialized_'))})
        fn = None if const is None else (lambda mod: [f for f in mod.find(cls + '::' + meth) if f.dem.endswith(' const') == const][0])
        add(cls, meth, setup, post, fn=fn, case='' if const is None else (' const' if const else ' (writable)'))

    def setvals(cls):
        def mk(v):
            v.src = v.arr('src', v.nz)
            return [v.src]

        def chk(v, st, val, j):
            v.ensure(st, v.body(st, v.get(st, Ptr('this'), 'values_'))(j) == v.body(v.pre, v.src)(j), 'entry j is the given value')
            v.ensure(st, as_bool(v.get(st, Ptr('this'), 'initialized_')), 'the matrix counts as initialised')
        acc(cls, 'SetValues', mk, chk, {('values', ('f', 0))})
    setvals(G)
    setvals(S)

    def values(cls, const):
        def chk(v, st, val, j):
            v.ensure(st, v.ex.pcmp(st, 'eq', val, v.get(v.pre, Ptr('this'), 'values_')), 'the value array itself')
        acc(cls, 'Values', lambda v: [], chk, const=const)
    values(S, True)
    values(S, False)

    def fillstruct():
        def mk(v):
            v.o = [v.arr('o%d' % i, v.nz, S=4, ty='i32') for i in range(2)]
            return v.o

        def chk(v, st, val, j):
            v.ensure(st, v.body(st, v.o[0])(j) == v.I(j) + 1, 'row index of entry j')
            v.ensure(st, v.body(st, v.o[1])(j) == v.Jc(j) + 1, 'column index of entry j')
        acc(S, 'FillStruct', mk, chk, {('o0', ('f', 0)), ('o1', ('f', 0))})

        def mk2(v):
            v.o = v.arr('o', v.nz)
            return [v.o]

        def chk2(v, st, val, j):
            v.ensure(st, v.body(st, v.o)(j) == v.val(j), 'value of entry j')
        acc(S, 'FillValues', mk2, chk2, {('o', ('f', 0))})
    fillstruct()

    # ---- spaces
    def ctor(cls):
        def setup(v):
            m, nz = v.int('rows'), v.int('nonzeros')
            n = m if cls == S else v.int('cols')
            v.assume(z3.And(m >= 0, n >= 0, nz >= 0))
            v.m, v.n, v.nz = m, n, nz
            p = v.obj(cls + 'Space', 'this')
            if cls == X:
                v.off_ = v.int('offset')
                e, v.fr = idx(v, 'exppos', n, v.off_, m + v.off_)
                return [p, m, n, e, v.off_]
            v.r, v.fr = idx(v, 'irows', nz, 1, m + 1)
            v.c, v.fc = idx(v, 'jcols', nz, 1, n + 1)
            return [p, m] + ([n] if cls == G else []) + [nz, v.r, v.c]

        def post(v, kind, st, val):
            if not normal(v, kind, st):
                return
            p = Ptr('this')
            j = v.skolem()
            b = st.mem['this']
            if cls == X:
                st.assume(z3.And(j >= 0, j < v.n))
                e = v.get(st, p, 'expanded_pos_')
                if e.b is not None:
                    v.ensure(st, v.body(st, Ptr(e.b), 'i32')(j) == v.fr(j) - v.off_, 'position of component j')
                i = v.skolem()
                st.assume(z3.And(i >= 0, i < v.m))
                c = v.get(st, p, 'compressed_pos_')
                if c.b is not None:
                    v.ensure(st, v.body(st, Ptr(c.b), 'i32')(i) == fold1(iv(-1), lambda a, k: z3.If(v.fr(k) - v.off_ == i, k, a), v.n), 'inverse position of component i')
                return
            st.assume(z3.And(j >= 0, j < v.nz))
            for fl, f in (('iRows_', v.fr), ('jCols_', v.fc)):
                a = v.get(st, p, fl)
                v.ensure(st, v.body(st, Ptr(a.b), 'i32')(j) == f(j), '%s of entry j is stored' % fl)
            v.ensure(st, v.get(st, p, 'nonZeros_') == v.nz, 'number of entries')
        add(cls + 'Space', cls.split('::')[1] + 'Space', setup, post)
    ctor(G)
    ctor(S)
    ctor(X)
    return out
