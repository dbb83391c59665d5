"""contracts of the dense matrices' products and of the wrappers around the Fortran BLAS"""
from ipvlib import *
import densevec as D
import tmat as T
from densevec import mkvec, view, wf
from structmat import z

SRCS = ['LinAlg/IpBlas.cpp', 'LinAlg/IpDenseGenMatrix.cpp', 'LinAlg/IpDenseSymMatrix.cpp'] + [s for s in T.SRCS if 'TMatrices' not in s and 'Expansion' not in s]
MODELS = T.MODELS.child()
WRAP = MODELS.child()
G, S = 'Ipopt::DenseGenMatrix', 'Ipopt::DenseSymMatrix'

# Fortran routine -> kinds of its parameters (c character, i integer, d number: passed by reference; a array; l length of a string)
F = {'ddot_': 'iaiai', 'dnrm2_': 'iai', 'dasum_': 'iai', 'idamax_': 'iai', 'dcopy_': 'iaiai', 'daxpy_': 'idaiai', 'dscal_': 'idai', 'dgemv_': 'ciidaiaidail',
     'dsymv_': 'cidaiaidail', 'dgemm_': 'cciiidaiaidaill', 'dsyrk_': 'cciidaidaill', 'dtrsm_': 'cccciidaiaillll'}


def _ext(name, kinds):
    def m(ex, st, a, ins):
        log = []
        for k, p in zip(kinds, a):
            if k == 'c':
                log.append(ex.load(st, p, 'i8'))
            elif k == 'i':
                log.append(ex.load(st, p, 'i32'))
            elif k == 'd':
                log.append(ex.load(st, p, 'double'))
            else:
                log.append(p)
        w = st.wb('$calls')
        w.ghost['calls'] = w.ghost['calls'] + ((name, log),)
        return ret(st, z3.Real('result') if name in ('ddot_', 'dnrm2_', 'dasum_') else z3.Int('result') if name == 'idamax_' else None)
    return m


for _n, _k in F.items():
    MODELS.reg(_n, 'trusted', 'the Fortran BLAS routine; the call is recorded')(_ext(_n, _k))


def _gemv(ex, st, a, ins):
    tr, m, n, al, A, lda, x, ix, be, y, iy = a
    _mv(ex, st, 'gemv', [as_bool(tr)], z3.If(as_bool(tr), m, n), z3.If(as_bool(tr), n, m), al, A, lda, m, n, x, ix, be, y, iy)
    return ret(st)


def _symv(ex, st, a, ins):
    n, al, A, lda, x, ix, be, y, iy = a
    _mv(ex, st, 'symv', [], n, n, al, A, lda, n, n, x, ix, be, y, iy)
    return ret(st)


def _mv(ex, st, kind, extra, nx, ny, al, A, lda, m, n, x, ix, be, y, iy):
    """y := beta y + alpha op(A) x; A is the column-major array with leading dimension lda"""
    if M.ok_null(ex, st, [x, y], m) is False:
        raise Unsupported('null array passed to BLAS')
    ex.require(st, lda >= m, 'leading dimension')
    f = M.rd(ex, st, M.nonnull(x), 'double')
    M.inrange(ex, st, M.nonnull(x), 'double', nx, ix, 'BLAS source')
    M.inrange(ex, st, M.nonnull(A), 'double', lda * (n - 1) + m, iv(1), 'BLAS matrix')
    st.gh['mv'] = (kind, extra, A, lda, m, n, f, ix)
    P = z3.Function('product', IntS, RealS)
    M.strided(ex, st, y, ny, iy, lambda j, old: z(be, old) + al * P(j))


MODELS.reg('Ipopt::IpBlasGemv', 'contract', 'y := beta y + alpha op(A) x (y is not read if beta = 0); forwards to DGEMV (this module)')(_gemv)
MODELS.reg('Ipopt::IpBlasSymv', 'contract', 'y := beta y + alpha A x with the lower triangle of A; forwards to DSYMV (this module)')(_symv)


def jobs():
    out = []

    def add(name, fn, setup, post, **kw):
        out.append(Job(name, fn, setup, post, **kw))

    def normal(v, kind, st):
        v.ensure(st, z3.BoolVal(kind == 'ret'), 'returns normally')
        return kind == 'ret'

    # ---- wrappers: sig lists the C++ parameters (b bool, i index, d number, a array);  exp builds the Fortran call from them
    def wrap(name, sig, fname, exp, pre=None, case=''):
        def setup(v):
            b = Block('$calls', 'rec')
            b.ghost['calls'] = ()
            v.st.add(b)
            a = []
            for k, (c, nm) in enumerate(sig):
                a.append(v.bool(nm) if c == 'b' else v.int(nm) if c == 'i' else v.real(nm) if c == 'd' else v.arr(nm, v.int('n_' + nm)))
            v.a = {nm: x for (c, nm), x in zip(sig, a)}
            if pre:
                v.assume(pre(v.a))
            return a

        def post(v, kind, st, val):
            if not normal(v, kind, st):
                return
            calls = st.mem['$calls'].ghost['calls']
            e = exp(v.a)
            v.ensure(st, z3.BoolVal(len(calls) == 1 and calls[0][0] == fname), 'exactly one call of ' + fname)
            if len(calls) != 1:
                return
            for k, (got, want) in enumerate(zip(calls[0][1], e)):
                if isinstance(want, Ptr):
                    v.ensure(st, z3.BoolVal(str(got) == str(want)), 'array argument %d of %s' % (k, fname))
                else:
                    v.ensure(st, got == want, 'argument %d of %s' % (k, fname))
            if val is not None:
                v.ensure(st, val == (z3.Real('result') if z3.is_real(val) else z3.Int('result')), 'returns the result of ' + fname)
            v.frame(st, {('$calls', ('g', 'calls'))})
        add('IpBlas%s%s' % (name, case), 'Ipopt::IpBlas' + name, setup, post, models=None)
    ch = lambda c: iv(ord(c))
    tr = lambda b: z3.If(as_bool(b), ch('T'), ch('N'))
    P = lambda s: [(x[0], x[2:]) for x in s.split()]
    wrap('Dot', P('i:n a:x i:ix a:y i:iy'), 'ddot_', lambda a: [a['n'], a['x'], a['ix'], a['y'], a['iy']], lambda a: z3.And(a['ix'] > 0, a['iy'] > 0), '[positive increments]')
    for nm, fn in (('Nrm2', 'dnrm2_'), ('Asum', 'dasum_'), ('Iamax', 'idamax_')):
        wrap(nm, P('i:n a:x i:ix'), fn, lambda a: [a['n'], a['x'], a['ix']])
    wrap('Copy', P('i:n a:x i:ix a:y i:iy'), 'dcopy_', lambda a: [a['n'], a['x'], a['ix'], a['y'], a['iy']], lambda a: a['ix'] > 0, '[positive increment]')
    wrap('Axpy', P('i:n d:al a:x i:ix a:y i:iy'), 'daxpy_', lambda a: [a['n'], a['al'], a['x'], a['ix'], a['y'], a['iy']], lambda a: a['ix'] > 0, '[positive increment]')
    wrap('Scal', P('i:n d:al a:x i:ix'), 'dscal_', lambda a: [a['n'], a['al'], a['x'], a['ix']])
    wrap('Gemv', P('b:trans i:m i:n d:al a:A i:lda a:x i:ix d:be a:y i:iy'), 'dgemv_', lambda a: [tr(a['trans'])] + [a[k] for k in 'm n al A lda x ix be y iy'.split()])
    wrap('Symv', P('i:n d:al a:A i:lda a:x i:ix d:be a:y i:iy'), 'dsymv_', lambda a: [ch('L')] + [a[k] for k in 'n al A lda x ix be y iy'.split()])
    wrap('Gemm', P('b:ta b:tb i:m i:n i:k d:al a:A i:lda a:B i:ldb d:be a:C i:ldc'), 'dgemm_', lambda a: [tr(a['ta']), tr(a['tb'])] + [a[k] for k in 'm n k al A lda B ldb be C ldc'.split()])
    wrap('Syrk', P('b:trans i:n i:k d:al a:A i:lda d:be a:C i:ldc'), 'dsyrk_', lambda a: [ch('L'), tr(a['trans'])] + [a[k] for k in 'n k al A lda be C ldc'.split()])
    wrap('Trsm', P('b:trans i:n i:k d:al a:A i:lda a:B i:ldb'), 'dtrsm_', lambda a: [ch('L'), ch('L'), tr(a['trans']), ch('N')] + [a[k] for k in 'n k al A lda B ldb'.split()])

    # broadcasts: a zero increment of the source
    def bcast(name, al, two):
        def setup(v):
            v.n, v.al = v.int('n'), v.real('alpha')
            v.iy = v.int('incY') if two else iv(1)
            v.assume(z3.And(v.n >= 0, v.iy >= 1))
            b = Block('$calls', 'rec')
            b.ghost['calls'] = ()
            v.st.add(b)
            x, y = v.arr('x', iv(1)), v.arr('y', v.n * v.iy)
            v.xy = x, y
            return [v.n] + ([v.al] if al else []) + [x, iv(0), y, v.iy]

        def post(v, kind, st, val):
            if not normal(v, kind, st):
                return
            x, y = v.xy
            x0 = v.body(v.pre, x)(iv(0))
            j = v.skolem()
            st.assume(z3.And(j >= 0, j < v.n))
            y0, y1 = v.body(v.pre, y), v.body(st, y)
            v.ensure(st, y1(j) == (y0(j) + v.al * x0 if al else x0), 'entry j')
            v.frame(st, {('y', ('f', 0))})
        add('IpBlas%s[zero increment]' % name, 'Ipopt::IpBlas' + name, setup, post)
    bcast('Copy', False, False)
    bcast('Axpy', True, False)

    # ---- products of dense matrices
    def prod(cls, trans):
        for case in ('beta=0', 'beta<>0'):
            def setup(v, case=case):
                m = v.int('rows')
                n = m if cls == S else v.int('cols')
                v.assume(z3.And(m >= 1, n >= 1))
                v.m, v.n = m, n
                sp = T.mspace(v, cls, m, n)
                p = v.obj(cls, 'this')
                b = v.st.wb('this')
                for c in (cls, 'Ipopt::Matrix') + (('Ipopt::SymMatrix',) if cls == S else ()):
                    if any(x[0] == 'owner_space_' for x in v.mod.classes[c]['m']):
                        b.cells[v.off(c, 'owner_space_')] = sp
                v.vals = v.arr('values', m * n)
                v.set(v.st, p, 'values_', v.vals)
                v.set(v.st, p, 'initialized_', TRUE)
                v.al, v.be = v.real('alpha'), v.real('beta')
                v.assume((v.be == 0) if case == 'beta=0' else (v.be != 0))
                v.yinit = case != 'beta=0'
                v.nx, v.ny = (m, n) if trans else (n, m)
                v.xs = T.vecs(v, v.nx, v.ny)
                return [p, v.al, v.xs[0], v.be, v.xs[1]]

            def post(v, kind, st, val):
                if not normal(v, kind, st):
                    return
                mv = st.gh.get('mv')
                v.ensure(st, z3.BoolVal(mv is not None and mv[0] == ('symv' if cls == S else 'gemv')), 'one product is computed')
                if mv is None:
                    return
                _, extra, A, lda, m, n, f, ix = mv
                for e in extra:
                    v.ensure(st, e == (TRUE if trans else FALSE), 'of the right orientation')
                v.ensure(st, z3.BoolVal(str(A) == str(v.vals)), 'with the array of this matrix')
                v.ensure(st, z3.And(lda == v.m, m == v.m, n == v.n, ix == 1), 'dimensions of the matrix')
                j = v.skolem()
                x, y0, y1 = view(v, v.pre, v.xs[0]), view(v, v.pre, v.xs[1]), view(v, st, v.xs[1])
                s2 = st.fork()
                s2.assume(z3.And(j >= 0, j < v.nx))
                v.ensure(s2, f(j) == x(j), 'with the entries of x')
                i = v.skolem()
                s2 = st.fork()
                s2.assume(z3.And(i >= 0, i < v.ny))
                Pf = z3.Function('product', IntS, RealS)
                v.ensure(s2, y1(i) == z(v.be, y0(i)) + v.al * Pf(i), 'component of the result')
                v.ensure(st, wf(v, st, v.xs[1], v.ny), 'representation invariant of the result')
                v.frame(st, {('v1', v.off(D.DV, k)) for k in ('values_', 'expanded_values_', 'homogeneous_', 'scalar_', 'initialized_')} | {('v1.vals', ('f', 0)), ('v1.vals', 'release'), ('v1', 48), ('v0', v.off(D.DV, 'expanded_values_'))})
            add('%s::%sMultVectorImpl %s' % (cls.split('::')[1], 'Trans' if trans else '', case), cls + '::%sMultVectorImpl' % ('Trans' if trans else ''), setup, post)
    prod(G, False)
    prod(G, True)
    prod(S, False)
    return out
