"""contracts of result caches: the reductions cached in vectors, validity of matrices, CachedResults, tags and observers"""
from ipvlib import *
import stl

SRCS = ['LinAlg/IpVector.cpp', 'LinAlg/IpMatrix.cpp', 'LinAlg/IpDenseVector.cpp', 'LinAlg/IpDiagMatrix.cpp', 'LinAlg/IpIdentityMatrix.cpp', 'LinAlg/IpCompoundVector.cpp', 'LinAlg/IpMultiVectorMatrix.cpp', 'LinAlg/IpExpandedMultiVectorMatrix.cpp', 'LinAlg/TMatrices/IpGenTMatrix.cpp', 'LinAlg/TMatrices/IpSymTMatrix.cpp', 'LinAlg/IpLowRankUpdateSymMatrix.cpp', 'LinAlg/IpScaledMatrix.cpp', 'LinAlg/IpSymScaledMatrix.cpp', 'LinAlg/IpBlas.cpp', 'Common/IpTaggedObject.cpp', 'Common/IpObserver.cpp', '/verif/contracts/inst/caches.cpp']
MODELS = BASE.child()
TO = 'Ipopt::TaggedObject'
VE = 'Ipopt::Vector'


@MODELS.reg(TO + '::ObjectChanged', 'contract', 'proved below for the real body: the tag becomes a value never used before')
def m_changed(ex, st, a, ins):
    u = st.mem['$utag'].ghost['utag']
    ex.store(st, a[0].add(ex.mod.fieldoff(TO, 'tag_')[0]), u, 'i32')
    st.wb('$utag').ghost['utag'] = z3.simplify(u + 1)
    return ret(st)


# contents of a vector: an abstract value; operations and reductions are functions of it
SIG = {'Copy': 'v', 'Axpy': 'sv', 'Set': 's', 'Scal': 's', 'ElementWiseDivide': 'v', 'ElementWiseMultiply': 'v', 'ElementWiseSelect': 'v', 'ElementWiseMax': 'v', 'ElementWiseMin': 'v',
       'ElementWiseReciprocal': '', 'ElementWiseAbs': '', 'ElementWiseSqrt': '', 'ElementWiseSgn': '', 'AddScalar': 's', 'AddTwoVectors': 'svsvs', 'AddVectorQuotient': 'svvs'}
RED = {'Nrm2': 'nrm2', 'Asum': 'asum', 'Amax': 'amax', 'Max': 'max', 'Min': 'min', 'Sum': 'sum', 'SumLogs': 'sumlogs'}


def contents(st, p):
    return st.mem[p.b].ghost['contents']


def opt(name, args):
    """contents after an operation"""
    if name == 'Copy':
        return args[1]
    return z3.Function(name, *([x.sort() for x in args] + [IntS]))(*args)


def redt(name, args):
    so = BoolS if name == 'HasValidNumbers' else RealS
    return z3.Function(name, *([x.sort() for x in args] + [so]))(*args)


def _mut(name):
    def m(ex, st, a, ins):
        ex.require(st, z3.BoolVal(not st.mem[a[0].b].ghost.get('const')), 'a constant vector is not modified')
        args = [contents(st, x) if isinstance(x, Ptr) else x for x in a]
        w = st.wb(a[0].b)
        w.ghost['contents'] = opt(name, args)
        return ret(st)
    return m


def _red(name):
    def m(ex, st, a, ins):
        return ret(st, redt(name, [contents(st, x) if isinstance(x, Ptr) else x for x in a]))
    return m


for _n in SIG:
    MODELS.regv(VE, _n + 'Impl', 'contract', 'the implementation performs the operation (C07, C08)')(_mut(_n))
    MODELS.reg(VE + '::' + _n + 'Impl', 'contract', 'the implementation performs the operation (C07, C08)')(_mut(_n))
for _n in list(RED) + ['Dot', 'HasValidNumbers', 'FracToBound']:
    MODELS.regv(VE, _n + 'Impl', 'contract', 'a reduction is a function of the contents (C07, C08)')(_red(_n))
    MODELS.reg(VE + '::' + _n + 'Impl', 'contract', 'a reduction is a function of the contents (C07, C08)')(_red(_n))
MODELS.regv('Ipopt::Matrix', 'HasValidNumbersImpl', 'contract', 'a function of the matrix')(_red('HasValidNumbers'))
MODELS.reg('Ipopt::Matrix::HasValidNumbersImpl', 'contract', 'a function of the matrix')(_red('HasValidNumbers'))
CR = 'Ipopt::CachedResults<double>'
VMODELS = MODELS.child()


def tag(ex, st, p):
    return ex.load(st, p.add(ex.mod.fieldoff(TO, 'tag_')[0]), 'i32')


@VMODELS.reg(CR + '::GetCachedResult2Dep', 'contract', 'a result found was added for the same tags; tags identify contents, so it is the value for these contents')
def m_get2(ex, st, a, ins):
    f = st.fresh('found', BoolS)
    s1, s2 = st.fork(), st
    s1.assume(f)
    s2.assume(z3.Not(f))
    ex.store(s1, a[1], redt('Dot', [contents(s1, a[2]), contents(s1, a[3])]), 'double')
    return [('ret', s1, TRUE), ('ret', s2, FALSE)]


@VMODELS.reg(CR + '::AddCachedResult2Dep', 'contract', 'stores the result for the current tags')
def m_add2(ex, st, a, ins):
    r = ex.load(st, a[1], 'double')
    ex.require(st, r == redt('Dot', [contents(st, a[2]), contents(st, a[3])]), 'the value put into the cache is that of the current contents')
    return ret(st)


DR = 'Ipopt::DependentResult<double>'
OB, SU = 'Ipopt::Observer', 'Ipopt::Subject'
STALE = lambda ex, st, j: as_bool(z3.substitute(st.mem['entries'].fields[ex.mod.fieldoff(DR, 'stale_')[0]], (J, j)))
MATCH = z3.Function('entry_matches', IntS, BoolS)


def famidx(ex, st, p, what='element'):
    b = st.mem[p.b]
    idx, fo = ex.elem(b, p, 'ptr')
    return idx


OBS = BASE.child()      # observers and subjects
DEPM = BASE.child()     # one cached result
CACHE = BASE.child()    # list of cached results
CACHE2 = CACHE.child()  # users of CleanupInvalidatedResults
WRAP = BASE.child()     # wrappers with 1, 2, 3 dependencies


@OBS.reg(OB + '::ProcessNotification', 'contract', 'proved for the real body: the observer is told; lists of the subject are not touched')
def m_pn(ex, st, a, ins):
    i = famidx(ex, st, a[0])
    b = st.wb(a[0].b)
    ex.require(st, as_int(a[1]) == ex.vv.ntype, 'type of the notification')
    ex.require(st, ex.pcmp(st, 'eq', a[2], ex.vv.subject), 'the notification names the subject')
    b.ghost['told[]'] = z3.simplify(z3.If(J == i, TRUE, b.ghost['told[]']))
    return ret(st)


@OBS.reg(OB + '::ReceiveNotification', 'contract', 'proved below for DependentResult')
def m_rn(ex, st, a, ins):
    g = st.wb('ghost')
    g.cells['received'] = g.cells['received'] + 1
    g.cells['type'] = as_int(a[1])
    ex.require(st, ex.pcmp(st, 'eq', a[2], ex.vv.subject), 'the notification names the subject')
    return ret(st)


DET = BASE.child()
CHG = MODELS.child()


@CHG.reg('Ipopt::CompoundVector::VectorsValid', 'contract', 'C08')
def m_vv(ex, st, a, ins):
    return ret(st, z3.Bool('all components set'))


@CHG.reg('Ipopt::IpBlasCopy', 'contract', 'writes the target only')
def m_bcopy(ex, st, a, ins):
    return ret(st)


@CHG.reg(['Ipopt::DenseVector::set_values_from_scalar', 'Ipopt::DenseVector::values_allocated'], 'contract', 'C07')
def m_svs(ex, st, a, ins):
    return ret(st, st.mem['this'].cells[ex.mod.fieldoff('Ipopt::DenseVector', 'values_')[0]])


@DET.reg(OB + '::RequestDetach', 'contract', 'proved for the real body (each subject is observed at most once): the last subject goes, the others stay')
def m_rd(ex, st, a, ins):
    g = st.wb('ghost')
    i = famidx(ex, st, a[2])
    n = st.mem['subjs'].n
    ex.require(st, i == n - 1 - g.cells['removed'], 'the subject is still in the list')
    g.cells['removed'] = z3.simplify(g.cells['removed'] + 1)
    b = st.wb('subjs')
    b.ghost['det[]'] = z3.simplify(z3.If(J == i, TRUE, b.ghost['det[]']))
    return ret(st)


@DEPM.reg(OB + '::RequestAttach', 'contract', 'proved for the real body: both know of each other')
def m_ra(ex, st, a, ins):
    ex.require(st, ex.pcmp(st, 'eq', a[0], Ptr('this')), 'this result observes')
    off = ex.mod.baseoff(TO, SU)
    i = famidx(ex, st, a[2].add(-off))
    b = st.wb('deps')
    b.ghost['att[]'] = z3.simplify(z3.If(J == i, TRUE, b.ghost['att[]']))
    return ret(st)


@CACHE.reg(DR + '::DependentsIdentical', 'contract', 'proved for the real body')
def m_di(ex, st, a, ins):
    i = famidx(ex, st, a[0])
    ex.require(st, z3.Not(z3.substitute(st.mem['entries'].ghost.get('rel[]', FALSE), (J, i))), 'entry is not released')
    ex.require(st, z3.And(ex.pcmp(st, 'eq', a[1], Ptr('deps')), ex.pcmp(st, 'eq', a[2], Ptr('scalars'))), 'dependencies are passed on')
    return ret(st, MATCH(i))


@CACHE.reg(DR + '::DependentResult', 'contract', 'proved for the real body: stores result, tags and scalars, observes every dependency, is not stale')
def m_dctor(ex, st, a, ins):
    ex.require(st, z3.And(ex.pcmp(st, 'eq', a[2], Ptr('deps')), ex.pcmp(st, 'eq', a[3], Ptr('scalars'))), 'dependencies are passed on')
    b = st.wb(a[0].b)
    b.cls = DR
    b.ghost['entry'] = ex.load(st, a[1], 'double')
    b.cells[ex.mod.fieldoff(DR, 'stale_')[0]] = FALSE
    return ret(st)


def _del(ex, st, a, ins):
    p = a[0]
    b = st.mem[p.b]
    if b.tag == 'fam':
        i = famidx(ex, st, p)
        old = b.ghost.get('rel[]', FALSE)
        ex.require(st, z3.Not(z3.substitute(old, (J, i))), 'entry is released once')
        st.wb(p.b).ghost['rel[]'] = z3.simplify(z3.If(J == i, TRUE, old))
    else:
        st.wb(p.b).live = False
    return ret(st)


CACHE.reg(DR + '::~DependentResult', 'contract', 'the entry is detached from its subjects (Observer::~Observer) and released')(_del)


@CACHE2.reg(CR + '::CleanupInvalidatedResults', 'contract', 'proved for the real body: the entries that are not stale stay')
def m_clean(ex, st, a, ins):
    cr = ex.mod.fieldoff(CR, 'cached_results_')[0]
    ex.require(st, ex.pcmp(st, 'eq', a[0], Ptr('this')), 'own list')
    l = st.mem['this'].cells[cr]
    outs = []
    if l.nul is not None:
        s2 = st.fork()
        s2.assume(l.nul)
        outs.append(('ret', s2, None))
        st.assume(z3.Not(l.nul))
    d, lo, hi = stl.lparts(ex, st, Ptr(l.b, l.c))
    u = next(engine._uid)
    sel = z3.Function('kept!%d' % u, IntS, IntS)
    j, k = z3.Int('$cj'), z3.Int('$ck')
    n2 = st.fresh('nkept', IntS)
    st.assume(z3.And(n2 >= 0, n2 <= hi - lo))
    R = lambda x: z3.And(x >= 0, x < n2)
    st.assume(z3.ForAll([j], z3.Implies(R(j), z3.And(sel(j) >= lo, sel(j) < hi, z3.Not(STALE(ex, st, sel(j)))))))
    st.assume(z3.ForAll([j, k], z3.Implies(z3.And(R(j), R(k), j < k), sel(j) < sel(k))))
    inv = z3.Function('pos!%d' % u, IntS, IntS)
    st.assume(z3.ForAll([k], z3.Implies(z3.And(k >= lo, k < hi, z3.Not(STALE(ex, st, k))), z3.And(R(inv(k)), sel(inv(k)) == k))))
    stl.mklist(st, Ptr(l.b, l.c), 'nodes%d' % u, iv(0), n2, FamVal(Ptr('entries', 0, ((200, sel(J)),))))
    g = st.wb('ghost')
    g.ghost['sel'] = sel
    g.ghost['inv'] = inv
    g.cells['nkept'] = n2
    b = st.wb('entries')
    old = b.ghost.get('rel[]', FALSE)
    b.ghost['rel[]'] = z3.simplify(z3.Or(old, z3.And(J >= lo, J < hi, STALE(ex, st, J))))
    outs.append(('ret', st, None))
    return outs


def _wrap(name, getter):
    @WRAP.reg(CR + '::' + name, 'contract', 'general form, proved for the real body')
    def m(ex, st, a, ins):
        g = st.wb('ghost')
        g.cells['called'] = g.cells['called'] + 1
        d = stl.vdata(ex, st, a[2])
        b = st.mem[d.b]
        n = z3.simplify(b.n).as_long()
        g.ghost['deps'] = [stl.psel(ex, st, b.fields[0], iv(i)) for i in range(n)]
        if len(a) > 3:
            e = stl.vdata(ex, st, a[3])
            g.cells['nscalar'] = st.mem[e.b].n
        if getter:
            f = z3.Bool('found')
            s1, s2 = st.fork(), st
            s1.assume(f)
            s2.assume(z3.Not(f))
            ex.store(s1, a[1], z3.Real('cached'), 'double')
            return [('ret', s1, TRUE), ('ret', s2, FALSE)]
        g.ghost['result'] = ex.load(st, a[1], 'double')
        return ret(st)


_wrap('GetCachedResult', True)
_wrap('AddCachedResult', False)


def jobs():
    out = []

    def add(name, fn, setup, post, **kw):
        out.append(Job(name, fn, setup, post, **kw))

    def normal(v, kind, st):
        v.ensure(st, z3.BoolVal(kind == 'ret'), 'returns normally')
        return kind == 'ret'

    CACHES = [(n, c + '_cache_tag_', 'cached_' + c + '_') for n, c in RED.items()] + [('HasValidNumbers', 'valid_cache_tag_', 'cached_valid_')]

    def ci(v, st, p):
        """cache invariant: a cached value whose tag is the current one is the value for the current contents"""
        t = v.get(st, p, 'tag_')
        g = []
        for n, ct, cv in CACHES:
            val = v.get(st, p, cv)
            if n == 'HasValidNumbers':
                val = as_bool(val)
            g.append((n, z3.Implies(as_int(v.get(st, p, ct)) == as_int(t), val == redt(n, [contents(st, p)]))))
        return g

    def tagsold(v, st, p):
        u = st.mem['$utag'].ghost['utag']
        return [z3.And(as_int(v.get(st, p, k)) >= 0, as_int(v.get(st, p, k)) < u) for k in ['tag_'] + [ct for _, ct, _ in CACHES]]

    def utag(v):
        b = Block('$utag', 'rec')
        b.ghost['utag'] = v.int('unique_tag')
        v.st.add(b)
        v.assume(v.int('unique_tag') >= 1)

    def vec(v, name, n):
        p = v.obj(VE, name)
        b = v.st.wb(name)
        b.ghost['contents'] = v.int(name + '.contents')
        for f, ct, cv in CACHES:
            v.set(v.st, p, ct, v.int(name + '.' + ct))
            v.set(v.st, p, cv, (v.bool if f == 'HasValidNumbers' else v.real)(name + '.' + cv))
        v.set(v.st, p, 'tag_', v.int(name + '.tag'))
        sp = v.obj('Ipopt::VectorSpace', name + '.space', dim_=n) if 'space' not in v.__dict__ else v.space
        v.space = sp
        b.cells[v.off(VE, 'owner_space_')] = sp
        for g in tagsold(v, v.st, p):
            v.assume(g)
        for _, g in ci(v, v.st, p):
            v.assume(g)
        return p

    def facts(v, name, args):
        """what scaling does to the reductions (definitions of the norms)"""
        if name != 'Scal':
            return
        c0, al = args
        c1 = opt('Scal', args)
        R = lambda n, c: redt(n, [c])
        for n in ('Nrm2', 'Asum', 'Amax'):
            v.assume(R(n, c1) == fabs(al) * R(n, c0))
        v.assume(R('Sum', c1) == al * R('Sum', c0))
        # an empty vector has its sentinel as maximum and minimum and no sum of logarithms
        v.assume(z3.Implies(v.n > 0, z3.And(R('Max', c1) == z3.If(al >= 0, al * R('Max', c0), al * R('Min', c0)), R('Min', c1) == z3.If(al >= 0, al * R('Min', c0), al * R('Max', c0)))))
        v.assume(z3.Implies(z3.And(v.n > 0, al > 0), R('SumLogs', c1) == R('SumLogs', c0) + z3.ToReal(v.n) * LOG(al)))
        v.assume(z3.Implies(v.n == 0, z3.And([R(n, c1) == R(n, c0) for n in ('Max', 'Min', 'SumLogs')])))
        v.assume(opt('Scal', [c0, rv(1)]) == c0)

    def mut(name, sig, alias=False):
        def setup(v):
            utag(v)
            v.n = v.int('n')
            v.assume(v.n >= 0)
            v.this = vec(v, 'this', v.n)
            args, nv = [], 0
            for k, c in enumerate(sig):
                if c == 's':
                    args.append(v.real('s%d' % k))
                else:
                    if alias:
                        args.append(v.this)
                    else:
                        p = vec(v, 'x%d' % k, v.n)
                        v.st.wb('x%d' % k).ghost['const'] = True
                        args.append(p)
            v.args = [v.this] + args
            v.terms = [contents(v.st, x) if isinstance(x, Ptr) else x for x in v.args]
            facts(v, name, v.terms)
            return v.args

        def post(v, kind, st, val):
            if not normal(v, kind, st):
                return
            if name == 'AddOneVector':
                a, x, c = v.terms[1:]
                want = opt('AddTwoVectors', [v.terms[0], a, x, rv(0), x, c])
            else:
                want = opt(name, v.terms)
            v.ensure(st, contents(st, v.this) == want, 'the operation is performed once, with these operands')
            same = contents(st, v.this) == contents(v.pre, v.this)
            v.ensure(st, z3.Or(same, as_int(v.get(st, v.this, 'tag_')) >= v.int('unique_tag')), 'the tag is one never used before')
            for n, g in ci(v, st, v.this):
                v.ensure(st, g, 'cached %s is that of the new contents' % n)
            for g in tagsold(v, st, v.this):
                v.ensure(st, g, 'tags were issued before')
            v.frame(st, {('this', '*'), ('$utag', ('g', 'utag'))})
        add('Vector::%s%s' % (name, '[with itself]' if alias else ''), VE + '::' + name, setup, post, models=VMODELS, merge=True)
    for n, s in list(SIG.items()) + [('AddOneVector', 'svs')]:
        mut(n, s)
        if 'v' in s and n not in ('AddTwoVectors', 'AddVectorQuotient', 'AddOneVector'):
            mut(n, s, True)

    def red(name, nargs=0, alias=False):
        def setup(v):
            utag(v)
            v.n = v.int('n')
            v.assume(v.n >= 0)
            v.this = vec(v, 'this', v.n)
            v.args = [v.this]
            if name in ('Dot', 'FracToBound'):
                v.args.append(v.this if alias else vec(v, 'x', v.n))
            if name == 'FracToBound':
                v.args.append(v.real('tau'))
            c = contents(v.st, v.this)
            if alias and name == 'Dot':
                v.assume(redt('Dot', [c, c]) == redt('Nrm2', [c]) * redt('Nrm2', [c]))
            return v.args

        def post(v, kind, st, val):
            if not normal(v, kind, st):
                return
            w = redt(name, [contents(v.pre, x) if isinstance(x, Ptr) else x for x in v.args])
            v.ensure(st, (as_bool(val) if name == 'HasValidNumbers' else val) == w, 'the value for the current contents is returned')
            for n, g in ci(v, st, v.this):
                v.ensure(st, g, 'cached %s is that of the contents' % n)
            for g in tagsold(v, st, v.this):
                v.ensure(st, g, 'tags were issued before')
            v.ensure(st, contents(st, v.this) == contents(v.pre, v.this), 'contents unchanged')
            v.frame(st, {('this', v.off(VE, k)) for _, a, b in CACHES for k in (a, b)})
        add('Vector::%s%s' % (name, '[with itself]' if alias else ''), VE + '::' + name, setup, post, models=VMODELS, merge=True)
    for n in list(RED) + ['HasValidNumbers', 'Dot', 'FracToBound']:
        red(n)
    red('Dot', alias=True)

    # constructor: nothing is cached
    def setup(v):
        utag(v)
        v.n = v.int('n')
        p = v.obj(VE, 'this')
        v.this = p
        v.space = v.obj('Ipopt::VectorSpace', 'space', dim_=v.n)
        return [p, v.space]

    def post(v, kind, st, val):
        if not normal(v, kind, st):
            return
        st.wb('this').ghost['contents'] = v.int('any contents')
        for n, g in ci(v, st, v.this):
            v.ensure(st, g, 'no %s is cached yet' % n)
        for g in tagsold(v, st, v.this):
            v.ensure(st, g, 'tags were issued before')
    add('Vector::Vector', VE + '::Vector', setup, post, models=VMODELS, merge=True)

    # ---- observers and subjects
    def ghost(v, **c):
        b = Block('ghost', 'rec')
        b.cells.update(c)
        v.st.add(b)

    def pvec(v, owner, field, cls, fam, n, elem=None):
        """std::vector of pointers"""
        b = Block('%s.%s' % (owner, field), 'arr', S=8, n=n, lazy=True)
        b.fields[0] = elem if elem is not None else FamVal(Ptr(fam, 0, ((1000, J),), FALSE))
        v.st.add(b)
        v.st.wb(owner).cells[v.off(cls, field) if cls else 0] = Ptr(b.id)
        return Ptr(b.id)

    def fam(v, name, cls, n, **g):
        b = Block(name, 'arr', cls=cls, S=1000, n=n, lazy=True, tag='fam')
        b.ghost.update(g)
        v.st.add(b)
        return b

    def subject(v):
        v.this = v.subject = v.obj(SU, 'this')
        v.n = v.int('nobs')
        v.assume(v.n >= 0)
        fam(v, 'obs', OB, v.n, **{'told[]': FALSE})
        pvec(v, 'this', 'observers_', SU, 'obs', v.n)

    def told(v, st):
        j = v.skolem()
        v.ensure(st, z3.Implies(z3.And(j >= 0, j < v.n), z3.substitute(st.mem['obs'].ghost['told[]'], (J, j))), 'every observer is told')

    def s_notify(v):
        subject(v)
        v.ntype = v.int('type')
        return [v.this, v.ntype]

    def p_notify(v, kind, st, val):
        if normal(v, kind, st):
            told(v, st)
            v.frame(st, {('obs', ('g', 'told[]'))})
    add('Subject::Notify', SU + '::Notify', s_notify, p_notify, models=OBS)

    def s_sdtor(v):
        subject(v)
        v.ntype = iv(NT['NT_BeingDestroyed'])
        return [v.this]

    def p_sdtor(v, kind, st, val):
        if normal(v, kind, st):
            told(v, st)
    NT = {'NT_All': 0, 'NT_BeingDestroyed': 1, 'NT_Changed': 2}
    add('Subject::~Subject', SU + '::~Subject', s_sdtor, p_sdtor, models=OBS)

    def observer(v, attached):
        """an observer of n subjects; the subject at position pos is the one the call is about"""
        ghost(v, received=iv(0), type=iv(-1))
        v.this = v.obj(OB, 'this')
        v.n, v.pos = v.int('nsubj'), v.int('pos')
        v.assume(v.n >= 0)
        fam(v, 'subjs', SU, v.n)
        v.subject = v.obj(SU, 'subject')
        base = FamVal(Ptr('subjs', 0, ((1000, J),), FALSE))
        if attached:
            v.assume(z3.And(v.pos >= 0, v.pos < v.n))
            base = PtrMap(base, [(v.pos, v.subject)])
        pvec(v, 'this', 'subjects_', OB, 'subjs', v.n, base)
        v.m, v.opos = v.int('nobs'), v.int('opos')
        v.assume(v.m >= 0)
        fam(v, 'obs', OB, v.m)
        ob = FamVal(Ptr('obs', 0, ((1000, J),), FALSE))
        if attached:
            v.assume(z3.And(v.opos >= 0, v.opos < v.m))
            ob = PtrMap(ob, [(v.opos, v.this)])
        pvec(v, 'subject', 'observers_', SU, 'obs', v.m, ob)
        v.t = v.int('type')
        return v.this

    def lists(v, st, which, goal):
        """elements of subjects_ of the observer (which=0) or observers_ of the subject (1)"""
        own, fld, cls = (('this', 'subjects_', OB), ('subject', 'observers_', SU))[which]
        d = stl.vdata(v.ex, st, Ptr(own, v.off(cls, fld)))
        return st.mem[d.b].n, lambda s, j: stl.psel(v.ex, s, st.mem[d.b].fields[0], j)

    def keep(v, st, which, n, removed=None):
        """other elements stay in order"""
        n1, at = lists(v, st, which, None)
        fm = ('subjs', 'obs')[which]
        j = v.skolem()
        if removed is None:
            s = st.fork()
            s.assume(z3.And(j >= 0, j < n))
            v.ensure(s, v.ex.pcmp(s, 'eq', at(s, j), Ptr(fm, 0, ((1000, j),))), 'the others stay')
        else:
            s = st.fork()
            s.assume(z3.And(j >= 0, j < removed))
            v.ensure(s, v.ex.pcmp(s, 'eq', at(s, j), Ptr(fm, 0, ((1000, j),))), 'those before stay')
            s = st.fork()
            s.assume(z3.And(j >= removed, j < n - 1))
            v.ensure(s, v.ex.pcmp(s, 'eq', at(s, j), Ptr(fm, 0, ((1000, j + 1),))), 'those after move up')

    def s_att(v):
        return [observer(v, False), v.t, v.subject]

    def p_att(v, kind, st, val):
        if not normal(v, kind, st):
            return
        for w, n, new in ((0, v.n, v.subject), (1, v.m, v.this)):
            n1, at = lists(v, st, w, None)
            v.ensure(st, n1 == n + 1, 'one is added')
            v.ensure(st, v.ex.pcmp(st, 'eq', at(st, n), new), 'both know of each other')
            keep(v, st, w, n)
        v.frame(st, {('this.subjects_', '*'), ('subject.observers_', '*')})
    add('Observer::RequestAttach', OB + '::RequestAttach', s_att, p_att, models=OBS)

    def s_det(v):
        return [observer(v, True), v.t, v.subject]

    def p_det(v, kind, st, val):
        if not normal(v, kind, st):
            return
        for w, n, r in ((0, v.n, v.pos), (1, v.m, v.opos)):
            n1, at = lists(v, st, w, None)
            v.ensure(st, n1 == n - 1, 'one is removed')
            keep(v, st, w, n, r)
        v.frame(st, {('this.subjects_', '*'), ('subject.observers_', '*')})
    add('Observer::RequestDetach', OB + '::RequestDetach', s_det, p_det, models=OBS)

    def p_pn(v, kind, st, val):
        if not normal(v, kind, st):
            return
        g = st.mem['ghost'].cells
        v.ensure(st, z3.And(g['received'] == 1, g['type'] == v.t), 'the observer is told once')
        n1, at = lists(v, st, 0, None)
        d = v.t == NT['NT_BeingDestroyed']
        v.ensure(st, n1 == z3.If(d, v.n - 1, v.n), 'a subject that goes away is forgotten')
        s1 = st.fork()
        s1.assume(d)
        if v.ex.feasible(s1, TRUE):
            keep(v, s1, 0, v.n, v.pos)
        v.frame(st, {('this.subjects_', '*'), ('ghost', '*')})
    add('Observer::ProcessNotification', OB + '::ProcessNotification', s_det, p_pn, models=OBS)

    def s_odtor(v):
        ghost(v, removed=iv(0))
        v.this = v.obj(OB, 'this')
        v.n = v.int('nsubj')
        v.assume(v.n >= 0)
        fam(v, 'subjs', SU, v.n, **{'det[]': FALSE})
        pvec(v, 'this', 'subjects_', OB, 'subjs', v.n)
        return [v.this]

    def p_odtor(v, kind, st, val):
        if normal(v, kind, st):
            j = v.skolem()
            v.ensure(st, z3.Implies(z3.And(j >= 0, j < v.n), z3.substitute(st.mem['subjs'].ghost['det[]'], (J, j))), 'an observer detaches from every subject before it goes away')
    add('Observer::~Observer', OB + '::~Observer', s_odtor, p_odtor, models=DET)

    # ---- one cached result
    def depvec(v, nul):
        v.nd, v.ns = v.int('ndeps'), v.int('nscalars')
        v.assume(z3.And(v.nd >= 0, v.ns >= 0))
        fam(v, 'deps', TO, v.nd, **{'att[]': FALSE})
        v.nul = z3.Function('dep_null', IntS, BoolS)
        v.obj(None, 'depvec')
        pvec(v, 'depvec', 'data', None, 'deps', v.nd, FamVal(Ptr('deps', 0, ((1000, J),), v.nul(J) if nul else FALSE)))
        v.obj(None, 'scalvec')
        d = v.arr('scals', v.ns)
        v.st.wb('scalvec').cells[0] = d
        v.sc = v.body(v.st, d)
        ft = v.off(TO, 'tag_')
        v.T = z3.Function('dep_tag', IntS, IntS)
        v.st.wb('deps').fields[ft] = v.T(J)

    def s_di(v):
        depvec(v, True)
        v.this = v.obj(DR, 'this')
        v.kt, v.ks = v.int('ntags'), v.int('nstored')
        v.assume(z3.And(v.kt >= 0, v.ks >= 0))
        d = v.arr('tags', v.kt, 4, 'i32')
        v.st.wb('this').cells[v.off(DR, 'dependent_tags_')] = d
        v.tags = v.body(v.st, d, 'i32')
        d = v.arr('stored', v.ks)
        v.st.wb('this').cells[v.off(DR, 'scalar_dependents_')] = d
        v.stored = v.body(v.st, d)
        return [v.this, Ptr('depvec'), Ptr('scalvec')]

    def p_di(v, kind, st, val):
        if not normal(v, kind, st):
            return
        val = as_bool(val)
        T = v.T
        i = z3.Int('i')
        want = lambda j: z3.If(v.nul(j), iv(0), T(j))
        v.ensure(st, z3.Implies(val, z3.And(v.nd == v.kt, v.ns == v.ks)), 'found only with the same number of dependencies')
        j = v.skolem()
        v.ensure(st, z3.Implies(z3.And(val, j >= 0, j < v.nd), as_int(v.tags(j)) == want(j)), 'found only if every tag agrees (0 for a dependency that is not there)')
        v.ensure(st, z3.Implies(z3.And(val, j >= 0, j < v.ns), v.stored(j) == v.sc(j)), 'found only if every number agrees')
        bad = z3.Or(v.nd != v.kt, v.ns != v.ks, z3.Exists([i], z3.And(i >= 0, i < v.nd, as_int(v.tags(i)) != want(i))), z3.Exists([i], z3.And(i >= 0, i < v.ns, v.stored(i) != v.sc(i))))
        v.ensure(st, z3.Implies(z3.Not(val), bad), 'found if all dependencies agree')
        v.frame(st, set())
    add('DependentResult::DependentsIdentical', DR + '::DependentsIdentical', s_di, p_di, models=DEPM)

    def s_dctor(v):
        depvec(v, True)
        v.this = v.obj(DR, 'this', lazy=False)
        v.res = v.real('result')
        return [v.this, v.cell('res', v.res), Ptr('depvec'), Ptr('scalvec')]

    def p_dctor(v, kind, st, val):
        if not normal(v, kind, st):
            return
        T = v.T
        j = v.skolem()
        td = stl.vdata(v.ex, st, Ptr('this', v.off(DR, 'dependent_tags_')))
        sd = stl.vdata(v.ex, st, Ptr('this', v.off(DR, 'scalar_dependents_')))
        v.ensure(st, z3.And(st.mem[td.b].n == v.nd, st.mem[sd.b].n == v.ns), 'all dependencies are stored')
        R = z3.And(j >= 0, j < v.nd)
        v.ensure(st, z3.Implies(R, as_int(v.body(st, td, 'i32')(j)) == z3.If(v.nul(j), iv(0), T(j))), 'tag of every dependency (0 for one that is not there)')
        v.ensure(st, z3.Implies(z3.And(j >= 0, j < v.ns), v.body(st, sd)(j) == v.sc(j)), 'numbers are stored')
        v.ensure(st, z3.Implies(z3.And(R, z3.Not(v.nul(j))), z3.substitute(st.mem['deps'].ghost['att[]'], (J, j))), 'every dependency is observed')
        v.ensure(st, v.get(st, v.this, 'result_') == v.res, 'the result is stored')
        v.ensure(st, z3.Not(as_bool(v.get(st, v.this, 'stale_'))), 'a new result is not stale')
    add('DependentResult::DependentResult', lambda m: pick(m, DR + '::DependentResult', 'vector'), s_dctor, p_dctor, models=DEPM)

    def s_recv(v):
        v.this = v.obj(DR, 'this', stale_=v.bool('stale'))
        v.t = v.int('type')
        return [v.this, v.t, v.obj(SU, 'subject')]

    def p_recv(v, kind, st, val):
        if not normal(v, kind, st):
            return
        s1 = as_bool(v.get(st, v.this, 'stale_'))
        v.ensure(st, z3.Implies(z3.Or(v.t == NT['NT_Changed'], v.t == NT['NT_BeingDestroyed']), s1), 'a result becomes stale when a dependency changes or goes away')
        v.ensure(st, z3.Implies(v.bool('stale'), s1), 'a stale result stays stale')
        v.frame(st, {('this', v.off(DR, 'stale_'))})
    add('DependentResult::ReceiveNotification', DR + '::ReceiveNotification', s_recv, p_recv, models=DEPM)

    def s_one(v):
        v.this = v.obj(DR, 'this', stale_=v.bool('stale'), result_=v.real('result'))
        return [v.this]

    def p_isst(v, kind, st, val):
        if normal(v, kind, st):
            v.ensure(st, as_bool(val) == v.bool('stale'), 'tells whether it is stale')
            v.frame(st, set())

    def p_inv(v, kind, st, val):
        if normal(v, kind, st):
            v.ensure(st, as_bool(v.get(st, v.this, 'stale_')), 'is stale')
            v.frame(st, {('this', v.off(DR, 'stale_'))})

    def p_res(v, kind, st, val):
        if normal(v, kind, st):
            v.ensure(st, v.ex.load(st, val, 'double') == v.real('result'), 'the stored result')
            v.frame(st, set())
    add('DependentResult::IsStale', DR + '::IsStale', s_one, p_isst)
    add('DependentResult::Invalidate', DR + '::Invalidate', s_one, p_inv)
    add('DependentResult::GetResult', DR + '::GetResult', s_one, p_res)

    # ---- the list of cached results
    def cache(v, nullable=True):
        ghost(v)
        v.this = v.obj(CR, 'this')
        v.n, v.mx = v.int('nentries'), v.int('max_cache_size')
        v.assume(v.n >= 0)
        # the list is kept small enough
        v.assume(z3.Implies(v.mx >= 0, v.n <= v.mx))
        b = Block('entries', 'arr', cls=DR, S=200, n=v.n, lazy=True, tag='fam')
        v.st.add(b)
        l = v.obj(None, 'list')
        stl.mklist(v.st, l, 'nodes', iv(0), v.n, FamVal(Ptr('entries', 0, ((200, J),))))
        v.isnull = v.bool('list.null') if nullable else FALSE
        v.set(v.st, v.this, 'max_cache_size_', v.mx)
        v.st.wb('this').cells[v.off(CR, 'cached_results_')] = v.nullable(l, v.isnull) if nullable else l
        v.obj(None, 'deps')
        v.obj(None, 'scalars')
        o = v.off(DR, 'stale_')
        st0 = v.st
        b = st0.wb('entries')
        v.STL = z3.Function('stale', IntS, BoolS)
        b.fields[o] = v.STL(J)
        v.RES = z3.Function('result', IntS, RealS)
        b.fields[v.off(DR, 'result_')] = v.RES(J)
        return v.this

    def rel(st, j):
        return z3.substitute(st.mem['entries'].ghost.get('rel[]', FALSE), (J, j))

    def thelist(v, st):
        l = st.mem['this'].cells[v.off(CR, 'cached_results_')]
        return stl.lparts(v.ex, st, Ptr(l.b, l.c))

    def s_clean(v):
        return [cache(v)]

    def p_clean(v, kind, st, val):
        if not normal(v, kind, st):
            return
        d, lo, hi = thelist(v, st)
        v.ensure(st, z3.And(lo == 0, hi == v.n), 'nothing is added')
        j = v.skolem()
        R = z3.And(z3.Not(v.isnull), j >= 0, j < v.n)
        v.ensure(st, z3.Implies(R, stl.alive(v.ex, st, d, j) == z3.Not(v.STL(j))), 'exactly the stale results are taken out of the list')
        v.ensure(st, z3.Implies(R, rel(st, j) == v.STL(j)), 'exactly the stale results are released')
        v.frame(st, {('nodes', '*'), ('entries', ('g', 'rel[]')), ('list', '*')})
    add('CachedResults::CleanupInvalidatedResults', CR + '::CleanupInvalidatedResults', s_clean, p_clean, models=CACHE)

    def s_get(v):
        cache(v)
        return [v.this, v.cell('result', v.real('before')), Ptr('deps'), Ptr('scalars')]

    def p_get(v, kind, st, val):
        if not normal(v, kind, st):
            return
        val = as_bool(val)
        r = v.ex.load(st, Ptr('result'), 'double')
        i = z3.Int('i')
        good = lambda i: z3.And(i >= 0, i < v.n, MATCH(i), z3.Not(v.STL(i)))
        v.ensure(st, z3.Implies(val, z3.And(z3.Not(v.isnull), z3.Exists([i], z3.And(good(i), v.RES(i) == r)))), 'a result returned is that of an entry with the same dependencies none of which has changed')
        j = v.skolem()
        inv = st.mem['ghost'].ghost.get('inv')
        hint = TRUE if inv is None else inv(j) == inv(j)
        v.ensure(st, z3.Implies(z3.And(z3.Not(val), z3.Not(v.isnull), hint), z3.Not(good(j))), 'an entry with the same dependencies is found')
        v.ensure(st, z3.Implies(z3.Not(val), r == v.real('before')), 'otherwise nothing is returned')
    add('CachedResults::GetCachedResult', lambda m: pick(m, CR + '::GetCachedResult', 'std::vector<double'), s_get, p_get, models=CACHE2)

    def s_inval(v):
        cache(v)
        return [v.this, Ptr('deps'), Ptr('scalars')]

    def p_inval(v, kind, st, val):
        if not normal(v, kind, st):
            return
        i = z3.Int('i')
        val = as_bool(val)
        o = v.off(DR, 'stale_')
        f = st.mem['entries'].fields[o]
        stl1 = lambda j: as_bool(z3.substitute(f, (J, j)))
        good = lambda i: z3.And(i >= 0, i < v.n, MATCH(i), z3.Not(v.STL(i)))
        v.ensure(st, z3.Implies(val, z3.Exists([i], z3.And(good(i), stl1(i)))), 'the entry found becomes stale')
        j = v.skolem()
        v.ensure(st, z3.Implies(z3.And(j >= 0, j < v.n, v.STL(j)), stl1(j)), 'stale entries stay stale')
        v.ensure(st, z3.Implies(z3.And(z3.Not(val), z3.Not(v.isnull)), z3.Not(good(j))), 'an entry with the same dependencies is found')
        v.ensure(st, z3.Implies(z3.And(j >= 0, j < v.n, stl1(j)), z3.Or(v.STL(j), MATCH(j))), 'other entries stay')
    add('CachedResults::InvalidateResult', CR + '::InvalidateResult', s_inval, p_inval, models=CACHE2)

    def s_clear(v):
        cache(v)
        return [v.this]

    def p_clear(v, kind, st, val):
        if not normal(v, kind, st):
            return
        s2 = st.fork()
        s2.assume(z3.Not(v.isnull))
        if v.ex.feasible(s2, TRUE):
            d, lo, hi = thelist(v, s2)
            v.ensure(s2, lo == hi, 'no result is left')
    add('CachedResults::Clear', lambda m: pick(m, CR + '::Clear', '()'), s_clear, p_clear, models=CACHE2)

    def s_addr(v):
        cache(v)
        return [v.this, v.cell('result', v.real('new result')), Ptr('deps'), Ptr('scalars')]

    def p_addr(v, kind, st, val):
        if not normal(v, kind, st):
            return
        d, lo, hi = thelist(v, st)
        v.ensure(st, z3.Implies(v.mx >= 0, hi - lo <= v.mx), 'the list is kept small enough')
        s2 = st.fork()
        s2.assume(z3.Or(v.mx < 0, v.mx > 0))
        if v.ex.feasible(s2, TRUE):
            e = stl.lelem(v.ex, s2, d, lo)
            ok = isinstance(e, Ptr) and 'entry' in s2.mem[e.b].ghost and s2.mem[e.b].live
            v.ensure(s2, z3.BoolVal(ok), 'the new result is in the list')
            if ok:
                v.ensure(s2, s2.mem[e.b].ghost['entry'] == v.real('new result'), 'the result is stored')
            # nothing in the list has been released
            j = v.skolem()
            s2.assume(z3.And(j > lo, j < hi))
            if v.ex.feasible(s2, TRUE):
                q = stl.lelem(v.ex, s2, d, j)
                v.ensure(s2, z3.And(z3.BoolVal(q.b == 'entries')), 'other entries stay')
                if q.b == 'entries':
                    i = famidx(v.ex, s2, q)
                    v.ensure(s2, z3.Not(rel(s2, i)), 'entries of the list are not released')
                    v.ensure(s2, z3.Not(v.STL(i)), 'stale results are gone')
    add('CachedResults::AddCachedResult', lambda m: pick(m, CR + '::AddCachedResult', 'std::vector<double'), s_addr, p_addr, models=CACHE2)

    # ---- wrappers
    def wrapper(k, getter, refs):
        nm = ('Get' if getter else 'Add') + 'CachedResult%dDep' % k
        sig = 'TaggedObject const' + ('&' if refs else '*')

        def setup(v):
            ghost(v, called=iv(0), nscalar=iv(0))
            v.this = v.obj(CR, 'this')
            v.deps = [v.obj(TO, 'd%d' % i) for i in range(k)]
            if not refs:
                v.deps = [v.nullable(p, v.bool('null%d' % i)) for i, p in enumerate(v.deps)]
            return [v.this, v.cell('result', v.real('before'))] + v.deps

        def post(v, kind, st, val):
            if not normal(v, kind, st):
                return
            g = st.mem['ghost']
            v.ensure(st, z3.And(g.cells['called'] == 1, g.cells['nscalar'] == 0), 'the general form is called')
            ds = g.ghost.get('deps', [])
            v.ensure(st, z3.BoolVal(len(ds) == k), 'all dependencies are passed on')
            if len(ds) == k:
                for x, y in zip(ds, v.deps):
                    v.ensure(st, v.ex.pcmp(st, 'eq', x, y), 'each dependency is passed on in its place')
            r = v.ex.load(st, Ptr('result'), 'double')
            if getter:
                v.ensure(st, z3.And(as_bool(val) == z3.Bool('found'), r == z3.If(z3.Bool('found'), z3.Real('cached'), v.real('before'))), 'the result is passed on')
            else:
                v.ensure(st, g.ghost.get('result', rv(0)) == v.real('before'), 'the result is passed on')
        add('CachedResults::%s(%s)' % (nm, 'references' if refs else 'pointers'), lambda m: pick(m, CR + '::' + nm, sig), setup, post, models=WRAP)
    for k in (1, 2, 3):
        for getter in (True, False):
            for refs in (True, False):
                wrapper(k, getter, refs)

    # ---- tags
    def s_chg(v):
        v.this = v.subject = v.obj(TO, 'this')
        v.subject = v.this.add(v.mod.baseoff(TO, SU))
        v.n = v.int('nobs')
        v.assume(v.n >= 0)
        fam(v, 'obs', OB, v.n, **{'told[]': FALSE})
        b = Block('this.observers_', 'arr', S=8, n=v.n, lazy=True)
        b.fields[0] = FamVal(Ptr('obs', 0, ((1000, J),), FALSE))
        v.st.add(b)
        v.st.wb('this').cells[v.off(TO, 'observers_')] = Ptr(b.id)
        v.ntype = iv(NT['NT_Changed'])
        return [v.this]

    def p_chg(v, kind, st, val):
        if not normal(v, kind, st):
            return
        told(v, st)
        g = [b for b in st.mem if 'unique_tag' in b]
        v.ensure(st, z3.BoolVal(len(g) == 1), 'one counter')
        if len(g) == 1:
            u1 = as_int(v.ex.load(st, Ptr(g[0]), 'i32'))
            t1 = as_int(v.get(st, v.this, 'tag_'))
            u0 = v.pre.mem[g[0]].cells.get(0) if g[0] in v.pre.mem else None
            v.ensure(st, u1 > t1, 'the next tag issued is a larger one')
            v.ensure(st, z3.BoolVal(True) if u0 is None else t1 >= as_int(u0), 'the tag was not issued before')
            v.frame(st, {('obs', ('g', 'told[]')), ('this', v.off(TO, 'tag_')), (g[0], '*')})
    add('TaggedObject::ObjectChanged', TO + '::ObjectChanged', s_chg, p_chg, models=OBS)

    # ---- whatever changes an object marks it as changed
    def changes(cls, meth, mk, pre=None, sub='', sret=False):
        c = 'Ipopt::' + cls

        def setup(v):
            utag(v)
            v.this = v.obj(c, 'this')
            v.set(v.st, v.this, 'tag_', v.int('tag'))
            v.assume(z3.And(v.int('tag') >= 0, v.int('tag') < v.int('unique_tag')))
            if pre:
                pre(v)
            a = mk(v)
            return ([v.obj(None, '$sret')] if sret else []) + [v.this] + a

        def post(v, kind, st, val):
            if normal(v, kind, st):
                v.ensure(st, as_int(v.get(st, v.this, 'tag_')) >= v.int('unique_tag'), 'the object is marked as changed')
        nm = c + '::' + meth
        add('%s::%s changes the tag' % (cls, meth), (lambda m: nonconst(m, nm)) if not sub else (lambda m: pick(m, nm, sub)), setup, post, models=CHG, merge=True)

    def nonconst(m, nm):
        r = [f for f in m.find(nm) if not f.dem.endswith(' const')]
        if len(r) != 1:
            raise ir.ExtractError('%s: %d' % (nm, len(r)))
        return r[0]
    V1 = lambda cls='Ipopt::Vector': (lambda v: [v.obj(cls, 'arg')])
    SP = lambda cls: (lambda v: [sp(v, cls)])

    def sp(v, cls):
        o = v.obj(cls, 'arg')
        return v.cell('argptr', o)
    changes('DiagMatrix', 'SetDiag', V1())
    changes('IdentityMatrix', 'SetFactor', lambda v: [v.real('factor')])
    for m in ('SetDiag', 'SetV', 'SetU'):
        changes('LowRankUpdateSymMatrix', m, V1('Ipopt::Vector' if m == 'SetDiag' else 'Ipopt::MultiVectorMatrix'))
    for cl, a in (('ScaledMatrix', 'Ipopt::Matrix'), ('SymScaledMatrix', 'Ipopt::SymMatrix')):
        changes(cl, 'SetUnscaledMatrix', SP(a))
        changes(cl, 'SetUnscaledMatrixNonConst', SP(a))
        changes(cl, 'GetUnscaledMatrixNonConst', lambda v: [], sret=True)

    def vecs(cls, *flds):
        def pre(v):
            v.nc = v.int('ncomps')
            v.i = v.int('icomp')
            v.assume(z3.And(v.i >= 0, v.i < v.nc))
            fam(v, 'comp', VE, v.nc)
            for f in flds:
                pvec(v, 'this', f, 'Ipopt::' + cls, 'comp', v.nc)
        return pre
    for m in ('SetComp', 'SetCompNonConst'):
        changes('CompoundVector', m, lambda v: [v.i, v.obj(VE, 'arg')], vecs('CompoundVector', 'comps_', 'const_comps_'))
    changes('CompoundVector', 'GetCompNonConst', lambda v: [v.i], vecs('CompoundVector', 'comps_', 'const_comps_'), sret=True)
    for m in ('SetVector', 'SetVectorNonConst'):
        changes('MultiVectorMatrix', m, lambda v: [v.i, v.obj(VE, 'arg')], vecs('MultiVectorMatrix', 'non_const_vecs_', 'const_vecs_'))
    changes('ExpandedMultiVectorMatrix', 'SetVector', lambda v: [v.i, sp(v, VE)], vecs('ExpandedMultiVectorMatrix', 'vecs_'))

    def values(cls):
        def pre(v):
            v.nv = v.int('nonzeros')
            v.assume(v.nv >= 0)
            v.set(v.st, v.this, 'values_', v.arr('vals', v.nv))
            o = v.obj('Ipopt::' + cls + 'Space', 'space')
            v.st.wb('this').cells[v.off('Ipopt::' + cls, 'owner_space_')] = o
            v.st.wb('this').cells[v.mod.fieldoff('Ipopt::Vector' if cls == 'DenseVector' else 'Ipopt::Matrix', 'owner_space_')[0]] = o
            v.set(v.st, o, 'dim_' if cls == 'DenseVector' else 'nonZeros_', v.nv)
        return pre
    for cl in ('GenTMatrix', 'SymTMatrix', 'DenseVector'):
        changes(cl, 'SetValues', lambda v: [v.arr('newvals', v.nv)], values(cl))
        changes(cl, 'Values', lambda v: [], values(cl))

    def mpre(v, p, val=True):
        t = v.int('tag')
        ct = v.int('ctag')
        cv = v.bool('cvalid')
        v.set(v.st, p, 'tag_', t)
        v.set(v.st, p, 'valid_cache_tag_', ct)
        v.set(v.st, p, 'cached_valid_', cv)
        v.st.wb(p.b).ghost['contents'] = v.int('contents')
        v.assume(z3.Implies(ct == t, cv == redt('HasValidNumbers', [v.int('contents')])))

    def s_mv(v):
        v.this = v.obj('Ipopt::Matrix', 'this')
        mpre(v, v.this)
        return [v.this]

    def p_mv(v, kind, st, val):
        if normal(v, kind, st):
            w = redt('HasValidNumbers', [v.int('contents')])
            v.ensure(st, as_bool(val) == w, 'the value for the current matrix is returned')
            v.ensure(st, z3.Implies(as_int(v.get(st, v.this, 'valid_cache_tag_')) == v.int('tag'), as_bool(v.get(st, v.this, 'cached_valid_')) == w), 'the cached value is that of the matrix')
            v.frame(st, {('this', v.off('Ipopt::Matrix', k)) for k in ('valid_cache_tag_', 'cached_valid_')})
    add('Matrix::HasValidNumbers', 'Ipopt::Matrix::HasValidNumbers', s_mv, p_mv)

    def s_mc(v):
        utag(v)
        v.this = v.obj('Ipopt::Matrix', 'this')
        return [v.this, v.obj('Ipopt::MatrixSpace', 'space')]

    def p_mc(v, kind, st, val):
        if normal(v, kind, st):
            v.ensure(st, as_int(v.get(st, v.this, 'valid_cache_tag_')) < as_int(v.get(st, v.this, 'tag_')), 'nothing is cached yet')
    add('Matrix::Matrix', 'Ipopt::Matrix::Matrix', s_mc, p_mc)

    def s_tag(v):
        v.this = v.obj(TO, 'this', tag_=v.int('tag'))
        return [v.this]

    def p_tag(v, kind, st, val):
        if normal(v, kind, st):
            v.ensure(st, as_int(val) == v.int('tag'), 'the tag')
            v.frame(st, set())
    add('TaggedObject::GetTag', TO + '::GetTag', s_tag, p_tag)
    return out


def pick(m, name, sub):
    r = [f for f in m.find(name) if sub in f.dem[len(name):]]
    if len(r) != 1:
        raise ir.ExtractError('%s(%s): %d' % (name, sub, len(r)))
    return r[0]
