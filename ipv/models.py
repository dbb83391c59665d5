"""contracts of callees: trusted externals (BLAS, libc, C++ runtime, STL views) and user registered contracts"""
import z3, re
from engine import *
from engine import _uid
from exe import *
from exe import SQRT, LOG, POW, EXP
import exe


def fkey(dem):
    """qualified name without return type, template function return type and arguments"""
    s = dem
    # cut the argument list: the first '(' at template depth 0 that is not part of operator()
    d = 0
    i = 0
    n = len(s)
    cut = n
    while i < n:
        c = s[i]
        if s.startswith('operator', i) and (i == 0 or not (s[i - 1].isalnum() or s[i - 1] == '_')):
            m = re.match(r'operator(\(\)|\[\]|<<=|>>=|->\*|->|<=>|<<|>>|<=|>=|==|!=|\+\+|--|&&|\|\||[-+*/%^&|~!=<>,]=?| new\[\]| delete\[\]| new| delete| )', s[i:])
            if m:
                i += m.end()
                continue
        if c == '<':
            d += 1
        elif c == '>':
            d -= 1
        elif c == '(' and d == 0:
            if s.startswith('(anonymous namespace)', i):
                i += len('(anonymous namespace)')
                continue
            cut = i
            break
        i += 1
    s = s[:cut]
    # drop return type: last space at depth 0 that is not inside operator
    d = 0
    last = -1
    i = 0
    while i < len(s):
        c = s[i]
        if s.startswith('operator', i) and (i == 0 or not (s[i - 1].isalnum() or s[i - 1] == '_')):
            break
        if c == '<' or c == '(':
            d += 1
        elif c == '>' or c == ')':
            d -= 1
        elif c == ' ' and d == 0:
            last = i
        i += 1
    return s[last + 1:]


class Model:
    __slots__ = ('title', 'f', 'kind', 'note')

    def __init__(self, title, f, kind, note=''):
        self.title, self.f, self.kind, self.note = title, f, kind, note


class Models:
    def __init__(self, parent=None):
        self.exact = {}
        self.rx = []
        self.virt = {}
        self.virtrx = []
        self.parent = parent
        self.hide = []       # models of the parent that this one does not use
        self.tids = {}
        self.cache = {}
        self.fp = None

    def child(self):
        return Models(self)

    def reg(self, names, kind='trusted', note=''):
        """decorator: register f(ex, st, args, ins) -> list of (kind, st, val) for function key(s)"""
        if isinstance(names, str):
            names = [names]

        def d(f):
            for n in names:
                m = Model(n, f, kind, note)
                if n.startswith('re:'):
                    self.rx.append((re.compile(n[3:]), m))
                else:
                    self.exact[n] = m
            return f
        return d

    def regv(self, cls, meths, kind='interface', note=''):
        if isinstance(meths, str):
            meths = [meths]

        def d(f):
            for m in meths:
                self.virt[(cls, m)] = Model('virtual %s::%s' % (cls, m), f, kind, note)
            return f
        return d

    def lookup(self, ex, name, dem, st, args):
        m = self.cache.get(name, 0)
        if m != 0:
            return m
        m = self._lookup(name, dem)
        self.cache[name] = m
        return m

    def _lookup(self, name, dem):
        m = self.exact.get(name) or self.exact.get(dem)
        if m:
            return m
        k = fkey(dem)
        m = self.exact.get(k)
        if m:
            return m
        for r, m in self.rx:
            if r.match(k) or r.match(dem):
                return m
        if self.parent:
            m = self.parent._lookup(name, dem)
            return None if m is not None and any(h in m.title for h in self.hide) else m
        return None

    def virtual(self, ex, st, vm, args, ins):
        c = vm.cls
        p = self
        while p:
            m = p.virt.get((c, vm.meth))
            if m:
                ex.used_models.add(m.title)
                return m.f(ex, st, args, ins)
            p = p.parent
        raise Unsupported('virtual call %s::%s has no interface contract' % (c, vm.meth))

    def funptr(self, ex, st, p, blk, args, ins):
        x = self
        while x:
            if x.fp:
                r = x.fp(ex, st, p, blk, args, ins)
                if r is not None:
                    return r
            x = x.parent
        return None

    def typeid(self, name):
        r = self
        while r.parent:
            r = r.parent
        if name not in r.tids:
            r.tids[name] = len(r.tids) + 1
        return r.tids[name]

    def exc_matches(self, mod, ti, clause):
        """is class with typeinfo symbol ti derived from clause?"""
        if ti == clause:
            return True
        if ti is None or ti == '?':
            return False
        bases = self.ti_bases(mod, ti)
        return any(self.exc_matches(mod, b, clause) for b in bases)

    STDTI = {'_ZTISt9bad_alloc': ['_ZTISt9exception'], '_ZTISt12out_of_range': ['_ZTISt11logic_error'], '_ZTISt11logic_error': ['_ZTISt9exception'],
             '_ZTISt13runtime_error': ['_ZTISt9exception'], '_ZTISt14overflow_error': ['_ZTISt13runtime_error'], '_ZTISt12length_error': ['_ZTISt11logic_error']}

    def ti_bases(self, mod, ti):
        if ti in self.STDTI:
            return self.STDTI[ti]
        g = mod.globals.get(ti)
        if g is None:
            return []
        init = g[0]['i']
        if init[0] != 'st':
            return []
        return [e[1] for _, e in init[1][2:] if e[0] == 'g']

    def ghostvars(self, blk, name):
        r = set()
        if name == 'rel[]':
            return {'$J'}
        if blk.tag == 'fam':
            r.add('$I')
        if name.endswith('[]'):
            r.add('$J')
        return r


BASE = Models()
reg = BASE.reg


def ret(st, v=None):
    return [('ret', st, v)]


# ---------------------------------------------------------------- intrinsics and libm

@reg(['llvm.fabs.f64', 'std::abs', 'fabs', 'std::fabs', 'abs'], 'intrinsic')
def m_fabs(ex, st, a, ins):
    x = a[0]
    return ret(st, z3.simplify(z3.If(x >= 0, x, -x)))


@reg(['sqrt', 'std::sqrt', 'llvm.sqrt.f64'], 'uninterpreted')
def m_sqrt(ex, st, a, ins):
    return ret(st, SQRT(a[0]))


@reg(['log', 'std::log', 'llvm.log.f64'], 'uninterpreted')
def m_log(ex, st, a, ins):
    return ret(st, LOG(a[0]))


@reg(['log10', 'std::log10', 'llvm.log10.f64'], 'uninterpreted')
def m_log10(ex, st, a, ins):
    return ret(st, z3.Function('log10', RealS, RealS)(a[0]))


@reg(['exp', 'std::exp', 'llvm.exp.f64'], 'uninterpreted')
def m_exp(ex, st, a, ins):
    return ret(st, EXP(a[0]))


@reg(['pow', 'std::pow', 'llvm.pow.f64'], 'uninterpreted')
def m_pow(ex, st, a, ins):
    x, y = a[0], a[1]
    x, y = [z3.ToReal(v) if v.sort() == IntS else v for v in (x, y)]
    if z3.is_rational_value(y) and y.as_fraction() == 2:
        return ret(st, z3.simplify(x * x))
    if z3.is_rational_value(y) and y.as_fraction() == 1:
        return ret(st, x)
    return ret(st, POW(x, y))


@reg('re:^llvm\\.powi\\.', 'uninterpreted')
def m_powi(ex, st, a, ins):
    return m_pow(ex, st, a, ins)


@reg(['llvm.minnum.f64', 'fmin'], 'intrinsic')
def m_minnum(ex, st, a, ins):
    return ret(st, z3.simplify(z3.If(a[0] <= a[1], a[0], a[1])))


@reg(['llvm.maxnum.f64', 'fmax'], 'intrinsic')
def m_maxnum(ex, st, a, ins):
    return ret(st, z3.simplify(z3.If(a[0] >= a[1], a[0], a[1])))


@reg(['llvm.smax.i32', 'llvm.smax.i64'], 'intrinsic')
def m_smax(ex, st, a, ins):
    return ret(st, z3.simplify(z3.If(a[0] >= a[1], a[0], a[1])))


@reg(['llvm.smin.i32', 'llvm.smin.i64'], 'intrinsic')
def m_smin(ex, st, a, ins):
    return ret(st, z3.simplify(z3.If(a[0] <= a[1], a[0], a[1])))


FIN = z3.Function('isfinite', RealS, BoolS)


@reg(['std::isfinite', 'Ipopt::IsFiniteNumber'], 'uninterpreted', 'predicate "is a finite number" left uninterpreted over the reals')
def m_fin(ex, st, a, ins):
    return ret(st, FIN(a[0]))


@reg(['llvm.is.fpclass.f64'], 'uninterpreted')
def m_fpclass(ex, st, a, ins):
    m = a[1].as_long()
    if m == 504:
        return ret(st, FIN(a[0]))
    if m == 3:
        return ret(st, z3.Function('isnan', RealS, BoolS)(a[0]))
    return ret(st, z3.Function('fpclass%d' % m, RealS, BoolS)(a[0]))


@reg(['llvm.assume', 'llvm.stacksave.p0', 'llvm.stackrestore.p0', 'llvm.va_start', 'llvm.va_end', 'llvm.donothing'], 'intrinsic')
def m_nop(ex, st, a, ins):
    return ret(st, UNDEF)


@reg(['llvm.expect.i1', 'llvm.expect.i64', 'llvm.launder.invariant.group.p0'], 'intrinsic')
def m_id(ex, st, a, ins):
    return ret(st, a[0])


# ---------------------------------------------------------------- memory

@reg(['operator new', 'operator new[]', 'malloc'], 'trusted', 'allocation never fails')
def m_new(ex, st, a, ins):
    n = a[0]
    arr = 'f' in ins and ins['f'] in ('_Znam', 'malloc')
    if z3.is_int_value(n) and not arr:
        b = ex.newblock(st, 'new')
    else:
        b = ex.newblock(st, 'newarr', kind='arr')
        b.S = None
        b.n = n
    b.heap = True
    return ret(st, Ptr(b.id))


@reg(['operator delete', 'operator delete[]', 'free'], 'trusted')
def m_delete(ex, st, a, ins):
    p = a[0]
    if isinstance(p, Ptr) and p.b is not None:
        if p.nul is not None:
            # releasing a possibly null pointer: treat as released
            pass
        b = st.mem.get(p.b)
        if b is None:
            return ret(st)
        if not b.live:
            ex.require(st, FALSE, 'double release of memory')
        if b.tag == 'fam':
            if b.S is None:
                raise Unsupported('release of a family member')
            idx, fo = ex.elem(b, p, 'ptr')
            old = b.ghost.get('rel[]', FALSE)
            ex.require(st, z3.Not(z3.substitute(old, (J, idx))), 'double release of memory')
            st.wb(p.b).ghost['rel[]'] = z3.simplify(z3.If(J == idx, TRUE, old))
            return ret(st)
        st.wb(p.b).live = False
    return ret(st)


def content(ex, st, p, ty):
    """(block, index, field body) behind array pointer p"""
    b = ex.chk(st, p, 'array access')
    if b.kind != 'arr':
        return b, None, None
    idx, fo = ex.elem(b, p, ty)
    v = b.fields.get(fo)
    if v is None:
        v = ex.symfield(st, b, fo, ty)
    return b, idx, v


def rd(ex, st, p, ty):
    """j -> element j of the array starting at p (as a function on z3 terms)"""
    b, idx, v = content(ex, st, p, ty)
    if b.kind == 'rec':
        x = ex.load(st, p, ty)
        return lambda j: x
    return lambda j: z3.substitute(v, (J, z3.simplify(idx + j))) if isz(v) else v.sel(z3.simplify(idx + j))


def wr(ex, st, p, ty, n, f):
    """store f(j) into elements 0..n-1 of the array starting at p"""
    b, idx, v = content(ex, st, p, ty)
    if b.kind == 'rec':
        if z3.is_int_value(n) and n.as_long() == 1:
            ex.store(st, p, f(iv(0)), ty)
            return
        raise Unsupported('array write through pointer to scalar')
    ex.require(st, z3.Implies(n > 0, z3.And(idx >= 0, idx + n <= b.n)), 'array range in bounds (write)')
    b = st.wb(b.id)
    _, fo = ex.elem(b, p, ty)
    if isinstance(v, FamVal):
        raise Unsupported('bulk write to pointer array')
    b.fields[fo] = z3.simplify(z3.If(z3.And(J >= idx, J < idx + n), f(z3.simplify(J - idx)), v))


def inrange(ex, st, p, ty, n, inc, what):
    b, idx, v = content(ex, st, p, ty)
    if b.kind == 'rec':
        if not (z3.is_int_value(inc) and inc.as_long() == 0):
            ex.require(st, n <= 1, 'array range in bounds (%s)' % what)
        return
    ex.require(st, z3.Implies(n > 0, z3.And(idx >= 0, idx + (n - 1) * inc < b.n)), 'array range in bounds (%s)' % what)


@reg(['llvm.memcpy.p0.p0.i64', 'llvm.memmove.p0.p0.i64', 'memcpy', 'memmove'], 'intrinsic')
def m_memcpy(ex, st, a, ins):
    d, s, nb = a[0], a[1], a[2]
    if z3.is_int_value(nb) and nb.as_long() == 0:
        return ret(st, d)
    bs = st.mem.get(s.b) if isinstance(s, Ptr) else None
    bd = st.mem.get(d.b) if isinstance(d, Ptr) else None
    if bs is not None and bd is not None and bs.kind == 'rec' and bd.kind == 'rec' and z3.is_int_value(nb):
        n = nb.as_long()
        bd = st.wb(d.b)
        for o in [o for o in bd.cells if d.c <= o < d.c + n]:
            del bd.cells[o]
        for o, v in bs.cells.items():
            if s.c <= o < s.c + n:
                bd.cells[d.c + o - s.c] = v
        return ret(st, d)
    if bs is None or bd is None:
        # possibly zero-sized copies of null arrays
        ex.require(st, nb == 0, 'memcpy with null pointer')
        return ret(st, d)
    # arrays
    S = bs.S or bd.S or 8
    for b in (bs, bd):
        if b.kind == 'arr' and b.S is None:
            w = st.wb(b.id)
            w.n = divexact(w.n, S)
            w.S = S
    bs, bd = st.mem[s.b], st.mem[d.b]
    n = divexact(nb, S)
    ty = {8: 'double', 4: 'i32', 1: 'i8'}.get(S)
    if bs.kind == 'arr' and bs.fields:
        srt = [v.sort() for v in bs.fields.values() if isz(v)]
        if srt and srt[0] == IntS and S == 8:
            ty = 'i64'
    inrange(ex, st, s, ty, n, iv(1), 'memcpy source')
    f = rd(ex, st, s, ty)
    wr(ex, st, d, ty, n, f)
    return ret(st, d)


@reg(['llvm.memset.p0.i64', 'memset'], 'intrinsic')
def m_memset(ex, st, a, ins):
    d, v, nb = a[0], a[1], a[2]
    if not (z3.is_int_value(v) and v.as_long() == 0):
        raise Unsupported('memset with nonzero value')
    b = ex.chk(st, d, 'memset')
    if b.kind == 'rec':
        n = nb.as_long()
        b = st.wb(d.b)
        for o in [o for o in b.cells if d.c <= o < d.c + n]:
            del b.cells[o]
        b.ghost['zero'] = True
        return ret(st, d)
    if b.S is None:
        try:
            wr(ex, st, d, 'double', divexact(nb, 8), lambda j: rv(0))
        except Unsupported:
            wr(ex, st, d, 'i32', divexact(nb, 4), lambda j: iv(0))
        return ret(st, d)
    srt = [x.sort() for x in b.fields.values() if isz(x)]
    ty = {8: 'double', 4: 'i32', 1: 'i8'}[b.S]
    z = rv(0) if ty == 'double' else iv(0)
    wr(ex, st, d, ty, divexact(nb, b.S), lambda j: z)
    return ret(st, d)


# ---------------------------------------------------------------- BLAS wrappers (reference semantics, trusted)

def incs(x):
    if not z3.is_int_value(x):
        return x
    return x


@reg('Ipopt::IpBlasCopy', 'trusted', 'reference BLAS semantics of the linked DCOPY')
def m_copy(ex, st, a, ins):
    n, x, ix, y, iy = a
    n = z3.simplify(z3.If(n > 0, n, iv(0)))
    if z3.is_int_value(n) and n.as_long() == 0:
        return ret(st)
    if not ok_null(ex, st, [x, y], n):
        return ret(st)
    x = nonnull(x)
    inrange(ex, st, x, 'double', n, ix, 'BLAS source')
    f = rd(ex, st, x, 'double')
    strided(ex, st, y, n, iy, lambda j, old: f(z3.simplify(j * ix)))
    return ret(st)


def ok_null(ex, st, ps, n):
    """null array arguments are fine when n = 0; returns False if the call does nothing"""
    for p in ps:
        if isinstance(p, Ptr) and p.b is None:
            ex.require(st, n <= 0, 'null array passed to BLAS')
            return False
        if p.nul is not None:
            ex.require(st, z3.Or(z3.Not(p.nul), n <= 0), 'null array passed to BLAS')
    return True


def nonnull(p):
    return Ptr(p.b, p.c, p.t)


def strided(ex, st, y, n, iy, f):
    y = nonnull(y)
    b, idx, v = content(ex, st, y, 'double')
    if b.kind == 'rec':
        if z3.is_int_value(n) and n.as_long() == 1:
            ex.store(st, y, f(iv(0), ex.load(st, y, 'double')), 'double')
            return
        raise Unsupported('BLAS write through pointer to scalar')
    if z3.is_int_value(iy) and iy.as_long() == 1:
        ex.require(st, z3.Implies(n > 0, z3.And(idx >= 0, idx + n <= b.n)), 'array range in bounds (BLAS target)')
        b = st.wb(b.id)
        _, fo = ex.elem(b, y, 'double')
        jj = z3.simplify(J - idx)
        b.fields[fo] = z3.simplify(z3.If(z3.And(J >= idx, J < idx + n), f(jj, v), v))
        return
    ex.require(st, z3.Implies(n > 0, z3.And(idx >= 0, iy > 0, idx + (n - 1) * iy < b.n)), 'array range in bounds (BLAS target)')
    b = st.wb(b.id)
    _, fo = ex.elem(b, y, 'double')
    q = (J - idx) / iy
    b.fields[fo] = z3.simplify(z3.If(z3.And(J >= idx, J < idx + n * iy, (J - idx) % iy == 0), f(q, v), v))


@reg('Ipopt::IpBlasAxpy', 'trusted', 'reference BLAS semantics of the linked DAXPY')
def m_axpy(ex, st, a, ins):
    n, al, x, ix, y, iy = a
    n = z3.simplify(z3.If(n > 0, n, iv(0)))
    if not ok_null(ex, st, [x, y], n):
        return ret(st)
    x = nonnull(x)
    inrange(ex, st, x, 'double', n, ix, 'BLAS source')
    f = rd(ex, st, x, 'double')
    strided(ex, st, y, n, iy, lambda j, old: old + al * f(z3.simplify(j * ix)))
    return ret(st)


@reg('Ipopt::IpBlasScal', 'trusted', 'reference BLAS semantics of the linked DSCAL')
def m_scal(ex, st, a, ins):
    n, al, x, ix = a
    n = z3.simplify(z3.If(n > 0, n, iv(0)))
    if not ok_null(ex, st, [x], n):
        return ret(st)
    strided(ex, st, x, n, ix, lambda j, old: al * old)
    return ret(st)


@reg('Ipopt::IpBlasDot', 'trusted', 'reference BLAS semantics of the linked DDOT')
def m_dot(ex, st, a, ins):
    n, x, ix, y, iy = a
    n = z3.simplify(z3.If(n > 0, n, iv(0)))
    if not ok_null(ex, st, [x, y], n):
        return ret(st, rv(0))
    x, y = nonnull(x), nonnull(y)
    inrange(ex, st, x, 'double', n, ix, 'BLAS source')
    inrange(ex, st, y, 'double', n, iy, 'BLAS source')
    f, g = rd(ex, st, x, 'double'), rd(ex, st, y, 'double')
    return ret(st, Sum(n, lambda j: f(z3.simplify(j * ix)) * g(z3.simplify(j * iy))))


@reg('Ipopt::IpBlasNrm2', 'trusted', 'reference BLAS semantics of the linked DNRM2')
def m_nrm2(ex, st, a, ins):
    n, x, ix = a
    n = z3.simplify(z3.If(n > 0, n, iv(0)))
    if not ok_null(ex, st, [x], n):
        return ret(st, rv(0))
    x = nonnull(x)
    inrange(ex, st, x, 'double', n, ix, 'BLAS source')
    f = rd(ex, st, x, 'double')
    return ret(st, SQRT(Sum(n, lambda j: f(z3.simplify(j * ix)) * f(z3.simplify(j * ix)))))


@reg('Ipopt::IpBlasAsum', 'trusted', 'reference BLAS semantics of the linked DASUM')
def m_asum(ex, st, a, ins):
    n, x, ix = a
    n = z3.simplify(z3.If(n > 0, n, iv(0)))
    if not ok_null(ex, st, [x], n):
        return ret(st, rv(0))
    x = nonnull(x)
    inrange(ex, st, x, 'double', n, ix, 'BLAS source')
    f = rd(ex, st, x, 'double')
    return ret(st, Sum(n, lambda j: exe.fabs(f(z3.simplify(j * ix)))))


def Max(n, body, init):
    return fold1(init, lambda acc, k: z3.If(body(k) > acc, body(k), acc), n, 'max')


def Min(n, body, init):
    return fold1(init, lambda acc, k: z3.If(body(k) < acc, body(k), acc), n, 'min')


@reg('Ipopt::IpBlasIamax', 'trusted', 'reference BLAS semantics of the linked IDAMAX')
def m_iamax(ex, st, a, ins):
    n, x, ix = a
    if not ok_null(ex, st, [x], n):
        return ret(st, iv(0))
    x = nonnull(x)
    inrange(ex, st, x, 'double', n, ix, 'BLAS source')
    f = rd(ex, st, x, 'double')
    r = st.fresh('iamax', IntS)
    st.assume(z3.Implies(n <= 0, r == 0))
    st.assume(z3.Implies(n >= 1, z3.And(r >= 1, r <= n)))
    st.assume(z3.Implies(n >= 1, exe.fabs(f(z3.simplify((r - 1) * ix))) == Max(n, lambda j: exe.fabs(f(z3.simplify(j * ix))), rv(0))))
    return ret(st, r)


# ---------------------------------------------------------------- C++ runtime: exceptions

@reg('__cxa_allocate_exception', 'intrinsic')
def m_exal(ex, st, a, ins):
    b = ex.newblock(st, 'exc')
    return ret(st, Ptr(b.id))


@reg('__cxa_free_exception', 'intrinsic')
def m_exfree(ex, st, a, ins):
    return ret(st)


@reg('__cxa_throw', 'intrinsic')
def m_throw(ex, st, a, ins):
    ti = a[1]
    return [('throw', st, Exc(ti.name if isinstance(ti, FnV) else ti.b[2:], a[0]))]


@reg(['__cxa_rethrow'], 'intrinsic')
def m_rethrow(ex, st, a, ins):
    return [('throw', st, st.gh['caught'][-1])]


@reg('__cxa_begin_catch', 'intrinsic')
def m_bc(ex, st, a, ins):
    e = a[0]
    st.gh['caught'] = st.gh.get('caught', ()) + (e,)
    return ret(st, e.ptr if isinstance(e, Exc) and e.ptr is not None else Ptr('exc?'))


@reg('__cxa_get_exception_ptr', 'intrinsic')
def m_gep(ex, st, a, ins):
    return ret(st, a[0].ptr)


@reg('__cxa_end_catch', 'intrinsic')
def m_ec(ex, st, a, ins):
    st.gh['caught'] = st.gh['caught'][:-1]
    if not st.gh['caught']:
        del st.gh['caught']
    return ret(st)


@reg(['llvm.eh.typeid.for', 'llvm.eh.typeid.for.p0'], 'intrinsic')
def m_tid(ex, st, a, ins):
    p = a[0]
    return ret(st, iv(ex.typeid(p.name if isinstance(p, FnV) else p.b[2:])))


@reg(['__clang_call_terminate', 'std::terminate', 'abort', 'exit', '__cxa_pure_virtual'], 'intrinsic', 'process termination ends the path')
def m_term(ex, st, a, ins):
    return []


@reg('__dynamic_cast', 'trusted')
def m_dyn(ex, st, a, ins):
    p, src, dst = a[0], a[1], a[2]
    if p.b is None:
        return ret(st, NULL)
    b = st.mem[p.b]
    name = (dst.name if isinstance(dst, FnV) else dst.b[2:])
    cls = b.cls
    if cls is None:
        raise Unsupported('dynamic_cast of object of unknown class')
    m = re.match(r'_ZTIN?((?:\d+\w+?)+)E?$', name)
    parts = []
    s = name[4:]
    if s.startswith('N'):
        s = s[1:]
    while s and s[0].isdigit():
        mm = re.match(r'\d+', s)
        k = int(mm.group())
        parts.append(s[len(mm.group()):len(mm.group()) + k])
        s = s[len(mm.group()) + k:]
    tgt = '::'.join(parts)
    alt = b.ghost.get('isa')
    if alt is not None:
        return ret(st, p if tgt in alt else NULL)
    o = ex.mod.baseoff(cls, tgt)
    if o is None:
        return ret(st, NULL)
    return ret(st, p)


# ---------------------------------------------------------------- SmartPtr: a plain pointer (reference counting is property C12)

SP = r're:^Ipopt::SmartPtr<.*>::'


@reg(SP + r'SmartPtr$', 'model', 'SmartPtr modelled as the raw pointer it stores; object lifetime by reference counting is not tracked here')
def sp_ctor(ex, st, a, ins):
    if len(a) == 1:
        ex.store(st, a[0], NULL)
        return ret(st)
    v = a[1]
    # copy constructor gets a SmartPtr&, pointer constructor a raw pointer: told apart by the mangled name
    if is_ref_ctor(ins):
        v = ex.load(st, v, 'ptr')
    ex.store(st, a[0], v)
    return ret(st)


def is_ref_ctor(ins):
    n = ins.get('f', '')
    return re.search(r'ERKS\w*_?$', n) is not None or 'ERKNS0_I' in n or re.search(r'(C1|C2)(I\w+)?ERKNS', n) is not None


@reg(SP + r'~SmartPtr$', 'model')
def sp_dtor(ex, st, a, ins):
    return ret(st)


@reg(SP + r'operator=$', 'model')
def sp_asg(ex, st, a, ins):
    v = a[1]
    n = ins.get('f', '')
    if re.search(r'aSEPS|aSEPK|aSEP', n) is None:
        v = ex.load(st, v, 'ptr')
    ex.store(st, a[0], v)
    return ret(st, a[0])


@reg([SP + r'(operator->|operator\*|GetRawPtr_|ptr)$', r're:^(Ipopt::\w+\* )?Ipopt::GetRawPtr<', 're:^Ipopt::ConstPtr<'], 'model')
def sp_get(ex, st, a, ins):
    if len(a) == 2:      # sret
        ex.store(st, a[0], ex.load(st, a[1], 'ptr'))
        return ret(st)
    return ret(st, ex.load(st, a[0], 'ptr'))


@reg(['re:^Ipopt::IsValid<'], 'model')
def sp_valid(ex, st, a, ins):
    return ret(st, ex.pcmp(st, 'ne', ex.load(st, a[0], 'ptr'), NULL))


@reg(['re:^Ipopt::IsNull<'], 'model')
def sp_null(ex, st, a, ins):
    return ret(st, ex.pcmp(st, 'eq', ex.load(st, a[0], 'ptr'), NULL))


# ---------------------------------------------------------------- Journalist: printing has no effect on the computation

@reg(['re:^Ipopt::Journalist::(Printf|PrintStringOverLines|PrintfIndented|VPrintf|VPrintfIndented|FlushBuffer)$'], 'model', 'journalist output has no effect on the computation')
def j_print(ex, st, a, ins):
    return ret(st)


@reg('Ipopt::Journalist::ProduceOutput', 'model', 'whether output is produced is arbitrary')
def j_prod(ex, st, a, ins):
    return ret(st, st.fresh('produce_output', BoolS))


@reg(['re:^Ipopt::TimedTask::(Start|End|EndIfStarted|Reset|EnableTiming|DisableTiming)$'], 'model', 'timing statistics have no effect on the computation')
def t_nop(ex, st, a, ins):
    return ret(st)


@reg(['llvm.umul.with.overflow.i64', 'llvm.smul.with.overflow.i64'], 'intrinsic', 'size computations do not overflow')
def m_mulo(ex, st, a, ins):
    return ret(st, Agg([z3.simplify(a[0] * a[1]), FALSE]))


@reg(['llvm.uadd.with.overflow.i64', 'llvm.sadd.with.overflow.i64'], 'intrinsic', 'size computations do not overflow')
def m_addo(ex, st, a, ins):
    return ret(st, Agg([z3.simplify(a[0] + a[1]), FALSE]))


@reg('llvm.threadlocal.address.p0', 'intrinsic')
def m_tls(ex, st, a, ins):
    return ret(st, a[0])


TAGOFF = 48


@reg('Ipopt::TaggedObject::ObjectChanged', 'contract', 'proved for the real body under C11: the tag becomes a value never used before')
def m_objchanged(ex, st, a, ins):
    p = a[0]
    o = ex.mod.fieldoff('Ipopt::TaggedObject', 'tag_')[0]
    ex.store(st, p.add(o), st.fresh('$tag'[1:], IntS), 'i32')
    return ret(st)


# ---------------------------------------------------------------- std::string: an immutable value in the cell where the object starts

STR = z3.StringSort()
CHR = z3.Function('char_at', STR, IntS, IntS)      # characters of a text
SB = r're:^std::(__cxx11::)?basic_string<char, std::char_traits<char>, std::allocator<char>\s?>::'


def strval(ex, st, p):
    b = ex.chk(st, p, 'string')
    if b.kind == 'arr':
        idx, fo = ex.elem(b, p, 'ptr')
        ex.require(st, z3.And(idx >= 0, idx < b.n), 'string element in range')
        v = b.fields.get(fo)
        if v is None:
            v = z3.Function('%s[]%d$' % (b.id, fo), IntS, STR)(J)
            st.wb(b.id).fields[fo] = v
        return z3.simplify(z3.substitute(v, (J, idx)))
    if b.kind != 'rec' or p.t:
        raise Unsupported('string in array')
    v = b.cells.get(p.c)
    if v is None:
        if not b.lazy:
            raise Unsupported('string object not constructed')
        v = z3.Const('%s.%s$' % (b.id, p.c), STR)
        st.wb(p.b).cells[p.c] = v
    if not isz(v) or v.sort() != STR:
        raise Unsupported('not a string object')
    return v


def cstr(ex, st, p):
    b = ex.chk(st, p, 'C string')
    if 'cstr' in b.ghost and not p.t:
        return z3.StringVal(b.ghost['cstr'][p.c:])
    if 'strterm' in b.ghost and p.c == 0 and not p.t:
        return b.ghost['strterm']
    raise Unsupported('C string with unknown contents')


def setstr(ex, st, p, v):
    b = ex.chk(st, p, 'string')
    b = st.wb(p.b)
    if b.kind == 'arr':
        idx, fo = ex.elem(b, p, 'ptr')
        ex.require(st, z3.And(idx >= 0, idx < b.n), 'string element in range')
        old = b.fields.get(fo)
        if old is None:
            old = z3.Function('%s[]%d$' % (b.id, fo), IntS, STR)(J)
        b.fields[fo] = z3.simplify(z3.If(J == idx, v, old))
        return
    for o in [o for o in b.cells if p.c <= o < p.c + 32]:
        del b.cells[o]
    b.cells[p.c] = v


def strargs(ex, ins):
    """parameter types of the called function (without this)"""
    d = ex.mod.dem.get(ins.get('f', ''), '')
    k = d.rfind('(')
    depth = 0
    for i in range(len(d) - 1, -1, -1):
        if d[i] == ')':
            depth += 1
        elif d[i] == '(':
            depth -= 1
            if depth == 0:
                k = i
                break
    out, depth, cur = [], 0, ''
    for c in d[k + 1:d.rfind(')')]:
        if c in '<(':
            depth += 1
        if c in '>)':
            depth -= 1
        if c == ',' and depth == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += c
    if cur.strip():
        out.append(cur.strip())
    return out


def strarg(ex, st, p, ty):
    return strval(ex, st, p) if 'basic_string' in ty else cstr(ex, st, p)


@reg(SB + r'basic_string(<.*>)?$', 'model', 'std::string is a value')
def s_ctor(ex, st, a, ins):
    ty = strargs(ex, ins)
    if len(a) == 1 or (len(a) == 2 and ty and 'allocator' in ty[0] and 'basic_string' not in ty[0]):
        setstr(ex, st, a[0], z3.StringVal(''))
    elif ty[0].startswith('char const*') and (len(a) == 2 or (len(a) == 3 and 'allocator' in ty[1])):
        setstr(ex, st, a[0], cstr(ex, st, a[1]))
    elif 'basic_string' in ty[0] and len(a) == 2:
        setstr(ex, st, a[0], strval(ex, st, a[1]))
    else:
        raise Unsupported('string constructor %s' % ty)
    return ret(st)


@reg([SB + r'~basic_string$', 're:^std::(__new_)?allocator<char\\s?>::~?\\w+', 're:^std::__new_allocator<char\\s?>::'], 'model')
def s_nop(ex, st, a, ins):
    return ret(st)


@reg(SB + r'(operator=|assign)$', 'model')
def s_asg(ex, st, a, ins):
    setstr(ex, st, a[0], strarg(ex, st, a[1], strargs(ex, ins)[0]))
    return ret(st, a[0])


@reg(SB + r'(operator\+=|append)$', 'model')
def s_app(ex, st, a, ins):
    ty = strargs(ex, ins)
    if len(a) != 2 or ty[0] == 'char':
        raise Unsupported('string append %s' % ty)
    setstr(ex, st, a[0], z3.simplify(z3.Concat(strval(ex, st, a[0]), strarg(ex, st, a[1], ty[0]))))
    return ret(st, a[0])


@reg(r're:^std::operator\+<char', 'model')
def s_add(ex, st, a, ins):
    ty = strargs(ex, ins)
    if 'char' in ty:
        raise Unsupported('string + char')
    setstr(ex, st, a[0], z3.simplify(z3.Concat(strarg(ex, st, a[1], ty[0]), strarg(ex, st, a[2], ty[1]))))
    return ret(st)


@reg(r're:^std::operator(==|!=|<|>)<char', 'model')
def s_cmp(ex, st, a, ins):
    ty = strargs(ex, ins)
    x, y = strarg(ex, st, a[0], ty[0]), strarg(ex, st, a[1], ty[1])
    d = ex.mod.dem.get(ins.get('f', ''), '')
    op = re.search(r'operator(==|!=|<|>)<char', d).group(1)
    r = {'==': lambda: x == y, '!=': lambda: x != y, '<': lambda: x < y, '>': lambda: y < x}[op]()
    return ret(st, z3.simplify(r))


@reg(SB + r'compare$', 'model')
def s_compare(ex, st, a, ins):
    ty = strargs(ex, ins)
    if len(a) != 2:
        raise Unsupported('substring compare')
    x, y = strval(ex, st, a[0]), strarg(ex, st, a[1], ty[0])
    return ret(st, z3.If(x == y, iv(0), z3.If(x < y, iv(-1), iv(1))))


@reg(SB + r'(size|length)$', 'model')
def s_size(ex, st, a, ins):
    return ret(st, z3.simplify(z3.Length(strval(ex, st, a[0]))))


@reg(SB + r'empty$', 'model')
def s_empty(ex, st, a, ins):
    return ret(st, z3.simplify(strval(ex, st, a[0]) == z3.StringVal('')))


@reg(SB + r'clear$', 'model')
def s_clear(ex, st, a, ins):
    setstr(ex, st, a[0], z3.StringVal(''))
    return ret(st)


@reg(SB + r'(c_str|data)$', 'model')
def s_cstr(ex, st, a, ins):
    v = strval(ex, st, a[0])
    bid = 'cstr:%s.%s.%d' % (a[0].b, a[0].c, v.hash())
    if bid not in st.mem:
        b = Block(bid, 'arr', S=1, n=z3.Length(v) + 1)
        b.fields[0] = CHR(v, J)
        b.ghost['strterm'] = v
        st.add(b)
        st.assume(CHR(v, z3.Length(v)) == 0)
    return ret(st, Ptr(bid))
