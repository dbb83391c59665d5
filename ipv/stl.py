"""std::vector, std::list as abstract sequences (library semantics are trusted)"""
import z3, re
from engine import *
from exe import as_int, as_bool, PtrMap
import models as M
from models import BASE, ret, Models
reg = BASE.reg

ALLOC = r're:^std::(__new_)?allocator<[^()]*>::~?(__new_)?allocator$'


@reg([ALLOC, r're:^std::allocator<.*>::~?allocator$', r're:^std::__new_allocator<.*>::~?__new_allocator$'], 'model')
def al_nop(ex, st, a, ins):
    return ret(st)


VC = r're:^std::vector<.*>::'
SIZES = {'double': 8, 'int': 4, 'unsigned int': 4, 'char': 1, 'long': 8, 'unsigned long': 8}


def targ(dem, head='std::vector<'):
    """first template argument"""
    i = dem.find(head)
    if i < 0:
        return None
    i += len(head)
    depth = 0
    for k in range(i, len(dem)):
        c = dem[k]
        if c in '<(':
            depth += 1
        elif c in '>)':
            if depth == 0:
                return dem[i:k].strip()
            depth -= 1
        elif c == ',' and depth == 0:
            return dem[i:k].strip()
    return None


def esize(ex, ins):
    t = targ(ex.mod.dem[ins['f']])
    if t in SIZES:
        return SIZES[t], t
    if t.endswith('*') or t.startswith('Ipopt::SmartPtr<'):
        return 8, 'ptr'
    if t == 'bool':
        raise Unsupported('std::vector<bool>')
    c = ex.mod.classes.get(t, {})
    if 'enum' in c:
        return 4, 'int'
    if 'm' in c:
        return max([mo + sz for n, mo, sz, ty in c['m']] + [1]), 'obj'
    raise Unsupported('std::vector<%s>' % t)


def vdata(ex, st, p):
    """data block of the vector object at p"""
    b = ex.chk(st, p, 'vector')
    if b.kind != 'rec' or p.t:
        raise Unsupported('vector object in an array')
    d = b.cells.get(p.c)
    if not isinstance(d, Ptr) or d.b is None:
        if d is None and b.lazy:
            bid = '%s.vec%d' % (p.b, p.c)
            if bid not in st.mem:
                nb = Block(bid, 'arr', n=z3.Int(bid + '.size'), lazy=True)
                st.add(nb)
                st.assume(nb.n >= 0)
            d = Ptr(bid)
            st.wb(p.b).cells[p.c] = d
        else:
            raise Unsupported('vector object not constructed')
    return d


def newvec(ex, st, p, S, t, n, init):
    b = ex.newblock(st, 'vec', kind='arr')
    b.S, b.n = S, n
    b.heap = True
    if init is None and t == 'ptr':
        b.fields[0] = FamVal(Ptr('$null', 0, (), TRUE)) if False else PtrMap(None, [])
        b.ghost['nullinit'] = True
    elif init is None:
        b.fields[0] = rv(0) if t == 'double' else iv(0)
    else:
        b.fields[0] = init
    ex.chk(st, p, 'vector')
    w = st.wb(p.b)
    for o in [o for o in w.cells if p.c <= o < p.c + 24]:
        del w.cells[o]
    w.cells[p.c] = Ptr(b.id)
    return b


@reg(VC + 'vector$', 'model', 'std::vector is a sequence of values')
def v_ctor(ex, st, a, ins):
    S, t = esize(ex, ins)
    ty = M.strargs(ex, ins)
    p = a[0]
    if not ty or 'allocator' in ty[0] and 'vector' not in ty[0]:
        newvec(ex, st, p, S, t, iv(0), None)
    elif ty[0].startswith('unsigned long') and (len(ty) == 1 or 'allocator<' in ty[1] and not ty[1].startswith('Ipopt')):
        ex.require(st, a[1] >= 0, 'vector size is not negative')
        newvec(ex, st, p, S, t, a[1], None)
    elif ty[0].startswith('unsigned long'):
        v = ex.load(st, a[2], {'double': 'double', 'ptr': 'ptr', 'int': 'i32'}.get(t, 'i64')) if isinstance(a[2], Ptr) else a[2]
        if isinstance(v, Ptr):
            v = FamVal(v)
        newvec(ex, st, p, S, t, a[1], v)
    elif 'std::vector<' in ty[0]:
        d = vdata(ex, st, a[1])
        src = st.mem[d.b]
        if src.S is None:
            src = st.wb(d.b)
            src.S = S
        b = newvec(ex, st, p, S, t, src.n, 0)
        v = src.fields.get(0)
        if v is None:
            v = ex.symfield(st, src, 0, {'double': 'double'}.get(t, 'i32'))
        b.fields[0] = v
        b.ghost.update(src.ghost)
    else:
        raise Unsupported('vector constructor(%s)' % ', '.join(ty))
    return ret(st)


@reg(VC + '~vector$', 'model')
def v_dtor(ex, st, a, ins):
    b = st.mem.get(a[0].b)
    if b is not None and b.kind == 'rec':
        d = b.cells.get(a[0].c)
        if isinstance(d, Ptr) and d.b in st.mem and st.mem[d.b].heap:
            st.wb(d.b).live = False
    return ret(st)


@reg([VC + 'size$'], 'model')
def v_size(ex, st, a, ins):
    return ret(st, st.mem[vdata(ex, st, a[0]).b].n)


@reg([VC + 'empty$'], 'model')
def v_empty(ex, st, a, ins):
    return ret(st, z3.simplify(st.mem[vdata(ex, st, a[0]).b].n == 0))


@reg([VC + r'(operator\[\]|at)$'], 'model')
def v_idx(ex, st, a, ins):
    S, t = esize(ex, ins)
    d = vdata(ex, st, a[0])
    b = st.mem[d.b]
    if b.S is None:
        st.wb(d.b).S = S
    ex.require(st, z3.And(a[1] >= 0, a[1] < b.n), 'vector index in range')
    return ret(st, d.add(0, [(S, a[1])]))


@reg([VC + r'(data)$'], 'model')
def v_data(ex, st, a, ins):
    S, t = esize(ex, ins)
    d = vdata(ex, st, a[0])
    if st.mem[d.b].S is None:
        st.wb(d.b).S = S
    return ret(st, d)


# ---------------------------------------------------------------- std::list<T*>: slots lo..hi-1, some of them erased

LC = r're:^std::(__cxx11::)?list<.*>::'
NODE = 16


def lparts(ex, st, p):
    """(nodes pointer, lo, hi) of the list object at p"""
    b = ex.chk(st, p, 'list')
    if b.kind != 'rec' or p.t:
        raise Unsupported('list object in an array')
    d = b.cells.get(p.c)
    if not isinstance(d, Ptr) or d.b is None or d.b not in st.mem or st.mem[d.b].tag != 'list':
        raise Unsupported('list object of unknown contents')
    return d, b.cells[p.c + 8], b.cells[p.c + 16]


def mklist(st, p, name, lo, hi, elem, fixed=()):
    """list object at p with contents elem (FamVal over slot index)"""
    b = Block(name, 'arr', S=NODE, n=z3.IntVal(10 ** 9), lazy=True, tag='list')
    b.fields[0] = TRUE          # alive
    if elem is not None:
        b.fields[8] = elem
    b.ghost['own'] = (p.b, p.c)
    st.add(b)
    w = st.wb(p.b)
    for o in [o for o in w.cells if p.c <= o < p.c + 24]:
        del w.cells[o]
    w.cells[p.c] = Ptr(name)
    w.cells[p.c + 8] = lo
    w.cells[p.c + 16] = hi
    return Ptr(name)


def alive(ex, st, d, j):
    return z3.simplify(z3.substitute(st.mem[d.b].fields[0], (J, j)))


def slot(p):
    return z3.simplify(sum([e * (s // NODE) for s, e in p.t], iv(p.c // NODE)))


def lelem(ex, st, d, j):
    v = st.mem[d.b].fields.get(8)
    if v is None:
        raise Unsupported('list element')
    return psel(ex, st, v, j)


def psel(ex, st, v, j):
    """element j of a pointer array; forks over explicit stores are decided by the solver"""
    if isinstance(v, FamVal):
        return v.sel(j)
    if isinstance(v, PtrMap):
        for idx, val in reversed(v.st):
            e = z3.simplify(idx == j)
            if z3.is_true(e) or ex.holds(st, e):
                return val
            if not (z3.is_false(e) or ex.holds(st, z3.Not(e))):
                raise Unsupported('pointer array element not determined')
        if v.old is not None:
            return psel(ex, st, v.old, j)
    raise Unsupported('pointer array element not determined')


@reg([LC + 'list$'], 'model', 'std::list is a sequence')
def l_ctor(ex, st, a, ins):
    if M.strargs(ex, ins):
        raise Unsupported('list copy')
    mklist(st, a[0], 'list#%d' % next(ex_uid), iv(0), iv(0), None)
    return ret(st)


import engine
ex_uid = engine._uid


@reg([LC + '~list$', r're:^std::(__cxx11::)?_List_base<.*>::~_List_base$'], 'model')
def l_dtor(ex, st, a, ins):
    return ret(st)


@reg([LC + 'begin$'], 'model')
def l_begin(ex, st, a, ins):
    d, lo, hi = lparts(ex, st, a[0])
    ex.require(st, z3.Or(lo >= hi, alive(ex, st, d, lo)), 'first list slot is in use', kind='model')
    return ret(st, d.add(0, [(NODE, lo)]))


@reg([LC + 'end$'], 'model')
def l_end(ex, st, a, ins):
    d, lo, hi = lparts(ex, st, a[0])
    return ret(st, d.add(0, [(NODE, hi)]))


@reg([LC + 'empty$'], 'model')
def l_empty(ex, st, a, ins):
    d, lo, hi = lparts(ex, st, a[0])
    if not z3.is_true(z3.simplify(st.mem[d.b].fields[0])):
        raise Unsupported('size of a list with erased slots')
    return ret(st, z3.simplify(lo >= hi))


@reg([LC + 'size$'], 'model')
def l_size(ex, st, a, ins):
    d, lo, hi = lparts(ex, st, a[0])
    if not z3.is_true(z3.simplify(st.mem[d.b].fields[0])):
        raise Unsupported('size of a list with erased slots')
    return ret(st, z3.simplify(hi - lo))


@reg([LC + '(front|back)$'], 'model')
def l_back(ex, st, a, ins):
    d, lo, hi = lparts(ex, st, a[0])
    fr = M.fkey(ex.mod.dem[ins['f']]).endswith('front')
    j = lo if fr else z3.simplify(hi - 1)
    ex.require(st, lo < hi, 'list is not empty')
    ex.require(st, alive(ex, st, d, j), 'list slot is in use', kind='model')
    v = st.mem[d.b].fields.get(8)
    if isinstance(v, PtrMap):
        # which of the elements stored explicitly it is decides about the pointer found there
        for idx, val in v.st:
            c = z3.simplify(idx == j)
            if not (ex.holds(st, c) or ex.holds(st, z3.Not(c))):
                s2 = st.fork()
                s2.assume(z3.Not(c))
                st.assume(c)
                return [('ret', s, d.add(8, [(NODE, j)])) for s in (st, s2)]
    return ret(st, d.add(8, [(NODE, j)]))


@reg([LC + '(pop_back|pop_front)$'], 'model')
def l_popb(ex, st, a, ins):
    d, lo, hi = lparts(ex, st, a[0])
    ex.require(st, lo < hi, 'list is not empty')
    if not z3.is_true(z3.simplify(st.mem[d.b].fields[0])):
        raise Unsupported('pop from a list with erased slots')
    w = st.wb(a[0].b)
    if M.fkey(ex.mod.dem[ins['f']]).endswith('front'):
        w.cells[a[0].c + 8] = z3.simplify(lo + 1)
    else:
        w.cells[a[0].c + 16] = z3.simplify(hi - 1)
    return ret(st)


@reg([LC + 'push_back$', LC + 'push_front$'], 'model')
def l_push(ex, st, a, ins):
    d, lo, hi = lparts(ex, st, a[0])
    v = ex.load(st, a[1], 'ptr')
    front = M.fkey(ex.mod.dem[ins['f']]).endswith('front')
    j = z3.simplify(lo - 1) if front else hi
    nb = st.wb(d.b)
    nb.fields[8] = PtrMap(nb.fields.get(8), [(j, v)])
    nb.fields[0] = z3.simplify(z3.If(J == j, TRUE, nb.fields[0]))
    w = st.wb(a[0].b)
    if front:
        w.cells[a[0].c + 8] = j
    else:
        w.cells[a[0].c + 16] = z3.simplify(hi + 1)
    return ret(st)


@reg([LC + 'erase$'], 'model')
def l_erase(ex, st, a, ins):
    d, lo, hi = lparts(ex, st, a[0])
    it = a[1]
    if len(a) != 2 or not isinstance(it, Ptr) or it.b != d.b:
        raise Unsupported('list erase')
    j = slot(it)
    ex.require(st, z3.And(j >= lo, j < hi, alive(ex, st, d, j)), 'erased list position is valid')
    nb = st.wb(d.b)
    nb.fields[0] = z3.simplify(z3.If(J == j, FALSE, nb.fields[0]))
    nx = z3.simplify(j + 1)
    ex.require(st, z3.Or(nx == hi, alive(ex, st, d, nx)), 'next list slot is in use', kind='model')
    return ret(st, d.add(0, [(NODE, nx)]))


LI = r're:^std::_List_(const_)?iterator<.*>::'


@reg([LI + r'operator\+\+$', LI + r'operator--$'], 'model')
def li_inc(ex, st, a, ins):
    it = ex.load(st, a[0], 'ptr')
    if not isinstance(it, Ptr) or it.b not in st.mem or st.mem[it.b].tag != 'list':
        raise Unsupported('list iterator')
    k = -1 if 'operator--' in ex.mod.dem[ins['f']] else 1
    nx = it.add(k * NODE)
    j = slot(nx)
    # positions before the first and after the last slot count as in use
    ex.require(st, alive(ex, st, it, j), 'next list slot is in use', kind='model')
    ex.store(st, a[0], nx)
    post = bool(M.strargs(ex, ins))
    return ret(st, it if post else a[0])


@reg([LI + r'operator(\*|->)$'], 'model')
def li_deref(ex, st, a, ins):
    it = ex.load(st, a[0], 'ptr')
    if not isinstance(it, Ptr) or it.b not in st.mem or st.mem[it.b].tag != 'list':
        raise Unsupported('list iterator')
    d, lo, hi = lparts(ex, st, Ptr(*st.mem[it.b].ghost['own']))
    j = slot(it)
    ex.require(st, z3.And(j >= lo, j < hi, alive(ex, st, it, j)), 'list position is valid')
    return ret(st, it.add(8))


# ---------------------------------------------------------------- more of std::vector

@reg(VC + '(begin|cbegin)$', 'model')
def v_begin(ex, st, a, ins):
    S, t = esize(ex, ins)
    d = vdata(ex, st, a[0])
    if st.mem[d.b].S is None:
        st.wb(d.b).S = S
    return ret(st, d.add(0, [(S, iv(0))]))


@reg(VC + '(end|cend)$', 'model')
def v_end(ex, st, a, ins):
    S, t = esize(ex, ins)
    d = vdata(ex, st, a[0])
    b = st.mem[d.b]
    if b.S is None:
        st.wb(d.b).S = S
    return ret(st, d.add(0, [(S, b.n)]))


@reg([VC + '(front|back)$'], 'model')
def v_back(ex, st, a, ins):
    S, t = esize(ex, ins)
    d = vdata(ex, st, a[0])
    b = st.mem[d.b]
    if b.S is None:
        st.wb(d.b).S = S
    ex.require(st, b.n > 0, 'vector is not empty')
    return ret(st, d.add(0, [(S, iv(0) if M.fkey(ex.mod.dem[ins['f']]).endswith('front') else z3.simplify(b.n - 1))]))


@reg([VC + 'push_back$'], 'model')
def v_push(ex, st, a, ins):
    S, t = esize(ex, ins)
    d = vdata(ex, st, a[0])
    b = st.wb(d.b)
    if b.S is None:
        b.S = S
    v = ex.load(st, a[1], {'double': 'double', 'ptr': 'ptr', 'int': 'i32', 'unsigned int': 'i32', 'char': 'i8'}.get(t, 'i64'))
    n = b.n
    b = st.wb(d.b)
    if isinstance(v, Ptr):
        b.fields[0] = PtrMap(b.fields.get(0), [(n, v)])
    else:
        old = b.fields.get(0)
        if old is None:
            old = ex.symfield(st, b, 0, 'double' if t == 'double' else 'i32')
        b.fields[0] = z3.simplify(z3.If(J == n, v, old))
    b.n = z3.simplify(n + 1)
    return ret(st)


@reg([VC + 'resize$'], 'model')
def v_resize(ex, st, a, ins):
    S, t = esize(ex, ins)
    d = vdata(ex, st, a[0])
    b = st.wb(d.b)
    if b.S is None:
        b.S = S
    n0, n1 = z3.simplify(b.n), z3.simplify(a[1])
    if len(a) > 2:
        v = ex.load(st, a[2], {'double': 'double', 'ptr': 'ptr', 'int': 'i32', 'unsigned int': 'i32', 'char': 'i8'}.get(t, 'i64'))
    else:
        v = NULL if t == 'ptr' else rv(0) if t == 'double' else iv(0)
    b = st.wb(d.b)
    if isinstance(v, Ptr):
        if not (z3.is_int_value(n0) and z3.is_int_value(n1)):
            raise Unsupported('resize of a vector of pointers to a varying length')
        b.fields[0] = PtrMap(b.fields.get(0), [(iv(i), v) for i in range(n0.as_long(), n1.as_long())])
    else:
        old = b.fields.get(0)
        if old is None:
            old = ex.symfield(st, b, 0, 'double' if t == 'double' else 'i32')
        b.fields[0] = z3.simplify(z3.If(J >= n0, v, old))
    b.n = n1
    return ret(st)


def vslot(p, S):
    return z3.simplify(sum([e * (s // S) for s, e in p.t], iv(p.c // S)))


@reg([r're:^std::find<'], 'model', 'std::find returns the first position holding the value, or the end')
def v_find(ex, st, a, ins):
    f, l = a[0], a[1]
    x = ex.load(st, a[2], 'ptr')
    b = st.mem[f.b]
    v = b.fields.get(0)
    if f.b != l.b or b.S != 8 or not isinstance(v, (FamVal, PtrMap)):
        raise Unsupported('std::find')
    lo, hi = vslot(f, 8), vslot(l, 8)
    r = st.fresh('found', IntS)
    q = z3.Int('$fq')
    eq = lambda j: peq(ex, st, v, j, x)
    st.assume(z3.And(r >= lo, r <= hi))
    st.assume(z3.Implies(r < hi, eq(r)))
    st.assume(z3.ForAll([q], z3.Implies(z3.And(q >= lo, q < r), z3.Not(eq(q)))))
    return ret(st, Ptr(f.b, 0, ()).add(0, [(8, r)]))


def peq(ex, st, v, j, x):
    """element j of the pointer array is x"""
    if isinstance(v, FamVal):
        return ex.pcmp(st, 'eq', v.sel(j), x)
    if isinstance(v, PtrMap):
        r = FALSE if v.old is None else peq(ex, st, v.old, j, x)
        for idx, val in v.st:
            r = z3.If(j == idx, ex.pcmp(st, 'eq', val, x), r)
        return z3.simplify(r)
    raise Unsupported('pointer array')


def pshift(ex, st, v, r, sh):
    """pointer array without element r"""
    if isinstance(v, FamVal):
        nul = None if v.p.nul is None else z3.substitute(v.p.nul, (J, sh))
        return FamVal(Ptr(v.p.b, v.p.c, tuple((s, z3.simplify(z3.substitute(e, (J, sh)))) for s, e in v.p.t), nul))
    if isinstance(v, PtrMap):
        s = []
        for idx, val in v.st:
            if ex.holds(st, idx == r):
                continue
            if not ex.holds(st, idx != r):
                raise Unsupported('vector erase')
            s.append((z3.simplify(z3.If(idx < r, idx, idx - 1)), val))
        return PtrMap(None if v.old is None else pshift(ex, st, v.old, r, sh), s)
    raise Unsupported('vector erase')


@reg([VC + 'erase$'], 'model')
def v_erase(ex, st, a, ins):
    S, t = esize(ex, ins)
    d = vdata(ex, st, a[0])
    b = st.wb(d.b)
    if len(a) != 2 or not isinstance(a[1], Ptr) or a[1].b != d.b:
        raise Unsupported('vector erase')
    r = vslot(a[1], S)
    ex.require(st, z3.And(r >= 0, r < b.n), 'erased vector position is valid')
    v = b.fields.get(0)
    sh = z3.If(J < r, J, J + 1)
    if isinstance(v, (FamVal, PtrMap)):
        b.fields[0] = pshift(ex, st, v, r, sh)
    elif isz(v):
        b.fields[0] = z3.simplify(z3.substitute(v, (J, sh)))
    else:
        raise Unsupported('vector erase')
    b.n = z3.simplify(b.n - 1)
    return ret(st, a[1])


# ---------------------------------------------------------------- std::map<std::string, T>: values indexed by the key

KEY = z3.Function('$key', M.STR, IntS)
MP = r're:^std::map<std::(__cxx11::)?basic_string<.*>::'
MNODE = 32          # the key precedes the value


def mkmap(v, p, off, valsize, name, cls=None):
    """a map from strings stored at p+off; returns its data block; ghost in[]: which keys are present"""
    b = Block(name, 'arr', cls=cls, S=MNODE + valsize, n=z3.Int(name + '.range'), lazy=True, tag='map')
    b.ghost['in[]'] = z3.Function(name + '.in', IntS, BoolS)(J)
    v.st.add(b)
    v.st.wb(p.b).cells[p.c + off] = Ptr(name)
    return b


def mdata(ex, st, p):
    b = ex.chk(st, p, 'map')
    d = b.cells.get(p.c) if b.kind == 'rec' and not p.t else None
    if not isinstance(d, Ptr) or d.b not in st.mem or st.mem[d.b].tag != 'map':
        raise Unsupported('std::map')
    return d


def mkey(ex, st, d, s):
    k = KEY(s)
    st.assume(z3.And(k >= 0, k < st.mem[d.b].n))
    return k


def mat_(st, d, k):
    return z3.simplify(z3.substitute(st.mem[d.b].ghost['in[]'], (J, k)))


@reg([MP + 'find$', MP + 'end$'], 'model', 'std::map from strings: one value for each key that is present')
def mp_find(ex, st, a, ins):
    d = mdata(ex, st, a[0])
    if len(a) == 1:
        return ret(st, NULL)
    k = mkey(ex, st, d, M.strval(ex, st, a[1]))
    r = Ptr(d.b, 0, ((st.mem[d.b].S, k),), z3.simplify(z3.Not(mat_(st, d, k))))
    return ret(st, r)


TI = r're:^std::_Rb_tree_(const_)?iterator<.*>::'


@reg([TI + r'_Rb_tree_(const_)?iterator$'], 'model')
def ti_ctor(ex, st, a, ins):
    ex.store(st, a[0], NULL if len(a) == 1 else (ex.load(st, a[1], 'ptr') if ex.mod.dem[ins['f']].rstrip(')').endswith('&') else a[1]))
    return ret(st)


@reg([TI + r'operator(->|\*)$'], 'model')
def ti_deref(ex, st, a, ins):
    p = ex.load(st, a[0], 'ptr')
    ex.require(st, ex.pcmp(st, 'ne', p, NULL), 'iterator is not at the end')
    return ret(st, Ptr(p.b, p.c, p.t))


@reg([r're:^(bool )?std::operator(==|!=).*\b_Rb_tree_'], 'model')
def ti_cmp(ex, st, a, ins):
    d = ex.mod.dem[ins['f']]
    x, y = ex.load(st, a[0], 'ptr'), ex.load(st, a[1], 'ptr')
    if '_Rb_tree' not in d:
        raise Unsupported(d[:80])
    return ret(st, ex.pcmp(st, 'ne' if 'operator!=' in d else 'eq', x, y))


@reg([MP + r'operator\[\]$'], 'model')
def mp_idx(ex, st, a, ins):
    d = mdata(ex, st, a[0])
    k = mkey(ex, st, d, M.strval(ex, st, a[1]))
    w = st.wb(d.b)
    st.gh['inserted'] = st.gh.get('inserted', ()) + (k,)
    w.ghost['in[]'] = z3.simplify(z3.If(J == k, TRUE, w.ghost['in[]']))
    return ret(st, Ptr(d.b, MNODE, ((w.S, k),)))


@reg([MP + r'erase$'], 'model')
def mp_erase(ex, st, a, ins):
    d = mdata(ex, st, a[0])
    if 'basic_string' not in M.strargs(ex, ins)[0].split('<')[0]:
        raise Unsupported('map erase by position')
    k = mkey(ex, st, d, M.strval(ex, st, a[1]))
    was = mat_(st, d, k)
    w = st.wb(d.b)
    w.ghost['in[]'] = z3.simplify(z3.If(J == k, FALSE, w.ghost['in[]']))
    return ret(st, z3.simplify(z3.If(was, 1, 0)))


@reg([MP + r'clear$'], 'model')
def mp_clear(ex, st, a, ins):
    st.wb(mdata(ex, st, a[0]).b).ghost['in[]'] = FALSE
    return ret(st)
