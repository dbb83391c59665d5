"""abstract vectors and matrices: what a caller knows about an object it only reaches through the interfaces Vector and Matrix

A vector is a block whose ghost field val[] holds entry j as a term in $J (and in $I for member $I of a family of vectors).
Each interface method changes val[] by its mathematical definition (proved for the implementations by C07, C08).
The product of an abstract matrix with a vector is an uninterpreted linear operator: entry j of (A x) is op(A, x)(j)."""
from ipvlib import *
import engine

ABS = BASE.child()


def abspart(ex, st, p, what='vector'):
    b = ex.chk(st, p, what)
    if b.tag == 'fam':
        idx, fo = ex.elem(b, p, 'ptr')
        ex.require(st, z3.And(idx >= 0, idx < b.n), 'index of %s in range' % what)
        return b, idx
    if p.c or p.t:
        raise Unsupported('%s at an offset' % what)
    return b, None


def val0(b):
    if b.tag == 'fam':
        return z3.Function(b.id + '.val', IntS, IntS, RealS)(I_, J)
    return z3.Function(b.id + '.val', IntS, RealS)(J)


def vbody(b):
    if 'verfn' in b.ghost:      # contents named by a version number
        return z3.Function(b.ghost['verfn'], IntS, IntS, RealS)(b.ghost['ver'], J)
    v = b.ghost.get('val[]')
    if v is None:
        v = val0(b)
    return v


def vget(ex, st, p, fam=True):
    """entry function j -> term of the vector behind p"""
    b, idx = abspart(ex, st, p)
    v = vbody(b)
    if idx is not None:
        v = z3.substitute(v, (I_, idx))
    return lambda j: z3.simplify(z3.substitute(v, (J, j)))


def vspec(st, p):
    """entry function for use in specifications"""
    b = st.mem[p.b]
    v = vbody(b)
    if p.t:
        (s, i), = p.t
        v = z3.substitute(v, (I_, i))
    return lambda j: z3.simplify(z3.substitute(v, (J, j)))


def vput(ex, st, p, f, what='modified'):
    """entry j of the vector becomes f(j)"""
    b, idx = abspart(ex, st, p)
    if b.ghost.get('const'):
        ex.require(st, FALSE, 'constant operand %s' % what)
    old = vbody(b)
    new = f(J)
    if idx is not None:
        if I_.get_id() in [x.get_id() for x in z3util_vars(new)]:
            raise Unsupported('family index in vector value')
        new = z3.If(I_ == idx, new, old)
    w = st.wb(b.id)
    w.ghost.pop('verfn', None)
    w.ghost['val[]'] = z3.simplify(new)
    tagchanged(ex, st, p)


def z3util_vars(t):
    seen, out, todo = set(), [], [t]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_const(x):
            out.append(x)
        todo.extend(x.children())
    return out


def tagchanged(ex, st, p):
    pass


def abvec(v, name, n=None, dim=None, const=False):
    """an abstract vector, or a family of n of them (dim: term, in $I for families)"""
    if n is None:
        b = Block(name, 'rec', cls='Ipopt::Vector', lazy=True, tag='abs')
    else:
        b = Block(name, 'arr', cls='Ipopt::Vector', S=1000, n=n, lazy=True, tag='fam')
    if dim is not None:
        b.ghost['dim'] = dim
    if const:
        b.ghost['const'] = True
    b.ghost['val[]'] = val0(b)
    v.st.add(b)
    return Ptr(name)


def member(p, i, nul=None):
    return Ptr(p.b, 0, (), nul).add(0, ((1000, i),))


def z(a, x):
    """a*x, where x need not be defined if a is zero"""
    return z3.If(a == 0, rv(0), a * x)


sgn = lambda x: z3.If(x > 0, rv(1), z3.If(x < 0, rv(-1), rv(0)))
# definition of each operation: (order of arguments, entry of the result from scalars s, old entry o, operand entries x)
OPS = {
    'Set': ('s', lambda s, o, x: s[0]), 'Scal': ('s', lambda s, o, x: s[0] * o), 'AddScalar': ('s', lambda s, o, x: o + s[0]),
    'Copy': ('v', lambda s, o, x: x[0]), 'Axpy': ('sv', lambda s, o, x: o + z(s[0], x[0])),
    'ElementWiseDivide': ('v', lambda s, o, x: o / x[0]), 'ElementWiseMultiply': ('v', lambda s, o, x: o * x[0]),
    'ElementWiseSelect': ('v', lambda s, o, x: sgn(o) * x[0]), 'ElementWiseMax': ('v', lambda s, o, x: z3.If(o >= x[0], o, x[0])),
    'ElementWiseMin': ('v', lambda s, o, x: z3.If(o <= x[0], o, x[0])), 'ElementWiseReciprocal': ('', lambda s, o, x: 1 / o),
    'ElementWiseAbs': ('', lambda s, o, x: fabs(o)), 'ElementWiseSqrt': ('', lambda s, o, x: SQRT(o)), 'ElementWiseSgn': ('', lambda s, o, x: sgn(o)),
    'AddOneVector': ('svs', lambda s, o, x: z(s[0], x[0]) + z(s[1], o)),
    'AddTwoVectors': ('svsvs', lambda s, o, x: z(s[0], x[0]) + z(s[1], x[1]) + z(s[2], o)),
    'AddVectorQuotient': ('svvs', lambda s, o, x: z(s[0], x[0] / x[1]) + z(s[1], o)),
}


def _op(name):
    order, f = OPS[name]

    def m(ex, st, a, ins):
        s, x = [], []
        for c, y in zip(order, a[1:]):
            if c == 's':
                s.append(y)
            else:
                x.append(vget(ex, st, y))
        old = vget(ex, st, a[0])
        vput(ex, st, a[0], lambda j: f(s, old(j), [y(j) for y in x]), 'of ' + name)
        return ret(st)
    return m


for _n in OPS:
    ABS.reg('Ipopt::Vector::' + _n, 'contract', 'definition of the operation, proved for the implementations (C07, C08)')(_op(_n))

RED = {'Amax': RealS, 'Asum': RealS, 'Nrm2': RealS, 'Max': RealS, 'Min': RealS, 'Sum': RealS, 'SumLogs': RealS, 'HasValidNumbers': BoolS}


def ident(ex, st, p, what):
    """identity of an unmodified vector as (name, index terms)"""
    b, idx = abspart(ex, st, p)
    if 'val[]' in b.ghost and not z3.eq(b.ghost['val[]'], val0(b)):
        raise Unsupported('%s of a modified abstract vector' % what)
    return b.id, ([] if idx is None else [idx])


def redterm(name, ids, extra=()):
    nm = '%s(%s)' % (name, ','.join(i for i, _ in ids))
    args = [x for _, i in ids for x in i] + list(extra)
    so = RED.get(name, RealS)
    return z3.Function(nm, *([x.sort() for x in args] + [so]))(*args) if args else z3.Const(nm, so)


def _red(name):
    def m(ex, st, a, ins):
        ids = [ident(ex, st, x, name) for x in a if isinstance(x, Ptr)]
        return ret(st, redterm(name, ids, [x for x in a if not isinstance(x, Ptr)]))
    return m


for _n in list(RED) + ['Dot', 'FracToBound']:
    ABS.reg('Ipopt::Vector::' + _n, 'contract', 'a reduction is a function of the vector contents (C07, C08)')(_red(_n))


def vdim(ex, st, p):
    b, idx = abspart(ex, st, p)
    d = b.ghost.get('dim')
    if d is None:
        d = z3.Int(b.id + '.dim') if idx is None else z3.Function(b.id + '.dim', IntS, IntS)(I_)
    return d if idx is None else z3.simplify(z3.substitute(d, (I_, idx)))


def sdim(st, p):
    b = st.mem[p.b]
    d = b.ghost.get('dim')
    if not p.t:
        return z3.Int(b.id + '.dim') if d is None else d
    (s, i), = p.t
    return z3.simplify(z3.substitute(z3.Function(b.id + '.dim', IntS, IntS)(I_) if d is None else d, (I_, i)))


@ABS.reg('Ipopt::Vector::Dim', 'contract', 'dimension')
def m_dim(ex, st, a, ins):
    d = vdim(ex, st, a[0])
    st.assume(d >= 0)
    return ret(st, d)


@ABS.reg(['Ipopt::Vector::MakeNew', 'Ipopt::Vector::MakeNewCopy'], 'contract', 'a new vector of the same space')
def m_mknew(ex, st, a, ins):
    f = vget(ex, st, a[0])
    d = vdim(ex, st, a[0])
    b = ex.newblock(st, 'tmpvec')
    b.cls, b.tag = 'Ipopt::Vector', 'abs'
    b.heap = True
    b.ghost['dim'] = d
    if 'Copy' in ex.mod.dem[ins['f']]:
        b.ghost['val[]'] = f(J)
    else:
        b.ghost['val[]'] = z3.Function('uninit%d' % next(engine._uid), IntS, RealS)(J)
    return ret(st, Ptr(b.id))
