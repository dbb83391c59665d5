"""contracts of Ipopt::SmartPtr and ReferencedObject: the count of an object changes by the number of smart pointers gained or lost"""
from ipvlib import *
import re

SRCS = ['/verif/contracts/inst/smartptr.cpp']
MODELS = BASE.child()
MODELS.hide = ['SmartPtr', 'GetRawPtr', 'ConstPtr', 'IsValid', 'IsNull']
OB, SPO = 'ipv_sp::Obj', 'Ipopt::SmartPtr<ipv_sp::Obj>'


WANT = {}


@MODELS.reg('ipv_sp::Obj::~Obj', 'model', 'the destructor of the object may destroy any object that is not counted yet')
def m_del(ex, st, a, ins):
    for n, f in WANT.items():
        f(st)
    b = ex.chk(st, a[0], 'destroyed object')
    st.wb(b.id).live = False
    return ret(st)


def jobs():
    out = []

    def pick_(m, pat):
        r = [m.getfn(*(reversed(k) if isinstance(k, tuple) else (k,))) for k in list(m.funcs) if re.search(pat, m.dem[k[1] if isinstance(k, tuple) else k])]
        c2 = [f for f in r if 'C2E' in f.name or 'D2E' in f.name or 'C2I' in f.name]
        r = c2 if len(r) == 2 and len(c2) == 1 else r
        if len(r) != 1:
            raise ir.ExtractError('%d functions match %s: %s' % (len(r), pat, [f.dem for f in r][:6]))
        return r[0]

    def cnt(v, st, p):
        return st.mem[p.b].cells[v.mod.baseoff(OB, 'Ipopt::ReferencedObject') + v.off('Ipopt::ReferencedObject', 'reference_count_')]

    def obj(v, n, least):
        p = v.obj(OB, n)
        c = v.int(n + '.count')
        v.assume(c >= least)
        v.st.wb(n).cells[v.mod.baseoff(OB, 'Ipopt::ReferencedObject') + v.off('Ipopt::ReferencedObject', 'reference_count_')] = c
        return p

    def sp(v, n, tgt):
        p = v.obj(SPO, n)
        v.set(v.st, p, 'ptr_', tgt)
        return p

    def ptrs(v, cfg, extra=()):
        """objects A, B and smart pointers s0.. of the configuration, e.g. 'A0B'; counts are at least the number of pointers in view"""
        v.A = obj(v, 'A', sum(1 for c in cfg if c == 'A'))
        v.B = obj(v, 'B', sum(1 for c in cfg if c == 'B'))
        t = {'A': v.A, 'B': v.B, '0': NULL}
        v.cfg = cfg
        v.s = [sp(v, 's%d' % i, t[c]) for i, c in enumerate(cfg)]
        return t

    def judge(v, kd, st, after, before=None, dead=()):
        """after: the objects the smart pointers refer to afterwards (None: pointer destroyed)"""
        v.ensure(st, z3.BoolVal(kd == 'ret'), 'returns normally')
        before = v.cfg if before is None else before
        t = {'A': v.A, 'B': v.B}
        for n, p in t.items():
            c0 = cnt(v, v.pre, p)
            d = sum(1 for c in after if c == n) - sum(1 for c in before if c == n)
            b = st.mem[n]
            if not b.live:
                v.ensure(st, z3.And(d < 0, c0 + d == 0), 'object %s is destroyed only when its last pointer goes away' % n)
            else:
                v.ensure(st, cnt(v, st, p) == c0 + d, 'count of object %s follows the number of pointers to it' % n)
                if d < 0:
                    v.ensure(st, c0 + d != 0, 'object %s is destroyed when its last pointer goes away' % n)
        for i, c in enumerate(after):
            if c is None:
                continue
            x = v.get(st, Ptr('s%d' % i), 'ptr_', 'ptr')
            v.ensure(st, z3.BoolVal(x.b == {'A': 'A', 'B': 'B', '0': None}[c]), 'pointer %d refers to the right object' % i)

    def job(name, pat, cfg, mkargs, after, before=None, retval=None):
        def setup(v):
            t = ptrs(v, cfg)
            WANT.clear()
            for n, p in (('A', v.A), ('B', v.B)):
                d = sum(1 for c in after if c == n) - sum(1 for c in (v.cfg if before is None else before) if c == n)
                if d > 0:
                    c1 = cnt(v, v.st, p) + d
                    WANT[n] = lambda st, p=p, c1=c1, n=n: v.ensure(st, cnt(v, st, p) >= c1, 'object %s is counted before the object referred to so far is destroyed' % n)
            return mkargs(v, t)

        def post(v, kd, st, val):
            judge(v, kd, st, after, before)
            if retval is not None:
                retval(v, st, val)
        out.append(Job('%s [%s]' % (name, cfg), lambda m: pick_(m, pat), setup, post))

    P = re.escape(SPO)
    # -- construction and destruction: pointer 0 is the one constructed (its contents before do not count)
    for c in 'A0':
        job('default constructor', '^' + P + r'::SmartPtr\(\)$', c, lambda v, t: [v.s[0]], '0', before='0')
        for d in 'AB0':
            job('copy constructor', '^' + P + r'::SmartPtr\(Ipopt::SmartPtr<ipv_sp::Obj> const&\)$', c + d, lambda v, t: v.s[:2], d + d, before='0' + d)
            job('copy constructor (derived class)', P + r'::SmartPtr<ipv_sp::Der>\(', c + d, lambda v, t: v.s[:2], d + d, before='0' + d)
            job('constructor from a raw pointer to ' + d, '^' + P + r'::SmartPtr\(ipv_sp::Obj\*\)$', c, lambda v, t, d=d: [v.s[0], t[d]], d, before='0')
    for c in 'A0':
        job('destructor', '^' + P + r'::~SmartPtr\(\)$', c, lambda v, t: [v.s[0]], [None])
    # -- assignment
    isself = lambda v, st, val: v.ensure(st, z3.BoolVal(isinstance(val, Ptr) and val.b == 's0'), 'result refers to the assigned pointer')
    for c in 'A0':
        for d in 'AB0':
            job('assignment', '^' + P + r'::operator=\(Ipopt::SmartPtr<ipv_sp::Obj> const&\)$', c + d, lambda v, t: v.s[:2], d + d, retval=isself)
            job('assignment (derived class)', P + r'::operator=<ipv_sp::Der>\(', c + d, lambda v, t: v.s[:2], d + d, retval=isself)
            job('assignment of a raw pointer to ' + d, '^' + P + r'::operator=\(ipv_sp::Obj\*\)$', c, lambda v, t, d=d: [v.s[0], t[d]], d, retval=isself)
        job('assignment to itself', '^' + P + r'::operator=\(Ipopt::SmartPtr<ipv_sp::Obj> const&\)$', c, lambda v, t: [v.s[0], v.s[0]], c, retval=isself)
    # -- access
    for c in 'A0':
        same = lambda v, st, val, c=c: v.ensure(st, z3.BoolVal(isinstance(val, Ptr) and val.b == (c if c == 'A' else None)), 'the stored pointer')
        job('GetRawPtr', r'Ipopt::GetRawPtr<ipv_sp::Obj>\(', c, lambda v, t: [v.s[0]], c, retval=same)
        tv = lambda b: (lambda v, st, val: v.ensure(st, as_bool(val) == z3.BoolVal(b), 'whether an object is referred to'))
        job('IsValid', r'Ipopt::IsValid<ipv_sp::Obj>\(', c, lambda v, t: [v.s[0]], c, retval=tv(c == 'A'))
        job('IsNull', r'Ipopt::IsNull<ipv_sp::Obj>\(', c, lambda v, t: [v.s[0]], c, retval=tv(c != 'A'))
        job('ConstPtr', r'Ipopt::ConstPtr<ipv_sp::Obj>\(', c + '0', lambda v, t: [v.s[1], v.s[0]], c + c)
    for c in 'A':
        same = lambda v, st, val: v.ensure(st, z3.BoolVal(isinstance(val, Ptr) and val.b == 'A'), 'the stored pointer')
        job('operator->', '^' + P + r'::operator->\(\) const$', c, lambda v, t: [v.s[0]], c, retval=same)
        job('operator*', '^' + P + r'::operator\*\(\) const$', c, lambda v, t: [v.s[0]], c, retval=same)
    # -- exchange and comparison
    for c in 'A0':
        for d in 'AB0':
            job('swap', r'Ipopt::swap<ipv_sp::Obj>\(', c + d, lambda v, t: v.s[:2], d + c)
            eq = lambda v, st, val, r=(c == d): v.ensure(st, as_bool(val) == z3.BoolVal(r), 'equal exactly if both refer to the same object')
            ne = lambda v, st, val, r=(c != d): v.ensure(st, as_bool(val) == z3.BoolVal(r), 'different exactly if they do not refer to the same object')
            job('operator== (derived class)', r'Ipopt::operator==<ipv_sp::Obj, ipv_sp::Der>', c + d, lambda v, t: v.s[:2], c + d, retval=eq)
            job('operator!=', r'Ipopt::operator!=<ipv_sp::Obj, ipv_sp::Obj>\(Ipopt::SmartPtr<ipv_sp::Obj> const&, Ipopt::SmartPtr<ipv_sp::Obj> const&\)', c + d, lambda v, t: v.s[:2], c + d, retval=ne)
            for op, rv_ in (('==', eq), ('!=', ne)):
                job('operator%s (raw pointer right)' % op, r'Ipopt::operator%s<ipv_sp::Obj, ipv_sp::Obj>\(Ipopt::SmartPtr<ipv_sp::Obj> const&, ipv_sp::Obj\*\)' % op, c + d, lambda v, t, d=d: [v.s[0], t[d]], c + d, retval=rv_)
                job('operator%s (raw pointer left)' % op, r'Ipopt::operator%s<ipv_sp::Obj, ipv_sp::Obj>\(ipv_sp::Obj\*, Ipopt::SmartPtr<ipv_sp::Obj> const&\)' % op, c + d, lambda v, t, d=d: [t[d], v.s[0]], c + d, retval=rv_)

    # -- counts
    def count(meth, delta):
        def setup(v):
            v.A = obj(v, 'A', 0)
            return [v.A] + ([v.nullable(v.obj(SPO, 'by'), v.bool('no referencer'))] if delta is not None else [])

        def post(v, kd, st, val):
            v.ensure(st, z3.BoolVal(kd == 'ret'), 'returns normally')
            c0 = cnt(v, v.pre, v.A)
            v.ensure(st, cnt(v, st, v.A) == c0 + (delta or 0), 'the count changes by %d' % (delta or 0))
            if delta is None:
                v.ensure(st, val == c0, 'the count')
        out.append(Job('ReferencedObject::' + meth, 'Ipopt::ReferencedObject::' + meth, setup, post))
    count('AddRef', 1)
    count('ReleaseRef', -1)
    count('ReferenceCount', None)
    return out
