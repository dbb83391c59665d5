"""contracts of Ipopt::TripletToCSRConverter"""
from ipvlib import *

SRCS = ['Algorithm/LinearSolvers/IpTripletToCSRConverter.cpp']
CL = 'Ipopt::TripletToCSRConverter'
MODELS = BASE.child()


def idx(v, name, n, lo, hi):
    a = v.arr(name, n, S=4, ty='i32')
    f = v.body(v.st, a, 'i32')
    q = z3.Int('$q_' + name)
    v.assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < n), z3.And(f(q) >= lo, f(q) < hi)), patterns=[f(q)]))
    return a, f


def jobs():
    out = []

    def setup(v):
        nt, nc, nd = v.int('nonzeros_triplet'), v.int('nonzeros_compressed'), v.int('num_doubles')
        v.assume(z3.And(nt >= 0, nc >= 0, nd >= 0))
        v.nt, v.nc, v.nd = nt, nc, nd
        p = v.obj(CL, 'this')
        v.fields(p)
        for k, x in (('nonzeros_triplet_', nt), ('nonzeros_compressed_', nc), ('num_doubles_', nd), ('initialized_', TRUE)):
            v.set(v.st, p, k, x)
        # object invariant established by InitializeConverter
        a, v.first = idx(v, 'ipos_first', nc, 0, nt)
        b, v.dt = idx(v, 'ipos_double_triplet', nd, 0, nt)
        c, v.dc = idx(v, 'ipos_double_compressed', nd, 0, nc)
        for k, x in (('ipos_first_', a), ('ipos_double_triplet_', b), ('ipos_double_compressed_', c)):
            v.set(v.st, p, k, x)
        v.at, v.ac = v.arr('a_triplet', nt), v.arr('a_compressed', nc)
        v.val = v.body(v.st, v.at)
        return [p, nt, v.at, nc, v.ac]

    def post(v, kd, st, val):
        v.ensure(st, z3.BoolVal(kd == 'ret'), 'returns normally')
        if kd != 'ret':
            return
        j = v.skolem()
        st.assume(z3.And(j >= 0, j < v.nc))
        v.ensure(st, v.body(st, v.ac)(j) == fold1(v.val(v.first(j)), lambda a, k: z3.If(v.dc(k) == j, a + v.val(v.dt(k)), a), v.nd),
                 'compressed value j is the first triplet value of its position plus all repeated ones')
        v.frame(st, {('a_compressed', ('f', 0))})
    out.append(Job('TripletToCSRConverter::ConvertValues', CL + '::ConvertValues', setup, post))

    def entry(meth, setup, post):
        out.append(Job('TripletEntry::' + meth, CL + '::TripletEntry::' + meth, setup, post))
    TE = CL + '::TripletEntry'

    def ent(v, n):
        p = v.obj(TE, n)
        f = v.fields(p, n)
        return p, f

    def s_set(v):
        p, f = ent(v, 'this')
        v.i, v.j, v.pos = v.int('i'), v.int('j'), v.int('pos')
        return [p, v.i, v.j, v.pos]

    def p_set(v, kd, st, val):
        p = Ptr('this')
        g = lambda n: v.get(st, p, n)
        v.ensure(st, z3.And(g('i_row_') == z3.If(v.i < v.j, v.i, v.j), g('j_col_') == z3.If(v.i < v.j, v.j, v.i), g('i_pos_triplet_') == v.pos), 'the entry is stored in the upper triangle')
    entry('Set', s_set, p_set)

    def s_lt(v):
        p, v.a = ent(v, 'this')
        q, v.b = ent(v, 'that')
        return [p, q]

    def p_lt(v, kd, st, val):
        a, b = v.a, v.b
        v.ensure(st, as_bool(val) == z3.Or(a['i_row_'] < b['i_row_'], z3.And(a['i_row_'] == b['i_row_'], a['j_col_'] < b['j_col_'])), 'entries are ordered by row, then by column')
        v.frame(st, set())
    entry('operator<', s_lt, p_lt)

    def s_ctor(v):
        p = v.obj(CL, 'this')
        v.offs, v.hf = v.int('offset'), v.int('hf')
        return [p, v.offs, v.hf]

    def p_ctor(v, kd, st, val):
        p = Ptr('this')
        v.ensure(st, z3.And(v.get(st, p, 'offset_') == v.offs, v.get(st, p, 'hf_') == v.hf, z3.Not(as_bool(v.get(st, p, 'initialized_')))), 'offset and format are stored, not initialized')
        for k in ('ia_', 'ja_', 'ipos_first_', 'ipos_double_triplet_', 'ipos_double_compressed_'):
            x = v.get(st, p, k)
            v.ensure(st, z3.BoolVal(x.b is None), k + ' is not allocated')
    out.append(Job('TripletToCSRConverter constructor', CL + '::TripletToCSRConverter', s_ctor, p_ctor))
    return out
