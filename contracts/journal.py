"""contracts of Ipopt::Journalist and Journal: a message reaches exactly the journals that accept it"""
from ipvlib import *
import re

SRCS = ['Common/IpJournalist.cpp']
JL, JR = 'Ipopt::Journalist', 'Ipopt::Journal'
REP = {JR: 'Ipopt::FileJournal', JL: JL}
MODELS = BASE.child()
MODELS.hide = ['Ipopt::Journalist']
ACC = z3.Function('accepted', IntS, IntS, IntS, BoolS)      # journal, category, level


def member(ex, st, p):
    b = ex.chk(st, p, 'journal')
    if b.tag != 'fam':
        raise Unsupported('journal outside the list')
    idx, fo = ex.elem(b, p, 'ptr')
    ex.require(st, z3.And(idx >= 0, idx < b.n), 'journal in range')
    return b, idx


def bump(st, b, g, idx, by=1):
    w = st.wb(b.id)
    w.ghost[g] = z3.simplify(z3.If(J == idx, w.ghost[g] + 1, w.ghost[g]))


@MODELS.regv(JR, 'IsAccepted', 'contract', 'whether the journal accepts the category at this level, see Journal::IsAccepted')
def m_acc(ex, st, a, ins):
    b, i = member(ex, st, a[0])
    return ret(st, ACC(i, a[1], a[2]))


@MODELS.regv(JR, 'Printf', 'interface', 'the journal prints the message')
def m_printf(ex, st, a, ins):
    b, i = member(ex, st, a[0])
    w = st.mem[b.id].ghost['want']
    ex.require(st, z3.And(a[1] == w[1], a[2] == w[0]), 'category and level are those of the message')
    ex.require(st, z3.BoolVal(isinstance(a[3], Ptr) and a[3].b == 'format'), 'the format is that of the message')
    t = z3.simplify(z3.substitute(st.mem[b.id].ghost['ind[]'], (J, i)))
    if z3.is_app(t) and t.decl().name().startswith('$F'):
        n = t.arg(t.num_args() - 1)          # a repeated addition of one
        ex.vv.induct(st, lambda k: z3.substitute(t, (n, k)) == k, n, 'count of the indentation')
    ex.require(st, t == w[2], 'the message is printed after its indentation')
    bump(st, b, 'msg[]', i)
    return ret(st)


@MODELS.regv(JR, 'Print', 'interface', 'the journal prints the text')
def m_print(ex, st, a, ins):
    b, i = member(ex, st, a[0])
    w = st.mem[b.id].ghost['want']
    ex.require(st, z3.And(a[1] == w[1], a[2] == w[0]), 'category and level are those of the message')
    ex.require(st, z3.substitute(st.mem[b.id].ghost['msg[]'], (J, i)) == 0, 'the indentation is printed before the message')
    bump(st, b, 'ind[]', i)
    return ret(st)


@MODELS.regv(JR, 'FlushBuffer', 'interface', 'the journal flushes')
def m_flush(ex, st, a, ins):
    b, i = member(ex, st, a[0])
    bump(st, b, 'flush[]', i)
    return ret(st)


@MODELS.regv(JL, ['VPrintf', 'VPrintfIndented'], 'contract', 'proved for the real body')
def m_vp(ex, st, a, ins):
    st.gh['fwd'] = st.gh.get('fwd', ()) + ((len(a), tuple(a[1:-1])),)
    return ret(st)


@MODELS.reg(['re:^llvm.va_copy', 're:^llvm.va_start', 're:^llvm.va_end'], 'intrinsic')
def m_va(ex, st, a, ins):
    return ret(st)


@MODELS.reg(['fprintf', 'vfprintf', 'fflush'], 'model', 'output to a file')
def m_fp(ex, st, a, ins):
    f = a[0]
    ex.require(st, z3.BoolVal(isinstance(f, Ptr) and f.b is not None) if not (isinstance(f, Ptr) and f.nul is not None) else z3.Not(f.nul), 'the file is open')
    st.gh['out'] = st.gh.get('out', ()) + (('file', f.b) + tuple(x.b if isinstance(x, Ptr) else x for x in a[1:]),)
    return ret(st, z3.Int('$fp%d' % next(engine_uid)))


import engine
engine_uid = engine._uid


def jobs():
    out = []

    def setup(v, nargs=4):
        v.n = v.int('journals')
        v.assume(v.n >= 0)
        p = v.obj(JL, 'this')
        b = Block('journal', 'arr', cls=JR, S=1000, n=v.n, lazy=True, tag='fam')
        v.st.add(b)
        ar = Block('this.journals', 'arr', S=8, n=v.n, lazy=True)
        ar.fields[0] = FamVal(Ptr('journal', 0, ((1000, J),)))
        v.st.add(ar)
        v.st.wb('this').cells[v.off(JL, 'journals_')] = Ptr('this.journals')
        v.lev, v.cat, v.ind = v.int('level'), v.int('category'), v.int('indent')
        for g in ('msg[]', 'ind[]', 'flush[]'):
            b.ghost[g] = iv(0)
        v.fmt = v.obj(None, 'format')
        v.ap = v.obj(None, 'ap')
        return p, b

    def at(st, g, j):
        return z3.simplify(z3.substitute(st.mem['journal'].ghost[g], (J, j)))

    def s_vp(v):
        p, b = setup(v)
        b.ghost['want'] = (v.lev, v.cat, iv(0))
        return [p, v.lev, v.cat, v.fmt, v.ap]

    def s_vpi(v):
        p, b = setup(v)
        v.wantind = z3.If(v.ind > 0, v.ind, 0)
        b.ghost['want'] = (v.lev, v.cat, v.wantind)
        return [p, v.lev, v.cat, v.ind, v.fmt, v.ap]

    def p_vp(v, kd, st, val):
        v.ensure(st, z3.BoolVal(kd == 'ret'), 'returns normally')
        j = v.skolem()
        st.assume(z3.And(j >= 0, j < v.n))
        v.ensure(st, at(st, 'msg[]', j) == z3.If(ACC(j, v.cat, v.lev), 1, 0), 'journal j prints the message once exactly if it accepts it')
        if hasattr(v, 'wantind'):
            v.ensure(st, at(st, 'ind[]', j) == z3.If(ACC(j, v.cat, v.lev), v.wantind, 0), 'journal j prints the indentation exactly if it accepts the message')
        v.frame(st, {('journal', ('g', 'msg[]')), ('journal', ('g', 'ind[]'))})
    out.append(Job('Journalist::VPrintf', JL + '::VPrintf', s_vp, p_vp))
    out.append(Job('Journalist::VPrintfIndented', JL + '::VPrintfIndented', s_vpi, p_vp))

    def s_prod(v):
        p, b = setup(v)
        b.ghost['want'] = (v.lev, v.cat, iv(0))
        return [p, v.lev, v.cat]
    def p_prod(v, kd, st, val):
        v.ensure(st, z3.BoolVal(kd == 'ret'), 'returns normally')
        q = z3.Int('$qj')
        none = z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < v.n), z3.Not(ACC(q, v.cat, v.lev))), patterns=[ACC(q, v.cat, v.lev)])
        j = v.skolem()
        st.assume(z3.And(j >= 0, j < v.n))
        v.ensure(st, z3.Implies(z3.Not(as_bool(val)), z3.Not(ACC(j, v.cat, v.lev))), 'without output no journal accepts the message')
        v.ensure(st, z3.Implies(as_bool(val), z3.Not(none)), 'output is produced only if some journal accepts the message')
        v.frame(st, set())
    out.append(Job('Journalist::ProduceOutput', JL + '::ProduceOutput', s_prod, p_prod))

    def s_fl(v):
        p, b = setup(v)
        return [p]

    def p_fl(v, kd, st, val):
        j = v.skolem()
        st.assume(z3.And(j >= 0, j < v.n))
        v.ensure(st, at(st, 'flush[]', j) == 1, 'every journal is flushed once')
        v.frame(st, {('journal', ('g', 'flush[]'))})
    out.append(Job('Journalist::FlushBuffer', JL + '::FlushBuffer', s_fl, p_fl))

    def fwd(meth, ind):
        def s(v):
            p, b = setup(v)
            return [p, v.lev, v.cat] + ([v.ind] if ind else []) + [v.fmt]

        def post(v, kd, st, val):
            f = st.gh.get('fwd', ())
            v.ensure(st, z3.BoolVal(len(f) == 1), 'the message is forwarded once')
            if len(f) == 1:
                w = [v.lev, v.cat] + ([v.ind] if ind else []) + [v.fmt]
                for x, y in zip(f[0][1], w):
                    v.ensure(st, z3.BoolVal(x.b == y.b) if isinstance(y, Ptr) else x == y, 'level, category and format are those of the message')
        out.append(Job('Journalist::' + meth, JL + '::' + meth, s, post))
    fwd('Printf', False)
    fwd('PrintfIndented', True)

    # ---- one journal
    def jr(v):
        p = v.obj(JR, 'this')
        o = v.off(JR, 'print_levels_')
        en = v.mod.enum('Ipopt::EJournalCategory')
        v.en = en
        v.lv = []
        b = v.st.wb('this')
        for c in range(en['J_LAST_CATEGORY']):
            x = v.int('print_level_%d' % c)
            b.cells[o + 4 * c] = x
            v.lv.append(x)
        return p, o

    for c in range(32):
        def s_ia(v, c=c):
            p, o = jr(v)
            v.lev = v.int('level')
            return [p, iv(c), v.lev]

        def p_ia(v, kd, st, val, c=c):
            v.ensure(st, as_bool(val) == (v.lv[c] >= v.lev), 'a message is accepted exactly if its level is at most the level set for its category')
            v.frame(st, set())
        out.append(Job('Journal::IsAccepted (category %d)' % c, JR + '::IsAccepted', s_ia, p_ia))

        def s_set(v, c=c):
            p, v.o = jr(v)
            v.lev = v.int('level')
            return [p, iv(c), v.lev]

        def p_set(v, kd, st, val, c=c):
            for k in range(v.en['J_LAST_CATEGORY']):
                v.ensure(st, st.mem['this'].cells[v.o + 4 * k] == (v.lev if k == c else v.lv[k]), 'exactly the level of the category is set')
        out.append(Job('Journal::SetPrintLevel (category %d)' % c, JR + '::SetPrintLevel', s_set, p_set))

    def s_all(v):
        p, v.o = jr(v)
        v.lev = v.int('level')
        return [p, v.lev]

    def p_all(v, kd, st, val):
        for k in range(v.en['J_LAST_CATEGORY']):
            v.ensure(st, st.mem['this'].cells[v.o + 4 * k] == (v.lev if k < v.en['J_USER_APPLICATION'] else v.lv[k]), 'the level of every category of the library is set, those of the user stay')
    out.append(Job('Journal::SetAllPrintLevels', JR + '::SetAllPrintLevels', s_all, p_all))
    return out
