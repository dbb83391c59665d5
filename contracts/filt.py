"""contracts of Ipopt::FilterEntry, Filter and FilterLSAcceptor"""
from ipvlib import *
from alg import *
from models import strval
import stl

SRCS = ['Algorithm/IpFilter.cpp', 'Algorithm/IpFilterLSAcceptor.cpp', 'Common/IpJournalist.cpp', 'Algorithm/IpOrigIpoptNLP.cpp', 'Common/IpUtils.cpp']
REP = {'Ipopt::IpoptNLP': 'Ipopt::OrigIpoptNLP'}
FE, FI, LS = 'Ipopt::FilterEntry', 'Ipopt::Filter', 'Ipopt::FilterLSAcceptor'
# predicates over the stored entries, for the coordinates the operation was called with
ACC = z3.Function('entry_accepts', IntS, BoolS)
DOM = z3.Function('entry_dominated', IntS, BoolS)
ENTRY = BASE.child()     # FilterEntry itself
FILTER = ALG.child()     # Filter over entries
MODELS = ALG.child()     # line search over the filter
FACC = z3.Function('filter_accepts', RealS, RealS, BoolS)
LOG10 = z3.Function('log10', RealS, RealS)


def vec(v, p, field, name, n, cls=None):
    """a std::vector<Number> member with n arbitrary entries"""
    d = v.arr(name, n)
    b = v.st.wb(p.b)
    b.cells[p.c + (v.off(cls, field) if cls else 0)] = d
    return v.body(v.st, d)


def entry_slot(ex, st, p):
    b = st.mem[p.b]
    idx, fo = ex.elem(b, p, 'ptr')
    ex.require(st, z3.Not(z3.substitute(b.ghost.get('rel[]', FALSE), (J, idx))), 'entry is not released')
    return idx


def samevals(ex, st, p):
    """the vector passed on has the contents of the one the operation was called with"""
    d = stl.vdata(ex, st, p)
    f, g = st.mem[d.b], st.mem['vals']
    j = z3.Int('$j%d' % next(engine._uid))
    ex.require(st, f.n == g.n, 'coordinates are passed on completely')
    a, b = f.fields[0], g.fields[0]
    ex.require(st, z3.Implies(z3.And(j >= 0, j < g.n), z3.substitute(a, (J, j)) == z3.substitute(b, (J, j))), 'coordinates are passed on unchanged')


@FILTER.reg(FE + '::Acceptable', 'contract', 'proved for the real body: some coordinate is not larger than that of the entry')
def m_eacc(ex, st, a, ins):
    samevals(ex, st, a[1])
    return ret(st, ACC(entry_slot(ex, st, a[0])))


@FILTER.reg(FE + '::Dominated', 'contract', 'proved for the real body: no coordinate is larger than that of the entry')
def m_edom(ex, st, a, ins):
    samevals(ex, st, a[1])
    return ret(st, DOM(entry_slot(ex, st, a[0])))


@FILTER.reg(FE + '::FilterEntry', 'contract', 'proved for the real body: stores coordinates and iteration')
def m_ector(ex, st, a, ins):
    samevals(ex, st, a[1])
    b = st.wb(a[0].b)
    b.ghost['entry'] = TRUE
    b.cells['iter'] = a[2]
    return ret(st)


@MODELS.reg(FI + '::Acceptable', 'contract', 'proved for the real body')
def m_facc(ex, st, a, ins):
    if len(a) != 3:
        raise Unsupported('general form of Filter::Acceptable')
    filtarg(ex, st, a[0])
    g = st.mem['ghost']
    ex.require(st, g.cells['cleared'] == 0, 'filter is asked before it is cleared', kind='model')
    return ret(st, FACC(a[1], a[2]))


def filtarg(ex, st, p):
    o = ex.vv.off(LS, 'filter_')
    ex.require(st, z3.BoolVal(p.b == 'this' and p.c == o and not p.t), 'own filter')


@MODELS.reg(FI + '::AddEntry', 'contract', 'proved for the real body')
def m_fadd(ex, st, a, ins):
    if len(a) != 4:
        raise Unsupported('general form of Filter::AddEntry')
    filtarg(ex, st, a[0])
    b = st.wb('ghost')
    b.cells['added'] = b.cells['added'] + 1
    b.cells['phi'], b.cells['theta'], b.cells['iter'] = a[1], a[2], a[3]
    return ret(st)


@MODELS.reg(FI + '::Clear', 'contract', 'proved for the real body')
def m_fclear(ex, st, a, ins):
    filtarg(ex, st, a[0])
    b = st.wb('ghost')
    b.cells['cleared'] = b.cells['cleared'] + 1
    return ret(st)


@MODELS.reg(FI + '::Print', 'model', 'output only')
def m_fprint(ex, st, a, ins):
    return ret(st)


TWO = ALG.child()


@TWO.reg([FI + '::Acceptable', FI + '::AddEntry'], 'contract', 'general form, proved for the real body')
def m_two(ex, st, a, ins):
    d = stl.vdata(ex, st, a[1])
    g = st.wb('ghost')
    f = rd(ex, st, d.add(0, ((8, iv(0)),)), 'double')
    g.cells['n'] = st.mem[d.b].n
    g.cells[0], g.cells[1] = z3.simplify(f(iv(0))), z3.simplify(f(iv(1)))
    if len(a) > 2:
        g.cells['it'] = a[2]
        return ret(st)
    return ret(st, z3.Bool('general'))


def jobs():
    out = []

    # ---- one entry
    def s_entry(v):
        p = v.obj(FE, 'this')
        v.n = v.int('ncoor')
        v.assume(v.n >= 0)
        v.e = vec(v, p, 'vals_', 'entry', v.n, FE)
        q = v.obj(None, 'valsobj')
        d = v.arr('vals', v.n)
        v.st.wb('valsobj').cells[0] = d
        v.c = v.body(v.st, d)
        return [p, q]

    def p_eacc(v, kind, st, val):
        v.ensure(st, z3.BoolVal(kind == 'ret'), 'returns normally')
        i = z3.Int('i')
        some = z3.Exists([i], z3.And(i >= 0, i < v.n, v.c(i) <= v.e(i)))
        val = as_bool(val)
        v.ensure(st, z3.Implies(val, some), 'accepted only if some coordinate is not larger than that of the entry')
        j = v.skolem()
        v.ensure(st, z3.Implies(z3.And(z3.Not(val), j >= 0, j < v.n), v.c(j) > v.e(j)), 'rejected only if every coordinate is larger than that of the entry')
        v.frame(st, set())

    def p_edom(v, kind, st, val):
        v.ensure(st, z3.BoolVal(kind == 'ret'), 'returns normally')
        i = z3.Int('i')
        val = as_bool(val)
        v.ensure(st, z3.Implies(z3.Not(val), z3.Exists([i], z3.And(i >= 0, i < v.n, v.c(i) > v.e(i)))), 'not dominated only if some coordinate is larger than that of the entry')
        j = v.skolem()
        v.ensure(st, z3.Implies(z3.And(val, j >= 0, j < v.n), v.c(j) <= v.e(j)), 'dominated only if no coordinate is larger than that of the entry')
        v.frame(st, set())
    out.append(Job('FilterEntry::Acceptable', FE + '::Acceptable', s_entry, p_eacc, models=ENTRY))
    out.append(Job('FilterEntry::Dominated', FE + '::Dominated', s_entry, p_edom, models=ENTRY))

    def s_ector(v):
        p = v.obj(FE, 'this')
        v.n = v.int('ncoor')
        v.assume(v.n >= 0)
        q = v.obj(None, 'valsobj')
        d = v.arr('vals', v.n)
        v.st.wb('valsobj').cells[0] = d
        v.c = v.body(v.st, d)
        v.it = v.int('iter')
        return [p, q, v.it]

    def p_ector(v, kind, st, val):
        v.ensure(st, z3.BoolVal(kind == 'ret'), 'returns normally')
        d = stl.vdata(v.ex, st, Ptr('this', v.off(FE, 'vals_')))
        j = v.skolem()
        v.ensure(st, st.mem[d.b].n == v.n, 'all coordinates are stored')
        v.ensure(st, z3.BoolVal(d.b != 'vals'), 'the entry has its own copy')
        v.ensure(st, z3.Implies(z3.And(j >= 0, j < v.n), v.body(st, d)(j) == v.c(j)), 'coordinates are stored')
        v.ensure(st, v.get(st, Ptr('this'), 'iter_') == v.it, 'iteration is stored')
    out.append(Job('FilterEntry::FilterEntry', FE + '::FilterEntry', s_ector, p_ector, models=ENTRY))

    # ---- the filter
    def filt(v):
        p = v.obj(FI, 'this')
        v.fields(p)
        v.n = v.int('nentries')
        v.assume(v.n >= 0)
        b = Block('entries', 'arr', cls=FE, S=max(o + sz for n, o, sz, t in v.mod.classes[FE]['m']) + 7 & ~7, n=v.n, lazy=True, tag='fam')
        v.st.add(b)
        S = b.S
        v.lo = v.off(FI, 'filter_list_')
        stl.mklist(v.st, Ptr('this', v.lo), 'nodes', iv(0), v.n, FamVal(Ptr('entries', 0, ((S, J),))))
        v.S = S
        return p

    def valsarg(v):
        q = v.obj(None, 'valsobj')
        v.nc = v.int('ncoor')
        v.assume(v.nc >= 0)
        d = v.arr('vals', v.nc)
        v.st.wb('valsobj').cells[0] = d
        v.body(v.st, d)
        return q

    def s_acc(v):
        return [filt(v), valsarg(v)]

    def p_acc(v, kind, st, val):
        v.ensure(st, z3.BoolVal(kind == 'ret'), 'returns normally')
        val = as_bool(val)
        i = z3.Int('i')
        v.ensure(st, z3.Implies(z3.Not(val), z3.Exists([i], z3.And(i >= 0, i < v.n, z3.Not(ACC(i))))), 'rejected only because of some entry')
        j = v.skolem()
        v.ensure(st, z3.Implies(z3.And(val, j >= 0, j < v.n), ACC(j)), 'accepted only if every entry accepts')
        v.frame(st, set())
    out.append(Job('Filter::Acceptable', lambda m: pick(m, FI + '::Acceptable', 'vector'), s_acc, p_acc, models=FILTER))

    def s_add(v):
        v.it = v.int('iteration')
        return [filt(v), valsarg(v), v.it]

    def p_add(v, kind, st, val):
        v.ensure(st, z3.BoolVal(kind == 'ret'), 'returns normally')
        d, lo, hi = stl.lparts(v.ex, st, Ptr('this', v.lo))
        v.ensure(st, z3.And(lo == 0, hi == v.n + 1), 'exactly one entry is added')
        j = v.skolem()
        R = z3.And(j >= 0, j < v.n)
        v.ensure(st, z3.Implies(R, stl.alive(v.ex, st, d, j) == z3.Not(DOM(j))), 'exactly the dominated entries are removed')
        v.ensure(st, z3.Implies(R, z3.substitute(st.mem['entries'].ghost.get('rel[]', FALSE), (J, j)) == DOM(j)), 'exactly the removed entries are released')
        v.ensure(st, stl.alive(v.ex, st, d, v.n), 'the new entry is in the list')
        e = stl.lelem(v.ex, st, d, v.n)
        ok = isinstance(e, Ptr) and 'entry' in st.mem[e.b].ghost and st.mem[e.b].live
        v.ensure(st, z3.BoolVal(ok), 'the new entry is constructed from the coordinates')
        if ok:
            v.ensure(st, st.mem[e.b].cells['iter'] == v.it, 'iteration of the new entry')
        k = v.skolem()
        s2 = st.fork()
        s2.assume(z3.And(k >= 0, k < v.n, z3.Not(DOM(k))))
        q = stl.lelem(v.ex, s2, d, k)
        v.ensure(s2, v.ex.pcmp(s2, 'eq', q, Ptr('entries', 0, ((v.S, k),))), 'other entries stay')
        v.frame(st, {('nodes', '*'), ('entries', ('g', 'rel[]')), ('this', v.lo + 16)})
    out.append(Job('Filter::AddEntry', lambda m: pick(m, FI + '::AddEntry', 'vector'), s_add, p_add, models=FILTER))

    def s_clear(v):
        return [filt(v)]

    def p_clear(v, kind, st, val):
        v.ensure(st, z3.BoolVal(kind == 'ret'), 'returns normally')
        d, lo, hi = stl.lparts(v.ex, st, Ptr('this', v.lo))
        v.ensure(st, lo == hi, 'the filter is empty')
        j = v.skolem()
        v.ensure(st, z3.Implies(z3.And(j >= 0, j < v.n), z3.substitute(st.mem['entries'].ghost.get('rel[]', FALSE), (J, j))), 'all entries are released')
        v.frame(st, {('nodes', '*'), ('entries', ('g', 'rel[]')), ('this', v.lo + 16)})
    out.append(Job('Filter::Clear', FI + '::Clear', s_clear, p_clear, models=FILTER))


    # ---- two-dimensional forms
    def s_two(v):
        v.it = v.int('iteration')
        v.obj(None, 'ghost')
        return [filt(v), v.real('v1'), v.real('v2')]

    def s_two3(v):
        return s_two(v) + [v.it]

    def p_two(add):
        def p(v, kind, st, val):
            v.ensure(st, z3.BoolVal(kind == 'ret'), 'returns normally')
            g = st.mem['ghost'].cells
            v.ensure(st, z3.BoolVal('n' in g), 'the general form is called')
            if 'n' not in g:
                return
            v.ensure(st, z3.And(g['n'] == 2, g[0] == v.real('v1'), g[1] == v.real('v2')), 'both coordinates are passed on in order')
            if add:
                v.ensure(st, g['it'] == v.it, 'iteration is passed on')
            else:
                v.ensure(st, as_bool(val) == z3.Bool('general'), 'result is passed on')
            v.frame(st, {('ghost', '*')})
        return p
    out.append(Job('Filter::Acceptable (2)', lambda m: pick(m, FI + '::Acceptable', 'double, double'), s_two, p_two(False), models=TWO))
    out.append(Job('Filter::AddEntry (2)', lambda m: pick(m, FI + '::AddEntry', 'double, double'), s_two3, p_two(True), models=TWO))

    # ---- acceptance tests of the line search
    EPS = z3.RealVal('1/4503599627370496')

    def mx(a, b):
        return z3.If(a >= b, a, b)

    def mn(a, b):
        return z3.If(a <= b, a, b)

    def setup(v):
        p, F = strategy(v, LS)
        v.p, v.F = p, F
        v.set(v.st, p, 'pd_solver_', v.nullable(v.obj('Ipopt::PDSystemSolver', 'pds'), v.bool('pds.null')))
        v.obj(None, 'ghost')
        g = v.st.wb('ghost')
        g.cells.update(added=iv(0), cleared=iv(0), phi=rv(0), theta=rv(0), iter=iv(0))
        v.rt, v.rb, v.g = F['reference_theta_'], F['reference_barr_'], F['reference_gradBarrTDelta_']
        # registered ranges (C13), a constraint violation is not negative
        v.assume(z3.And(v.rt >= 0, F['gamma_theta_'] > 0, F['gamma_theta_'] < 1, F['gamma_phi_'] > 0, F['gamma_phi_'] < 1, F['eta_phi_'] > 0, F['eta_phi_'] < rv(0.5), F['delta_'] > 0, F['alpha_min_frac_'] > 0, F['alpha_min_frac_'] < 1, F['max_filter_resets_'] >= 0, F['filter_reset_trigger_'] >= 1))
        v.gc = z3.If(z3.And(v.rt == 0, v.g > 0, v.g < 100 * EPS), -EPS, v.g)
        v.alpha = v.real('alpha')
        return p

    def ftype(v, al):
        F = v.F
        return z3.And(v.gc < 0, al * POW(-v.gc, F['s_phi_']) > F['delta_'] * POW(v.rt, F['s_theta_']))

    def le(a, b, base):
        return a - b <= 10 * EPS * fabs(base)
    TB, TT = cqval('trial_barrier_obj', []), cqval('trial_constraint_violation', [])
    CB, CT, CG = cqval('curr_barrier_obj', []), cqval('curr_constraint_violation', []), cqval('curr_gradBarrTDelta', [])

    def armijo(v, al, g):
        return le(TB - v.rb, v.F['eta_phi_'] * al * g, v.rb)

    def curit(v, tb, tt, resto):
        F = v.F
        base = z3.If(fabs(v.rb) > 10, LOG10(fabs(v.rb)), rv(1))
        fast = z3.And(z3.Not(resto), tb > v.rb, LOG10(tb - v.rb) > F['obj_max_inc_'] + base)
        return z3.And(z3.Not(fast), z3.Or(le(tt, (1 - F['gamma_theta_']) * v.rt, v.rt), le(tb - v.rb, -F['gamma_phi_'] * v.rt, v.rb)))

    def F_(*names):
        return lambda v: {('this', v.off(LS, n)) for n in names}

    def nochange(v, st, *names):
        v.frame(st, {('this', v.off(LS, n)) for n in names})

    def s_alpha(v):
        return [setup(v), v.alpha]

    def p_ftype(v, kind, st, val):
        v.ensure(st, z3.BoolVal(kind == 'ret'), 'returns normally')
        v.ensure(st, as_bool(val) == ftype(v, v.alpha), 'switching condition')
        v.ensure(st, v.get(st, v.p, 'reference_gradBarrTDelta_') == v.gc, 'only a tiny positive slope at a feasible point is corrected')
        nochange(v, st, 'reference_gradBarrTDelta_')
    out.append(Job('FilterLSAcceptor::IsFtype', LS + '::IsFtype', s_alpha, p_ftype))

    def p_arm(v, kind, st, val):
        v.ensure(st, z3.BoolVal(kind == 'ret'), 'returns normally')
        v.ensure(st, as_bool(val) == armijo(v, v.alpha, v.g), 'Armijo condition for the barrier objective')
        nochange(v, st)
    out.append(Job('FilterLSAcceptor::ArmijoHolds', LS + '::ArmijoHolds', s_alpha, p_arm))

    def s_cur(v):
        return [setup(v), v.real('tb'), v.real('tt'), v.bool('resto')]

    def p_cur(v, kind, st, val):
        v.ensure(st, z3.BoolVal(kind == 'ret'), 'returns normally')
        v.ensure(st, as_bool(val) == curit(v, v.real('tb'), v.real('tt'), v.bool('resto')), 'sufficient decrease with respect to the current iterate')
        nochange(v, st)
    out.append(Job('FilterLSAcceptor::IsAcceptableToCurrentIterate', LS + '::IsAcceptableToCurrentIterate', s_cur, p_cur, merge=True))

    def s_curf(v):
        return [setup(v), v.real('tb'), v.real('tt')]

    def p_curf(v, kind, st, val):
        v.ensure(st, z3.BoolVal(kind == 'ret'), 'returns normally')
        v.ensure(st, as_bool(val) == FACC(v.real('tb'), v.real('tt')), 'the pair (barrier objective, constraint violation) is tested against the filter')
        nochange(v, st)
    out.append(Job('FilterLSAcceptor::IsAcceptableToCurrentFilter', LS + '::IsAcceptableToCurrentFilter', s_curf, p_curf))

    def s_this(v):
        return [setup(v)]

    def p_amin(v, kind, st, val):
        F = v.F
        v.ensure(st, z3.BoolVal(kind == 'ret'), 'returns normally')
        a1 = mn(F['gamma_theta_'], F['gamma_phi_'] * CT / (-CG))
        a2 = mn(a1, F['delta_'] * POW(CT, F['s_theta_']) / POW(-CG, F['s_phi_']))
        v.ensure(st, val == F['alpha_min_frac_'] * z3.If(CG < 0, z3.If(CT <= F['theta_min_'], a2, a1), F['gamma_theta_']), 'minimal step size')
        nochange(v, st)
    out.append(Job('FilterLSAcceptor::CalculateAlphaMin', LS + '::CalculateAlphaMin', s_this, p_amin))

    def added(v, st, n):
        g = st.mem['ghost'].cells
        v.ensure(st, g['added'] == n, 'the filter is augmented exactly when required')
        v.ensure(st, z3.Implies(n == 1, z3.And(g['phi'] == v.rb - v.F['gamma_phi_'] * v.rt, g['theta'] == (1 - v.F['gamma_theta_']) * v.rt, g['iter'] == v.D['iter_count_'])), 'the new entry is the reference point with margins')
        v.ensure(st, g['cleared'] == 0, 'the filter is not cleared')

    def p_aug(v, kind, st, val):
        v.ensure(st, z3.BoolVal(kind == 'ret'), 'returns normally')
        added(v, st, iv(1))
        v.frame(st, {('ghost', '*')})
    out.append(Job('FilterLSAcceptor::AugmentFilter', LS + '::AugmentFilter', s_this, p_aug))
    out.append(Job('FilterLSAcceptor::PrepareRestoPhaseStart', LS + '::PrepareRestoPhaseStart', s_this, p_aug))

    def p_upd(v, kind, st, val):
        v.ensure(st, z3.BoolVal(kind == 'ret'), 'returns normally')
        ok = z3.And(ftype(v, v.alpha), armijo(v, v.alpha, v.gc))
        added(v, st, z3.If(ok, iv(0), iv(1)))
        v.ensure(st, as_int(val) == z3.If(ok, iv(ord('f')), iv(ord('h'))), 'type of the step')
        v.frame(st, {('ghost', '*'), ('this', v.off(LS, 'reference_gradBarrTDelta_'))})
    out.append(Job('FilterLSAcceptor::UpdateForNextIteration', LS + '::UpdateForNextIteration', s_alpha, p_upd))

    def s_init(v):
        return [setup(v), v.bool('in_watchdog')]

    def p_init(v, kind, st, val):
        v.ensure(st, z3.BoolVal(kind == 'ret'), 'returns normally')
        w = v.bool('in_watchdog')
        for n, x in (('theta_', CT), ('barr_', CB), ('gradBarrTDelta_', CG)):
            v.ensure(st, v.get(st, v.p, 'reference_' + n) == z3.If(w, v.F['watchdog_' + n], x), 'reference point is the current iterate or the watchdog start')
        v.ensure(st, z3.And(st.mem['ghost'].cells['added'] == 0, st.mem['ghost'].cells['cleared'] == 0), 'the filter is kept')
        nochange(v, st, 'reference_theta_', 'reference_barr_', 'reference_gradBarrTDelta_')
    out.append(Job('FilterLSAcceptor::InitThisLineSearch', LS + '::InitThisLineSearch', s_init, p_init))

    def p_sw(v, kind, st, val):
        v.ensure(st, z3.BoolVal(kind == 'ret'), 'returns normally')
        for n, x in (('theta_', CT), ('barr_', CB), ('gradBarrTDelta_', CG)):
            v.ensure(st, v.get(st, v.p, 'watchdog_' + n) == x, 'current iterate is stored as watchdog start')
        nochange(v, st, 'watchdog_theta_', 'watchdog_barr_', 'watchdog_gradBarrTDelta_')

    def p_pw(v, kind, st, val):
        v.ensure(st, z3.BoolVal(kind == 'ret'), 'returns normally')
        for n in ('theta_', 'barr_', 'gradBarrTDelta_'):
            v.ensure(st, v.get(st, v.p, 'reference_' + n) == v.F['watchdog_' + n], 'reference point is the watchdog start again')
        nochange(v, st, 'reference_theta_', 'reference_barr_', 'reference_gradBarrTDelta_')
    out.append(Job('FilterLSAcceptor::StartWatchDog', LS + '::StartWatchDog', s_this, p_sw))
    out.append(Job('FilterLSAcceptor::StopWatchDog', LS + '::StopWatchDog', s_this, p_pw))

    def p_reset(v, kind, st, val):
        v.ensure(st, z3.BoolVal(kind == 'ret'), 'returns normally')
        v.ensure(st, st.mem['ghost'].cells['cleared'] == 1, 'the filter is emptied')
        v.ensure(st, z3.And(z3.Not(as_bool(v.get(st, v.p, 'last_rejection_due_to_filter_'))), v.get(st, v.p, 'count_successive_filter_rejections_') == 0), 'no rejection is remembered')
        v.ensure(st, st.mem['ghost'].cells['added'] == 0, 'nothing is added to the filter')
        v.frame(st, {('ghost', '*'), ('this', v.off(LS, 'last_rejection_due_to_filter_')), ('this', v.off(LS, 'count_successive_filter_rejections_'))})
    out.append(Job('FilterLSAcceptor::Reset', LS + '::Reset', s_this, p_reset))

    def p_chk(v, kind, st, val):
        F, al = v.F, v.alpha
        v.ensure(st, z3.BoolVal(kind == 'ret'), 'returns normally')
        tmax = z3.If(F['theta_max_'] < 0, F['theta_max_fact_'] * mx(rv(1), v.rt), F['theta_max_'])
        tmin = z3.If(F['theta_min_'] < 0, F['theta_min_fact_'] * mx(rv(1), v.rt), F['theta_min_'])
        toolarge = z3.And(tmax > 0, TT > tmax)
        first = z3.If(z3.And(al > 0, ftype(v, al), v.rt <= tmin), armijo(v, al, v.gc), z3.If(al > 0, curit(v, TB, TT, FALSE), curit(v, TB, TT, FALSE)))
        acc = z3.And(z3.Not(toolarge), first, FACC(TB, TT))
        val = as_bool(val)
        v.ensure(st, z3.Implies(val, z3.Not(toolarge)), 'accepted only below the maximal constraint violation')
        v.ensure(st, z3.Implies(val, FACC(TB, TT)), 'accepted only if acceptable to the filter')
        v.ensure(st, z3.Implies(val, first), 'accepted only with the Armijo condition (switching condition holds) or sufficient decrease')
        v.ensure(st, z3.Implies(acc, val), 'accepted if all conditions hold')
        v.ensure(st, v.get(st, v.p, 'theta_max_') == tmax, 'maximal constraint violation is fixed once')
        v.ensure(st, v.get(st, v.p, 'theta_min_') == tmin, 'threshold of the switching condition is fixed once')
        g = st.mem['ghost'].cells
        v.ensure(st, g['added'] == 0, 'a test never adds to the filter')
        last0, cnt0, n0 = F['last_rejection_due_to_filter_'], F['count_successive_filter_rejections_'], F['n_filter_resets_']
        reset = z3.And(acc, F['max_filter_resets_'] > 0, n0 < F['max_filter_resets_'], last0, cnt0 + 1 >= F['filter_reset_trigger_'])
        v.ensure(st, g['cleared'] == z3.If(reset, iv(1), iv(0)), 'the filter is reset only by the reset heuristic')
        v.ensure(st, v.get(st, v.p, 'n_filter_resets_') == n0 + z3.If(reset, iv(1), iv(0)), 'resets are counted')
        v.ensure(st, as_bool(v.get(st, v.p, 'last_rejection_due_to_filter_')) == z3.If(toolarge, last0, z3.And(z3.Not(acc), first)), 'reason of the last rejection')
        v.ensure(st, v.get(st, v.p, 'count_successive_filter_rejections_') == z3.If(z3.And(acc, F['max_filter_resets_'] > 0, n0 < F['max_filter_resets_']), z3.If(z3.And(last0, z3.Not(reset)), cnt0 + 1, iv(0)), cnt0), 'successive rejections by the filter')
        v.ensure(st, v.get(st, v.p, 'reference_gradBarrTDelta_') == z3.If(z3.And(z3.Not(toolarge), al > 0), v.gc, v.g), 'slope correction')
        v.frame(st, {('ghost', '*')} | {('this', v.off(LS, n)) for n in ('theta_max_', 'theta_min_', 'n_filter_resets_', 'last_rejection_due_to_filter_', 'count_successive_filter_rejections_', 'reference_gradBarrTDelta_')})
    out.append(Job('FilterLSAcceptor::CheckAcceptabilityOfTrialPoint', LS + '::CheckAcceptabilityOfTrialPoint', s_alpha, p_chk))

    def s_ini(v):
        p = setup(v)
        return [p, v.obj('Ipopt::OptionsList', 'options'), v.string('prefix')]

    def p_ini(v, kind, st, val):
        bad = z3.Or(opt('theta_min_fact') >= opt('theta_max_fact'), z3.And(opt('max_soc', IntS) > 0, v.bool('pds.null')))
        if kind != 'ret':
            v.ensure(st, z3.BoolVal(throws(kind, val, 'OPTION_INVALID')), 'exception class')
            v.ensure(st, bad, 'exception only for inconsistent options')
            return
        v.ensure(st, z3.And(as_bool(val), z3.Not(bad)), 'success')
        for n in ('theta_max_fact', 'theta_min_fact', 'eta_phi', 'delta', 's_phi', 's_theta', 'gamma_phi', 'gamma_theta', 'alpha_min_frac', 'kappa_soc', 'obj_max_inc'):
            v.ensure(st, v.get(st, v.p, n + '_') == opt(n), 'option ' + n)
        for n in ('max_soc', 'max_filter_resets', 'filter_reset_trigger', 'soc_method'):
            v.ensure(st, v.get(st, v.p, n + '_') == opt(n, IntS), 'option ' + n)
        v.ensure(st, z3.And(v.get(st, v.p, 'theta_max_') < 0, v.get(st, v.p, 'theta_min_') < 0, v.get(st, v.p, 'n_filter_resets_') == 0, st.mem['ghost'].cells['cleared'] >= 1), 'a new solve starts with an empty filter')
    out.append(Job('FilterLSAcceptor::InitializeImpl', LS + '::InitializeImpl', s_ini, p_ini))
    return out


def pick(m, name, sub):
    r = [f for f in m.find(name) if sub in f.dem]
    if len(r) != 1:
        raise ir.ExtractError('%s(%s)' % (name, sub))
    return r[0]
