"""contracts of Ipopt::MonotoneMuUpdate"""
from ipvlib import *
from alg import *

SRCS = ['Algorithm/IpMonotoneMuUpdate.cpp', 'Common/IpJournalist.cpp', 'Algorithm/IpOrigIpoptNLP.cpp']
CL = 'Ipopt::MonotoneMuUpdate'
REP = {'Ipopt::IpoptNLP': 'Ipopt::OrigIpoptNLP'}
MODELS = ALG.child()
OBJS = z3.Function('apply_obj_scaling', RealS, RealS)
BERR = z3.Function('cq.barrier_error', RealS, RealS)


@MODELS.reg('Ipopt::IpoptCalculatedQuantities::curr_barrier_error', 'contract', 'function of the current iterate and the current barrier parameter (C17)')
def m_berr(ex, st, a, ins):
    return ret(st, BERR(ex.vv.get(st, ex.vv.d, 'curr_mu_')))


@MODELS.reg('Ipopt::IpoptNLP::NLP_scaling', 'contract', 'the scaling object')
def m_scal(ex, st, a, ins):
    if 'scaling' not in st.mem:
        st.add(Block('scaling', 'rec', cls='Ipopt::NLPScalingObject', lazy=True))
    ex.store(st, a[0], Ptr('scaling'))
    return ret(st)


@MODELS.reg('Ipopt::NLPScalingObject::apply_obj_scaling', 'contract', 'function of its argument (C16)')
def m_aos(ex, st, a, ins):
    return ret(st, OBJS(a[1] if isz(a[1]) else ex.load(st, a[1], "double")))


@MODELS.reg('Ipopt::LineSearch::Reset', 'interface', 'counted')
def m_reset(ex, st, a, ins):
    b = st.wb('ghost')
    b.cells[0] = b.cells[0] + 1
    b.cells[8] = ex.vv.get(st, ex.vv.d, 'curr_mu_')
    return ret(st)


def jobs():
    out = []

    def setup0(v):
        p, F = strategy(v, CL)
        v.p, v.F = p, F
        v.ls = v.obj('Ipopt::LineSearch', 'ls')
        v.set(v.st, p, 'linesearch_', v.ls)
        g = v.obj(None, 'ghost')
        b = v.st.wb('ghost')
        b.cells[0] = z3.Int('resets0')
        b.cells[8] = z3.Real('mu_at_reset0')
        D = v.D
        # registered ranges (C13) and class invariants
        v.assume(z3.And(F['barrier_tol_factor_'] > 0, 0 < F['mu_linear_decrease_factor_'], F['mu_linear_decrease_factor_'] < 1, F['mu_superlinear_decrease_power_'] > 1,
                        F['mu_superlinear_decrease_power_'] < 2, F['tau_min_'] > 0, F['tau_min_'] < 1, F['mu_target_'] >= 0, F['compl_inf_tol_'] > 0, D['tol_'] > 0, D['curr_mu_'] > 0, OBJS(F['compl_inf_tol_']) != 0))
        c = fabs(OBJS(F['compl_inf_tol_']))
        v.floor = Max2(F['mu_target_'], z3.If(D['tol_'] <= c, D['tol_'], c) / (F['barrier_tol_factor_'] + 1))
        v.taumin = F['tau_min_']
        v.tauof = lambda mu: Max2(F['tau_min_'], 1 - mu)

        def nxt(mu):
            a, b = F['mu_linear_decrease_factor_'] * mu, POW(mu, F['mu_superlinear_decrease_power_'])
            return Max2(z3.If(a <= b, a, b), v.floor)
        v.nxt = nxt

    def Max2(a, b):
        return z3.If(a >= b, a, b)

    def s_calc(v):
        setup0(v)
        v.a, v.b = v.cell('new_mu', v.real('nm0')), v.cell('new_tau', v.real('nt0'))
        return [v.p, v.a, v.b]

    def p_calc(v, kind, st, val):
        v.ensure(st, z3.BoolVal(kind == 'ret'), 'returns normally')
        nm, nt = st.mem['new_mu'].cells[0], st.mem['new_tau'].cells[0]
        mu = v.D['curr_mu_']
        v.ensure(st, nm == v.nxt(mu), 'new mu follows the Fiacco-McCormick formula')
        v.ensure(st, nm >= v.floor, 'new mu is not below its floor')
        v.ensure(st, z3.Implies(mu >= v.floor, nm <= mu), 'new mu is not larger than mu unless mu was below the floor')
        v.ensure(st, nt == v.tauof(nm), 'new tau is 1 - mu, but at least tau_min')
        v.frame(st, {('new_mu', 0), ('new_tau', 0)})
    out.append(Job('MonotoneMuUpdate::CalcNewMuAndTau', CL + '::CalcNewMuAndTau', s_calc, p_calc))

    def s_init(v):
        setup0(v)
        o = v.obj('Ipopt::OptionsList', 'options')
        pr = v.string('prefix')
        v.assume(opt('mu_init') > 0)
        return [v.p, o, pr]

    def p_init(v, kind, st, val):
        v.ensure(st, z3.BoolVal(kind == 'ret'), 'returns normally')
        v.ensure(st, as_bool(val), 'success')
        for n in ('mu_init', 'barrier_tol_factor', 'mu_linear_decrease_factor', 'mu_superlinear_decrease_power', 'tau_min', 'compl_inf_tol', 'mu_target'):
            v.ensure(st, v.get(st, v.p, n + '_') == opt(n), 'option %s' % n)
        v.ensure(st, as_bool(v.get(st, v.p, 'mu_allow_fast_monotone_decrease_')) == opt('mu_allow_fast_monotone_decrease', BoolS), 'option mu_allow_fast_monotone_decrease')
        mu, tau = v.get(st, v.d, 'curr_mu_'), v.get(st, v.d, 'curr_tau_')
        v.ensure(st, mu == opt('mu_init'), 'the first mu is mu_init')
        v.ensure(st, tau == Max2(opt('tau_min'), 1 - mu), 'the first tau is 1 - mu but at least tau_min')
        v.ensure(st, z3.Not(as_bool(v.get(st, v.p, 'initialized_'))), 'no update was done yet')
        v.ensure(st, as_bool(v.get(st, v.p, 'first_iter_resto_')) == (z3.String('prefix') == z3.StringVal('resto.')), 'first update is skipped exactly in the restoration phase')
    out.append(Job('MonotoneMuUpdate::InitializeImpl', CL + '::InitializeImpl', s_init, p_init))

    for resto in (False, True):
        def s_upd(v, resto=resto):
            setup0(v)
            v.st.wb('this').cells[v.off(CL, 'first_iter_resto_')] = z3.BoolVal(resto)
            return [v.p]

        def inv(v, st, st0):
            mu, tau = v.get(st, v.d, 'curr_mu_'), v.get(st, v.d, 'curr_tau_')
            mu0, tau0 = v.D['curr_mu_'], v.D['curr_tau_']
            n, nmu = st.mem['ghost'].cells[0], st.mem['ghost'].cells[8]
            n0 = z3.Int('resets0')
            F = v.F
            tiny0 = v.D['tiny_step_flag_']
            kap = F['barrier_tol_factor_']
            first = z3.And(mu == mu0, tau == tau0)
            ok0 = z3.Or(BERR(mu0) <= kap * mu0, tiny0)
            nodec = z3.And(F['initialized_'], z3.Not(F['mu_allow_fast_monotone_decrease_']))
            later = z3.And(ok0, tau == v.tauof(mu), mu >= v.floor, z3.Implies(mu0 >= v.floor, mu <= mu0))
            must = [('mu only moves down to its floor', z3.Or(first, later)),
                    ('the line search is reset at most once, when mu has changed, for the final mu', z3.Or(n == n0, z3.And(n == n0 + 1, mu != mu0, nmu == mu))),
                    ('mu is positive', mu > 0),
                    ('a mu below its floor is only raised to it', z3.Implies(mu0 < v.floor, z3.Or(mu == mu0, mu == v.floor))),
                    ('first change follows the formula', z3.Or(mu == mu0, z3.And(mu <= Max2(v.nxt(mu0), v.floor)))),
                    ('without fast decrease mu is the next value', z3.Implies(nodec, z3.Or(mu == mu0, mu == v.nxt(mu0))))]
            return {'must': must, 'terms': [mu, tau, kap * mu, BERR(mu), mu0, n, n - n0], 'preds': [n == n0, mu != mu0, first, tiny0, later, BERR(mu) > kap * mu, mu == v.floor, z3.Or(mu != mu0, z3.Not(tiny0)),
                              z3.And(nodec, z3.Not(first)), z3.Or(BERR(mu) > kap * mu, v.nxt(mu) == mu, nodec), z3.Or(n == n0 + 1, mu == mu0), z3.Or(BERR(mu) <= kap * mu, first), later, z3.Or(mu != mu0, v.nxt(mu0) == mu0)]}

        def p_upd(v, kind, st, val, resto=resto):
            mu0, tau0, F = v.D['curr_mu_'], v.D['curr_tau_'], v.F
            mu, tau = v.get(st, v.d, 'curr_mu_'), v.get(st, v.d, 'curr_tau_')
            n0, n, nmu = z3.Int('resets0'), st.mem['ghost'].cells[0], st.mem['ghost'].cells[8]
            kap = F['barrier_tol_factor_']
            tiny0 = v.D['tiny_step_flag_']
            need = z3.And(z3.Or(BERR(mu0) <= kap * mu0, tiny0), z3.BoolVal(not resto))
            v.ensure(st, z3.Not(v.get(st, v.d, 'tiny_step_flag_')), 'the tiny step flag is consumed')
            if kind != 'ret':
                v.ensure(st, z3.BoolVal(throws(kind, val, 'TINY_STEP_DETECTED')), 'only a tiny step is thrown')
                v.ensure(st, z3.And(need, tiny0, v.nxt(mu0) == mu0, mu == mu0, n == n0), 'tiny step is reported only if there was one and mu cannot be changed')
                return
            v.ensure(st, as_bool(val), 'success')
            v.ensure(st, z3.Implies(z3.Not(need), z3.And(mu == mu0, tau == tau0, n == n0)), 'nothing changes unless the barrier problem is solved or the step is tiny')
            v.ensure(st, z3.Implies(need, z3.And(mu >= v.floor, tau == v.tauof(mu))), 'after an update mu is not below its floor and tau belongs to mu')
            v.ensure(st, z3.Implies(z3.And(need, mu0 >= v.floor), mu <= v.nxt(mu0)), 'mu decreases at least by the formula and never increases')
            v.ensure(st, z3.Implies(mu0 < v.floor, z3.Or(mu == mu0, mu == v.floor)), 'a mu below its floor is only raised to it')
            v.ensure(st, z3.Implies(z3.And(need, F['initialized_'], z3.Not(F['mu_allow_fast_monotone_decrease_'])), mu == v.nxt(mu0)), 'one step of the formula if fast decrease is not allowed')
            v.ensure(st, z3.Implies(z3.And(need, z3.Not(z3.And(F['initialized_'], z3.Not(F['mu_allow_fast_monotone_decrease_'])))), z3.Or(BERR(mu) > kap * mu, v.nxt(mu) == mu)), 'otherwise mu is decreased until the barrier problem is not solved any more or mu is fixed')
            v.ensure(st, z3.Implies(mu != mu0, z3.And(n == n0 + 1, nmu == mu)), 'after any change of mu the line search is reset, with the new mu in place')
            v.ensure(st, z3.Implies(mu == mu0, n == n0), 'no reset without change')
            v.ensure(st, z3.And(as_bool(v.get(st, v.p, 'initialized_')), z3.Not(as_bool(v.get(st, v.p, 'first_iter_resto_')))), 'flags')
            v.frame(st, {('this', v.off(CL, 'initialized_')), ('this', v.off(CL, 'first_iter_resto_')), ('ghost', 0), ('ghost', 8)} | {('data', v.off('Ipopt::IpoptData', x)) for x in ('curr_mu_', 'curr_tau_', 'tiny_step_flag_', 'mu_initialized_', 'tau_initialized_')})
        out.append(Job('MonotoneMuUpdate::UpdateBarrierParameter%s' % (' (first restoration iteration)' if resto else ''), CL + '::UpdateBarrierParameter', s_upd, p_upd, inv={CL + '::UpdateBarrierParameter': inv}, merge=True))
    return out
