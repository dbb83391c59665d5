"""contracts of Ipopt::PDPerturbationHandler (inertia correction)"""
from ipvlib import *

SRCS = ['Algorithm/IpPDPerturbationHandler.cpp', 'Common/IpJournalist.cpp']
CL = 'Ipopt::PDPerturbationHandler'
MODELS = BASE.child()


@MODELS.reg('Ipopt::IpoptData::Append_info_string', 'model', 'the iteration info string is output only')
def m_ais(ex, st, a, ins):
    return ret(st)


SCAL = ['delta_x_last_', 'delta_s_last_', 'delta_c_last_', 'delta_d_last_', 'delta_x_curr_', 'delta_s_curr_', 'delta_c_curr_', 'delta_d_curr_',
        'hess_degenerate_', 'jac_degenerate_', 'degen_iters_', 'test_status_']
# enumerators, by name
NYD, NOTDEG, DEG = 'NOT_YET_DETERMINED', 'NOT_DEGENERATE', 'DEGENERATE'


class S:
    """abstract state of the handler; spec functions return new states as case distinctions"""

    def __init__(s, d):
        s.__dict__.update(d)

    def upd(s, **k):
        d = dict(s.__dict__)
        d.update(k)
        return S(d)


def ite(c, a, b):
    """case distinction between two (state, flags) tuples"""
    if isinstance(a, S):
        return S({k: (a.__dict__[k] if a.__dict__[k] is b.__dict__[k] else z3.If(c, a.__dict__[k], b.__dict__[k])) for k in a.__dict__})
    if isinstance(a, tuple):
        return tuple(ite(c, x, y) for x, y in zip(a, b))
    return z3.If(c, a, b)


def spec(v, P, mu):
    D = v.mod.enum(CL + '::DegenType')
    T = v.mod.enum(CL + '::TrialStatus')
    cd = P['delta_cd_val_'] * POW(mu, P['delta_cd_exp_'])
    nyd, notdeg, deg = D[NYD], D[NOTDEG], D[DEG]
    E00, E10, E01, E11, NO = (T['TEST_DELTA_C_EQ_0_DELTA_X_EQ_0'], T['TEST_DELTA_C_GT_0_DELTA_X_EQ_0'], T['TEST_DELTA_C_EQ_0_DELTA_X_GT_0'], T['TEST_DELTA_C_GT_0_DELTA_X_GT_0'], T['NO_TEST'])
    mx, mn, first, inc, dec, ini = [P[x] for x in ('delta_xs_max_', 'delta_xs_min_', 'delta_xs_first_inc_fact_', 'delta_xs_inc_fact_', 'delta_xs_dec_fact_', 'delta_xs_init_')]

    def finalize(s):
        """conclusions from the running degeneracy test"""
        h, j = s.hess == nyd, s.jac == nyd
        n = s.deg + 1
        enough = n >= P['degen_iters_max_']
        r = s
        a00 = s.upd(hess=z3.If(h, iv(notdeg), s.hess), jac=z3.If(j, iv(notdeg), s.jac))
        a10 = s.upd(hess=z3.If(h, iv(notdeg), s.hess), deg=z3.If(j, n, s.deg), jac=z3.If(z3.And(j, enough), iv(deg), s.jac))
        a01 = s.upd(jac=z3.If(j, iv(notdeg), s.jac), deg=z3.If(h, n, s.deg), hess=z3.If(z3.And(h, enough), iv(deg), s.hess))
        a11 = s.upd(deg=n, hess=z3.If(enough, iv(deg), s.hess), jac=z3.If(enough, iv(deg), s.jac))
        for k, a in ((E00, a00), (E10, a10), (E01, a01), (E11, a11)):
            r = ite(s.test == k, a, r)
        return r

    def wrong(s):
        """next trial perturbation of the Hessian: (state, success)"""
        nx = z3.If(s.xc == 0, z3.If(s.xl == 0, ini, z3.If(mn >= s.xl * dec, mn, s.xl * dec)),
                   z3.If(z3.Or(s.xl == 0, 100000 * s.xl < s.xc), first * s.xc, inc * s.xc))
        ok = nx <= mx
        return ite(ok, s.upd(xc=nx, sc=nx, regu=nx), s.upd(xc=nx, xl=rv(0), sl=rv(0))), ok

    def consider(s):
        s = finalize(s)
        def last(l, c):
            return z3.If(P['reset_last_'], c, z3.If(c > 0, c, l))
        s = s.upd(xl=last(s.xl, s.xc), sl=last(s.sl, s.sc), cl=last(s.cl, s.cc), dl=last(s.dl, s.dc))
        und = z3.Or(s.hess == nyd, s.jac == nyd)
        s = s.upd(test=z3.If(und, z3.If(P['perturb_always_cd_'], iv(E10), iv(E00)), iv(NO)))
        c = z3.If(z3.Or(s.jac == deg, P['perturb_always_cd_']), cd, rv(0))
        s = s.upd(cc=c, dc=c)
        w, ok = wrong(s.upd(xc=rv(0), sc=rv(0)))
        z = s.upd(xc=rv(0), sc=rv(0), regu=rv(0))
        return ite(s.hess == deg, w, z), z3.If(s.hess == deg, ok, TRUE)

    def singular(s):
        und = z3.Or(s.hess == nyd, s.jac == nyd)
        fin = lambda x: x.upd(regu=x.xc)

        def wr(x, t):
            """Hessian perturbation, then test status t"""
            w, ok = wrong(x)
            return ite(ok, fin(w.upd(test=iv(t))), w), ok
        T1 = (fin(s.upd(cc=cd, dc=cd, test=iv(E10))), TRUE)
        k00 = ite(s.jac == nyd, T1, wr(s, E01))
        k10 = ite(P['perturb_always_cd_'], wr(s, E11), wr(s.upd(cc=rv(0), dc=rv(0)), E01))
        k01 = wr(s.upd(cc=cd, dc=cd), E11)
        k11 = wr(s, E11)
        r = (fin(s), TRUE)
        for k, a in ((E00, k00), (E10, k10), (E01, k01), (E11, k11)):
            r = ite(s.test == k, a, r)
        w, ok = wrong(s)
        notund = ite(s.cc > 0, (w, ok), (fin(s.upd(cc=cd, dc=cd)), TRUE))
        return ite(und, r, notund)

    def wronginertia(s):
        s = finalize(s)
        w, ok = wrong(s)
        again = wrong(w.upd(cc=cd, dc=cd, xc=rv(0), sc=rv(0), test=iv(NO), hess=z3.If(w.hess == deg, iv(nyd), w.hess)))
        return ite(z3.And(z3.Not(ok), s.cc == 0), again, (w, ok))
    return finalize, wrong, consider, singular, wronginertia, cd


MAP = dict(xl='delta_x_last_', sl='delta_s_last_', cl='delta_c_last_', dl='delta_d_last_', xc='delta_x_curr_', sc='delta_s_curr_', cc='delta_c_curr_', dc='delta_d_curr_',
           hess='hess_degenerate_', jac='jac_degenerate_', deg='degen_iters_', test='test_status_')


def jobs():
    out = []

    def pre(v):
        p = v.obj(CL, 'this')
        F = v.fields(p)
        d = v.obj('Ipopt::IpoptData', 'data')
        G = v.fields(d, only=('curr_mu_', 'info_regu_x_'))
        v.set(v.st, p, 'ip_data_', d)
        v.set(v.st, d, 'info_string_', z3.StringVal(''))
        v.p, v.d, v.F, v.mu = p, d, F, G['curr_mu_']
        v.s0 = S(dict({k: F[n] for k, n in MAP.items()}, regu=G['info_regu_x_']))
        s = v.s0
        # registered ranges of the options and the invariant of the class
        v.assume(z3.And(F['delta_xs_max_'] > 0, F['delta_xs_min_'] >= 0, F['delta_xs_first_inc_fact_'] > 1, F['delta_xs_inc_fact_'] > 1, F['delta_xs_dec_fact_'] > 0, F['delta_xs_dec_fact_'] < 1,
                        F['delta_xs_init_'] > 0, F['delta_cd_val_'] >= 0, F['delta_cd_exp_'] >= 0, v.mu > 0))
        v.assume(POW(v.mu, F['delta_cd_exp_']) > 0)
        v.assume(z3.And(s.xc == s.sc, s.cc == s.dc, s.xl >= 0, s.sl >= 0, s.xc >= 0, s.cc >= 0, s.cl >= 0, s.dl >= 0, s.deg >= 0))
        v.out = [v.cell(n, v.real(n)) for n in ('dx', 'ds', 'dc', 'dd')]
        # the caller passes the perturbations it was given last
        v.assume(z3.And(v.real('dc') == s.cc, v.real('dd') == s.cc))
        v.spec = spec(v, F, v.mu)

    def now(v, st):
        return S(dict({k: v.get(st, v.p, n) for k, n in MAP.items()}, regu=v.get(st, v.d, 'info_regu_x_')))

    ALLOWED = lambda v: {('this', v.off(CL, n)) for n in list(MAP.values()) + ['get_deltas_for_wrong_inertia_called_']} | {('data', v.off('Ipopt::IpoptData', 'info_regu_x_')), ('dx', 0), ('ds', 0), ('dc', 0), ('dd', 0)}

    def add(meth, which):
        def setup(v):
            pre(v)
            return [v.p] + v.out

        def post(v, kind, st, val):
            v.ensure(st, z3.BoolVal(kind == 'ret'), 'returns normally')
            if kind != 'ret':
                return
            want, ok = v.spec[which](v.s0)
            s = now(v, st)
            rv_ = as_bool(val)
            v.ensure(st, rv_ == ok, 'reports success exactly when the required perturbation is within the maximum')
            v.ensure(st, z3.Implies(rv_, z3.And(s.xc >= 0, z3.Or(s.xc == 0, s.xc == v.s0.xc, s.xc <= v.F['delta_xs_max_']))), 'a perturbation determined here is zero or at most the maximum')
            v.ensure(st, z3.And(s.xc >= 0, s.cc >= 0, s.xl >= 0, s.deg >= v.s0.deg, z3.Implies(rv_, z3.And(s.xc == s.sc, s.cc == s.dc))), 'class invariant')
            D = v.mod.enum(CL + '::DegenType')
            for f, w in (('hess', 'Hessian'), ('jac', 'Jacobian')):
                v.ensure(st, z3.Implies(z3.And(s.__dict__[f] == D[DEG], v.s0.__dict__[f] != D[DEG]), s.deg >= v.F['degen_iters_max_']), '%s degenerate only after the configured number of observations' % w)
            for k in MAP:
                v.ensure(st, s.__dict__[k] == want.__dict__[k], '%s follows the update rule' % MAP[k])
            v.ensure(st, s.regu == want.regu, 'reported regularisation is the new perturbation')
            for n, k in enumerate(('xc', 'sc', 'cc', 'dc')):
                v.ensure(st, z3.Implies(rv_, v.ex.load(st, v.out[n], 'double') == s.__dict__[k]), 'the caller receives the perturbation stored as current')
            v.frame(st, ALLOWED(v))
        out.append(Job('PDPerturbationHandler::' + meth, CL + '::' + meth, setup, post, budget=200, merge=True))
    add('ConsiderNewSystem', 2)
    add('PerturbForSingularity', 3)
    add('PerturbForWrongInertia', 4)
    add('get_deltas_for_wrong_inertia', 1)

    def s_cur(v):
        pre(v)
        return [v.p] + v.out

    def p_cur(v, kind, st, val):
        v.ensure(st, z3.BoolVal(kind == 'ret'), 'returns normally')
        for n, k in enumerate(('xc', 'sc', 'cc', 'dc')):
            v.ensure(st, v.ex.load(st, v.out[n], 'double') == v.s0.__dict__[k], 'current perturbation is returned')
        v.frame(st, {('dx', 0), ('ds', 0), ('dc', 0), ('dd', 0)})
    out.append(Job('PDPerturbationHandler::CurrentPerturbation', CL + '::CurrentPerturbation', s_cur, p_cur))

    def s_fin(v):
        pre(v)
        return [v.p]

    def p_fin(v, kind, st, val):
        v.ensure(st, z3.BoolVal(kind == 'ret'), 'returns normally')
        want = v.spec[0](v.s0)
        s = now(v, st)
        for k in MAP:
            v.ensure(st, s.__dict__[k] == want.__dict__[k], '%s after the test' % MAP[k])
        v.frame(st, ALLOWED(v))
    out.append(Job('PDPerturbationHandler::finalize_test', CL + '::finalize_test', s_fin, p_fin))

    def p_cd(v, kind, st, val):
        v.ensure(st, z3.BoolVal(kind == 'ret'), 'returns normally')
        v.ensure(st, val == v.spec[5], 'constraint perturbation is delta_bar * mu^kappa')
        v.frame(st, set())
    out.append(Job('PDPerturbationHandler::delta_cd', CL + '::delta_cd', s_fin, p_cd))
    return out
