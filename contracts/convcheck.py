"""contracts of Ipopt::OptimalityErrorConvergenceCheck"""
from ipvlib import *
from alg import *

SRCS = ['Algorithm/IpOptErrorConvCheck.cpp', 'Common/IpJournalist.cpp', 'Algorithm/IpOrigIpoptNLP.cpp']
CL = 'Ipopt::OptimalityErrorConvergenceCheck'
REP = {'Ipopt::IpoptNLP': 'Ipopt::OrigIpoptNLP'}
MODELS = ALG.child()


@MODELS.regv('Ipopt::IpoptNLP', 'IntermediateCallBack', 'interface', 'the user callback may return either value')
def m_icb(ex, st, a, ins):
    st.gh['callback'] = (st.gh.get('callback', (0,))[0] + 1, tuple(a[1:12]) + tuple(ex.load(st, x, 'ptr') for x in a[12:]))
    return ret(st, z3.Bool('user_continues'))


def jobs():
    out = []

    def setup0(v):
        p, F = strategy(v, CL)
        v.p, v.F = p, F
        v.assume(F['acceptable_counter_'] >= 0)
        v.assume(redval(Ptr('curr.x'), 'Dim') >= 0)

    def quant(v):
        F, D = v.F, v.D
        E = lambda n, *a: cqval(n, a)
        NM = iv(v.mod.enum('Ipopt::ENormType')['NORM_MAX'])
        err, du, pr, co = E('curr_nlp_error'), E('unscaled_curr_dual_infeasibility', NM), E('unscaled_curr_nlp_constraint_violation', NM), E('unscaled_curr_complementarity', F['mu_target_'], NM)
        same = D['iter_count_'] == F['last_obj_val_iter_']
        last = z3.If(same, F['last_obj_val_'], F['curr_obj_val_'])
        cur = z3.If(same, F['curr_obj_val_'], E('curr_f'))
        mag = z3.If(fabs(cur) >= 1, fabs(cur), rv(1))
        acc = z3.And(err <= F['acceptable_tol_'], du <= F['acceptable_dual_inf_tol_'], pr <= F['acceptable_constr_viol_tol_'], co <= F['acceptable_compl_inf_tol_'], fabs(cur - last) / mag <= F['acceptable_obj_change_tol_'])
        conv = z3.And(err <= D['tol_'], du <= F['dual_inf_tol_'], pr <= F['constr_viol_tol_'], co <= F['compl_inf_tol_'])
        return NM, E, last, cur, acc, conv, pr

    def s_acc(v):
        setup0(v)
        return [v.p]

    OBJ = ('curr_obj_val_', 'last_obj_val_', 'last_obj_val_iter_')

    def p_acc(v, kind, st, val):
        v.ensure(st, z3.BoolVal(kind == 'ret'), 'returns normally')
        NM, E, last, cur, acc, conv, pr = quant(v)
        v.ensure(st, as_bool(val) == acc, 'acceptable exactly if every acceptable-level tolerance including the objective change is met')
        v.ensure(st, v.get(st, v.p, 'curr_obj_val_') == cur, 'objective of this iterate is remembered')
        v.ensure(st, v.get(st, v.p, 'last_obj_val_') == last, 'objective of the previous iterate is kept')
        v.ensure(st, v.get(st, v.p, 'last_obj_val_iter_') == v.D['iter_count_'], 'iteration of the remembered objective')
        v.frame(st, {('this', v.off(CL, f)) for f in OBJ})
    out.append(Job('OptimalityErrorConvergenceCheck::CurrentIsAcceptable', CL + '::CurrentIsAcceptable', s_acc, p_acc))

    def s_chk(v):
        setup0(v)
        v.cb = v.bool('call_intermediate_callback')
        return [v.p, v.cb]

    def p_chk(v, kind, st, val):
        F, D = v.F, v.D
        NM, E, last, cur, acc, conv, pr = quant(v)
        S = v.mod.enum('Ipopt::ConvergenceCheck::ConvergenceStatus')
        dim0 = redval(Ptr('curr.x'), 'Dim') == 0
        stop = z3.And(v.cb, z3.Not(z3.Bool('user_continues')))
        if kind != 'ret':
            v.ensure(st, z3.BoolVal(throws(kind, val, 'LOCALLY_INFEASIBLE')), 'only local infeasibility is thrown')
            v.ensure(st, z3.And(z3.Not(stop), dim0, z3.Not(pr <= F['constr_viol_tol_'])), 'local infeasibility only if there is no free variable and the constraints are violated')
            return
        isacc = z3.And(F['acceptable_iter_'] > 0, acc)
        cnt = z3.If(isacc, F['acceptable_counter_'] + 1, iv(0))
        t0 = v.off('Ipopt::IpoptData', 'timing_statistics_')
        o = v.mod.fieldoff('Ipopt::TimingStatistics', 'OverallAlgorithm_')[0]
        cpu0 = z3.Real('data.%d' % (t0 + o + v.mod.fieldoff('Ipopt::TimedTask', 'start_cputime_')[0]))
        wall0 = z3.Real('data.%d' % (t0 + o + v.mod.fieldoff('Ipopt::TimedTask', 'start_walltime_')[0]))
        r = iv(S['CONTINUE'])
        big = rv(1e20)
        for c, n in reversed([(stop, 'USER_STOP'), (conv, 'CONVERGED'), (z3.And(dim0, pr <= F['constr_viol_tol_']), 'CONVERGED'),
                              (z3.And(isacc, cnt >= F['acceptable_iter_']), 'CONVERGED_TO_ACCEPTABLE_POINT'),
                              (redval(Ptr('curr.x'), 'Amax') > F['diverging_iterates_tol_'], 'DIVERGING'),
                              (D['iter_count_'] >= F['max_iterations_'], 'MAXITER_EXCEEDED'),
                              (z3.And(F['max_cpu_time_'] < big, z3.Real('CpuTime') - cpu0 >= F['max_cpu_time_']), 'CPUTIME_EXCEEDED'),
                              (z3.And(F['max_wall_time_'] < big, z3.Real('WallclockTime') - wall0 >= F['max_wall_time_']), 'WALLTIME_EXCEEDED')]):
            r = z3.If(c, iv(S[n]), r)
        v.ensure(st, val == r, 'status is the first one whose condition holds')
        v.ensure(st, z3.Implies(val == S['CONVERGED'], z3.Or(conv, z3.And(dim0, pr <= F['constr_viol_tol_']))), 'optimal convergence only if all tolerances are met')
        early = z3.Or(stop, conv, dim0)
        v.ensure(st, v.get(st, v.p, 'acceptable_counter_') == z3.If(early, F['acceptable_counter_'], cnt), 'counter of consecutive acceptable iterates')
        n, args = st.gh.get('callback', (0, ()))
        v.ensure(st, as_int(v.cb) == n, 'the user callback is called exactly if requested')
        if n == 1:
            de = z3.Or(v.bool('delta.null'), v.bool('delta.x.null'), v.bool('delta.s.null'))
            dx, ds = redval(Ptr('delta.x'), 'Amax'), redval(Ptr('delta.s'), 'Amax')
            exp = [iv(v.mod.enum('Ipopt::AlgorithmMode')['RegularMode']), D['iter_count_'], E('unscaled_curr_f'), E('curr_primal_infeasibility', NM), E('curr_dual_infeasibility', NM), D['curr_mu_'],
                   z3.If(de, rv(0), z3.If(dx >= ds, dx, ds)), D['info_regu_x_'], D['info_alpha_dual_'], D['info_alpha_primal_'], D['info_ls_count_']]
            for k, (x, y) in enumerate(zip(args, exp)):
                v.ensure(st, x == y, 'argument %d of the user callback' % (k + 1))
            v.ensure(st, z3.BoolVal(args[11].b == v.d.b and args[12].b == v.cq.b), 'data objects passed to the user callback')
        v.frame(st, {('this', v.off(CL, f)) for f in OBJ + ('acceptable_counter_',)})
    out.append(Job('OptimalityErrorConvergenceCheck::CheckConvergence', CL + '::CheckConvergence', s_chk, p_chk, merge=True, budget=200))
    return out
