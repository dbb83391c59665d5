"""contract of MinC_1NrmRestorationPhase::PerformRestoration: every status of the restoration algorithm becomes the documented exception or result, and the iterate reached is kept"""
from status import *

SRCS = ['Algorithm/IpRestoMinC_1Nrm.cpp', 'Algorithm/IpRestoIpoptNLP.cpp', 'Common/IpJournalist.cpp', 'Algorithm/IpIteratesVector.cpp']
RP = 'Ipopt::MinC_1NrmRestorationPhase'
REP = {}
MODELS = ALG.child()
PARTS = ('x', 's', 'y_c', 'y_d', 'z_L', 'z_U', 'v_L', 'v_U')
THROWS = {'MAXITER_EXCEEDED': 'RESTORATION_MAXITER_EXCEEDED', 'CPUTIME_EXCEEDED': 'RESTORATION_CPUTIME_EXCEEDED', 'WALLTIME_EXCEEDED': 'RESTORATION_WALLTIME_EXCEEDED', 'LOCAL_INFEASIBILITY': 'LOCALLY_INFEASIBLE',
          'RESTORATION_FAILURE': 'RESTORATION_FAILED', 'ERROR_IN_STEP_COMPUTATION': 'RESTORATION_FAILED', 'USER_REQUESTED_STOP': 'RESTORATION_USER_STOP'}


@MODELS.reg('re:^Ipopt::(IpoptData::IpoptData|RestoIpoptNLP::RestoIpoptNLP|IpoptCalculatedQuantities::IpoptCalculatedQuantities)$', 'interface', 'the objects of the restoration problem')
def m_new(ex, st, a, ins):
    n = fkey_last(ex.mod.dem[ins['f']])
    b = st.wb(a[0].b)
    b.cls, b.lazy = 'Ipopt::' + n, True
    st.gh['new:' + n] = a[0].b
    if n == 'RestoIpoptNLP':
        ex.require(st, z3.BoolVal([x.b for x in a[1:4]] == ['nlp', 'data', 'cq']), 'the restoration problem is made of the original one')
    if n == 'IpoptCalculatedQuantities':
        ex.require(st, z3.BoolVal([ex.load(st, x, 'ptr').b for x in a[1:3]] == [st.gh.get('new:RestoIpoptNLP'), st.gh.get('new:IpoptData')]), 'quantities of the restoration problem')
    return ret(st)


@MODELS.reg('Ipopt::OptionsList::OptionsList', 'contract', 'a copy of the options')
def m_ol(ex, st, a, ins):
    b = st.wb(a[0].b)
    b.cls, b.lazy = 'Ipopt::OptionsList', True
    b.ghost['copy'] = a[1].b
    st.gh['opts'] = a[0].b
    return ret(st)


@MODELS.reg('re:^Ipopt::OptionsList::Set(Numeric|String)Value(IfUnset)?$', 'contract', 'an option is set')
def m_so(ex, st, a, ins):
    t = z3.simplify(strval(ex, st, a[1])).as_string()
    x = a[2] if isz(a[2]) else strval(ex, st, a[2])
    st.gh['set:' + t] = (a[0].b, x)
    return ret(st, TRUE)


@MODELS.reg('Ipopt::AlgorithmStrategyObject::Initialize', 'interface', 'sets up the restoration algorithm')
def m_ini(ex, st, a, ins):
    v = ex.vv
    g = st.gh
    ex.require(st, z3.BoolVal(a[0].b == 'alg' and [x.b for x in a[2:5]] == [g.get('new:RestoIpoptNLP'), g.get('new:IpoptData'), g.get('new:IpoptCalculatedQuantities')]), 'the restoration algorithm works on the restoration problem')
    o = a[5].b
    ex.require(st, z3.BoolVal(o == 'options' or o == g.get('opts') and st.mem[o].ghost.get('copy') == 'options'), 'with the options of the restoration phase')
    sq = cqval('IsSquareProblem', [], BoolS)
    s = g.get('set:required_infeasibility_reduction')
    ex.require(st, z3.Implies(sq, z3.And(z3.BoolVal(s is not None and s[0] == o), (s[1] if s else RR(0)) == 0)), 'a square problem is solved to the end in the restoration phase')
    ex.require(st, z3.Implies(z3.And(z3.Not(sq), z3.Not(as_bool(v.F['expect_infeasible_problem_']))), z3.BoolVal(s is None)), 'otherwise the required reduction is left as it is')
    for k in ('wall', 'cpu'):
        w = g.get('set:resto.max_%s_time' % k)
        lim = v.F['max_%s_time_' % k]
        ex.require(st, z3.If(lim < RR(10) ** 20 if False else lim < z3.RealVal('1e20'), z3.And(z3.BoolVal(w is not None and w[0] == 'options'), (w[1] if w else RR(0)) == lim - v.elapsed[k]), z3.BoolVal(w is None)), 'the rest of the %s time is the limit of the restoration phase' % k)
        ex.require(st, z3.Implies(lim < z3.RealVal('1e20'), v.elapsed[k] < lim), 'there is %s time left' % k)
    g['init'] = g.get('init', 0) + 1
    return ret(st, TRUE)


def RR(x):
    return z3.RealVal(x)


@MODELS.reg('Ipopt::IpoptAlgorithm::Optimize', 'contract', 'a status; proved for IpoptAlgorithm::Optimize')
def m_opt(ex, st, a, ins):
    v = ex.vv
    ex.require(st, z3.BoolVal(st.gh.get('init') == 1 and not st.gh.get('run')), 'the restoration algorithm is set up and then run once')
    ex.require(st, z3.And(as_bool(a[1]), z3.BoolVal(a[0].b == 'alg')), 'as restoration phase')
    rd = Ptr(st.gh['new:IpoptData'])
    ex.require(st, v.get(st, rd, 'iter_count_') == v.D['iter_count_'] + 1, 'iterations are counted on')
    st.gh['run'] = 1
    st.assume(z3.Or(*[v.status == k for k in range(17)]))
    st.assume(z3.Implies(v.status == 0, z3.Not(v.bool('no restoration iterate'))))
    v.set(st, rd, 'curr_', v.nullable(Ptr('rcurr'), v.bool('no restoration iterate')))
    v.set(st, rd, 'iter_count_', v.int('iterations'))
    return ret(st, v.status)


@MODELS.reg('re:^Ipopt::CompoundVector::GetComp$', 'contract', 'a block of a compound vector (C08)')
def m_gc(ex, st, a, ins):
    i = z3.simplify(a[2]).as_long()
    bid = '%s[%d]' % (a[1].b, i)
    if bid not in st.mem:
        st.add(Block(bid, 'rec', cls='Ipopt::Vector', lazy=True))
    ex.store(st, a[0], Ptr(bid))
    return ret(st)


@MODELS.reg('re:^Ipopt::IteratesVector::(MakeNewContainer|MakeNewIteratesVector)$', 'contract', 'an iterates vector whose components are to be set (C08)')
def m_mkc(ex, st, a, ins):
    b = ex.newblock(st, 'container')
    b.cls, b.heap, b.lazy = 'Ipopt::IteratesVector', True, True
    b.ghost['set'] = ()
    b.ghost['from'] = a[1].b
    ex.store(st, a[0], Ptr(b.id))
    return ret(st)


@MODELS.reg('re:^Ipopt::IteratesVector::Set_(primal|eq_mult|bound_mult)$', 'contract', 'components are set (C08)')
def m_setp(ex, st, a, ins):
    ks = {'primal': ('x', 's'), 'eq_mult': ('y_c', 'y_d'), 'bound_mult': ('z_L', 'z_U', 'v_L', 'v_U')}[fkey_last(ex.mod.dem[ins['f']])[4:]]
    w = st.wb(a[0].b)
    w.ghost['set'] = w.ghost['set'] + tuple((k, x.b) for k, x in zip(ks, a[1:]))
    return ret(st)


@MODELS.reg('re:^Ipopt::IteratesVector::create_new_\\w+$', 'contract', 'a new component')
def m_cn(ex, st, a, ins):
    ex.store(st, a[0], NULL) if len(a) > 1 else None
    return ret(st)


@MODELS.reg('Ipopt::IpoptData::set_trial', 'contract', 'the trial point')
def m_st(ex, st, a, ins):
    q = ex.load(st, a[1], 'ptr')
    st.gh['trialset'] = (st.mem[q.b].ghost.get('from'), tuple(sorted(dict(st.mem[q.b].ghost.get('set', ())).items())))
    st.gh['trials'] = st.gh.get('trials', ()) + (st.gh['trialset'],)
    return ret(st)


@MODELS.reg('Ipopt::IpoptData::AcceptTrialPoint', 'contract', 'the trial point becomes the current one')
def m_acc(ex, st, a, ins):
    st.gh['accepted'] = st.gh.get('accepted', ()) + (st.gh.get('trialset'),)
    st.gh['iterate'] = st.gh.get('iterate', 0) + 1
    return ret(st)


@MODELS.reg('re:^Ipopt::(Vector::(Set|Print)|IpoptData::(SetTrialBoundMultipliersFromStep)|MinC_1NrmRestorationPhase::ComputeBoundMultiplierStep|DefaultIterateInitializer::least_square_mults|IteratesVector::Print|IpoptException::\\w+)$', 'contract', 'multipliers after the restoration phase (C05 of the algorithm paper; not part of the property), output')
def m_no(ex, st, a, ins):
    return ret(st)


@MODELS.reg('Ipopt::Journalist::ProduceOutput', 'model', 'details are not printed (output only)')
def m_po(ex, st, a, ins):
    return ret(st, FALSE)


def jobs():
    def s(v, sq, ex, lim):
        st = v.st
        v.p, v.F = AL.strategy(v, RP)
        for f, c, n in (('jnlst_', 'Journalist', 'jnlst'), ('resto_options_', 'OptionsList', 'options'), ('resto_alg_', 'IpoptAlgorithm', 'alg'), ('eq_mult_calculator_', 'EqMultiplierCalculator', 'eqmult')):
            v.set(st, v.p, f, v.obj('Ipopt::' + c, n))
        v.obj('Ipopt::IteratesVector', 'rcurr')
        v.status = v.int('status')
        t0 = v.off('Ipopt::IpoptData', 'timing_statistics_')
        o = v.mod.fieldoff('Ipopt::TimingStatistics', 'OverallAlgorithm_')[0]
        q = cqval('IsSquareProblem', [], BoolS)
        v.assume(q if sq else z3.Not(q))
        e = as_bool(v.F['expect_infeasible_problem_'])
        v.assume(e if ex else z3.Not(e))
        big = z3.RealVal('1e20')
        v.assume(z3.And(v.F['max_wall_time_'] < big, v.F['max_cpu_time_'] < big) if lim == 'both' else z3.And(v.F['max_wall_time_'] >= big, v.F['max_cpu_time_'] >= big) if lim == 'none' else (v.F['max_wall_time_'] < big) != (v.F['max_cpu_time_'] < big))
        v.elapsed = {}
        for k, c in (('cpu', 'CpuTime'), ('wall', 'WallclockTime')):
            f = {'cpu': 'start_cputime_', 'wall': 'start_walltime_'}[k]
            v.elapsed[k] = z3.Real(c) - z3.Real('data.%d' % (t0 + o + v.mod.fieldoff('Ipopt::TimedTask', f)[0]))
        return [v.p]

    def p(v, kd, st, val):
        g = st.gh
        ran = bool(g.get('run'))
        name = val.ti if kd == 'throw' else None
        is_ = lambda n: z3.BoolVal(name == ti(n))
        over = {k: z3.And(v.F['max_%s_time_' % k] < z3.RealVal('1e20'), v.elapsed[k] >= v.F['max_%s_time_' % k]) for k in ('cpu', 'wall')}
        v.ensure(st, z3.BoolVal(ran) == z3.Not(z3.Or(over['cpu'], over['wall'])), 'the restoration algorithm runs exactly if there is time left')
        v.ensure(st, v.get(st, v.p, 'count_restorations_') == v.F['count_restorations_'] + 1, 'restoration phases are counted')
        if not ran:
            v.ensure(st, z3.Or(z3.And(is_('RESTORATION_WALLTIME_EXCEEDED'), over['wall']), z3.And(is_('RESTORATION_CPUTIME_EXCEEDED'), over['cpu'])), 'the limit that is exceeded is reported')
            v.ensure(st, z3.BoolVal(not g.get('accepted')), 'the iterate stays')
            return
        S_ = v.status
        none = v.bool('no restoration iterate')
        acc = g.get('accepted', ())
        full = ('trial', tuple(sorted((k, 'rcurr.%s[0]' % k) for k in PARTS)))
        prim = ('trial', tuple(sorted((k, 'rcurr.%s[0]' % k) for k in ('x', 's'))))
        sq = cqval('IsSquareProblem', [], BoolS)
        ok = S_ == 0
        v.ensure(st, z3.Implies(z3.Not(ok), z3.If(none, z3.BoolVal(acc == ()), z3.BoolVal(acc == (full,)))), 'after a failure the point and multipliers reached become the current ones')
        v.ensure(st, z3.Implies(ok, z3.BoolVal(len(g.get('trials', ())) >= 1 and g['trials'][0] == prim and acc in ((), (prim,)))), 'after success the point reached is the trial point')
        viol = lambda k: cqval('unscaled_curr_nlp_constraint_violation', [iv(NORM_MAX)], RealS, k)
        tol = v.F['constr_viol_tol_']
        solved = z3.And(ok, sq, viol(0) <= tol)
        nacc = len(acc)
        fsq = z3.And(sq, S_ == SR['STOP_AT_ACCEPTABLE_POINT'], viol(nacc) < tol)
        v.ensure(st, is_('FEASIBILITY_PROBLEM_SOLVED') == z3.Or(solved, fsq), 'a square problem is solved exactly if its constraints hold')
        v.ensure(st, z3.Implies(solved, z3.BoolVal(acc == (prim,))), 'the solution of a square problem becomes the current point')
        small = z3.And(z3.Or(S_ == SR['STOP_AT_TINY_STEP'], S_ == SR['STOP_AT_ACCEPTABLE_POINT']), z3.Not(fsq))
        feas = cqval('curr_primal_infeasibility', [iv(NORM_MAX)], RealS, nacc) <= v.F['resto_failure_feasibility_threshold_']
        v.ensure(st, is_('RESTORATION_CONVERGED_TO_FEASIBLE_POINT') == z3.And(small, feas), 'end at a feasible point')
        v.ensure(st, is_('LOCALLY_INFEASIBLE') == z3.Or(z3.And(small, z3.Not(feas)), S_ == SR['LOCAL_INFEASIBILITY']), 'end at an infeasible stationary point')
        for n in sorted(set(THROWS.values()) - {'LOCALLY_INFEASIBLE'}):
            v.ensure(st, is_(n) == z3.Or(*[S_ == SR[k] for k, x in THROWS.items() if x == n]), '%s exactly for its status' % n)
        if kd == 'throw':
            return
        v.ensure(st, as_bool(val) == ok, 'success is reported exactly if the restoration algorithm succeeded')
        v.ensure(st, z3.Implies(ok, v.get(st, v.d, 'iter_count_') == v.int('iterations') - 1), 'iterations are counted on')
    return [Job('MinC_1NrmRestorationPhase::PerformRestoration (%s%s, %s time limits)' % ('square' if sq else 'not square', ', expected to be infeasible' if ex else '', lim), RP + '::PerformRestoration',
                lambda v, c=(sq, ex, lim): s(v, *c), p, budget=200) for sq in (False, True) for ex in (False, True) for lim in ('none', 'one', 'both')]


NORM_MAX = 2
