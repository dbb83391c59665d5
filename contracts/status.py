"""contracts of the main loop of the algorithm: the steps of an iteration follow each other as documented, and every way the loop can end gives the documented status"""
from alg import *
import alg as AL
import models as MD
import engine as EN

SRCS = ['Algorithm/IpIpoptAlg.cpp', 'Algorithm/IpExactHessianUpdater.cpp', 'Algorithm/IpMonotoneMuUpdate.cpp', 'Algorithm/IpPDSearchDirCalc.cpp', 'Algorithm/IpBacktrackingLineSearch.cpp', 'Algorithm/IpOptErrorConvCheck.cpp',
        'Algorithm/IpDefaultIterateInitializer.cpp', 'Algorithm/IpOrigIterationOutput.cpp', 'Common/IpJournalist.cpp']
IA = 'Ipopt::IpoptAlgorithm'
REP = {'Ipopt::HessianUpdater': 'Ipopt::ExactHessianUpdater', 'Ipopt::MuUpdate': 'Ipopt::MonotoneMuUpdate', 'Ipopt::SearchDirectionCalculator': 'Ipopt::PDSearchDirCalculator', 'Ipopt::LineSearch': 'Ipopt::BacktrackingLineSearch',
       'Ipopt::ConvergenceCheck': 'Ipopt::OptimalityErrorConvergenceCheck', 'Ipopt::IterateInitializer': 'Ipopt::DefaultIterateInitializer', 'Ipopt::IterationOutput': 'Ipopt::OrigIterationOutput'}
MODELS = ALG.child()
# SolverReturn and ConvergenceStatus, and the documented status of each exception
SR = {n: k for k, n in enumerate('SUCCESS MAXITER_EXCEEDED CPUTIME_EXCEEDED WALLTIME_EXCEEDED STOP_AT_TINY_STEP STOP_AT_ACCEPTABLE_POINT LOCAL_INFEASIBILITY USER_REQUESTED_STOP FEASIBLE_POINT_FOUND DIVERGING_ITERATES RESTORATION_FAILURE ERROR_IN_STEP_COMPUTATION INVALID_NUMBER_DETECTED TOO_FEW_DEGREES_OF_FREEDOM INVALID_OPTION OUT_OF_MEMORY INTERNAL_ERROR UNASSIGNED'.split())}
CS = {n: k for k, n in enumerate('CONTINUE CONVERGED CONVERGED_TO_ACCEPTABLE_POINT MAXITER_EXCEEDED CPUTIME_EXCEEDED WALLTIME_EXCEEDED DIVERGING USER_STOP FAILED'.split())}
ENDS = {'CONVERGED': 'SUCCESS', 'CONVERGED_TO_ACCEPTABLE_POINT': 'STOP_AT_ACCEPTABLE_POINT', 'MAXITER_EXCEEDED': 'MAXITER_EXCEEDED', 'CPUTIME_EXCEEDED': 'CPUTIME_EXCEEDED', 'WALLTIME_EXCEEDED': 'WALLTIME_EXCEEDED',
        'DIVERGING': 'DIVERGING_ITERATES', 'USER_STOP': 'USER_REQUESTED_STOP', 'FAILED': 'INTERNAL_ERROR'}
EXC = {'TINY_STEP_DETECTED': 'STOP_AT_TINY_STEP', 'ACCEPTABLE_POINT_REACHED': 'STOP_AT_ACCEPTABLE_POINT', 'LOCALLY_INFEASIBLE': 'LOCAL_INFEASIBILITY', 'RESTORATION_CONVERGED_TO_FEASIBLE_POINT': 'RESTORATION_FAILURE',
       'RESTORATION_FAILED': 'RESTORATION_FAILURE', 'RESTORATION_MAXITER_EXCEEDED': 'MAXITER_EXCEEDED', 'RESTORATION_CPUTIME_EXCEEDED': 'CPUTIME_EXCEEDED', 'RESTORATION_WALLTIME_EXCEEDED': 'WALLTIME_EXCEEDED',
       'RESTORATION_USER_STOP': 'USER_REQUESTED_STOP', 'STEP_COMPUTATION_FAILED': 'ERROR_IN_STEP_COMPUTATION', 'IpoptNLP::Eval_Error': 'INVALID_NUMBER_DETECTED', 'FEASIBILITY_PROBLEM_SOLVED': 'FEASIBLE_POINT_FOUND',
       'TOO_FEW_DOF': 'TOO_FEW_DEGREES_OF_FREEDOM', 'INTERNAL_ABORT': 'INTERNAL_ERROR',
       # not dealt with here
       'FATAL_ERROR_IN_LINEAR_SOLVER': None, 'OPTION_INVALID': None, 'std::bad_alloc': None}
NAMES = list(EXC)
# ghost: exception thrown, last result of the convergence check, step of the iteration, number of accepted iterates, end of the watchdog, multipliers completed
THROWN, LAST, STEP, NIT, WD, POSTP = 0, 8, 16, 24, 32, 40
INIT, TESTED, HESS, OUTP, MU, NOMU, DIR, NODIR, EMERG, NOEMERG, TRIAL, ACC, FEAS = 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13


def g(st, k):
    return st.mem['ghost'].cells[k]


def put(st, k, x):
    st.wb('ghost').cells[k] = iv(x) if isinstance(x, int) else x


def ti(n):
    if n == 'std::bad_alloc':
        return '_ZTISt9bad_alloc'
    return '_ZTIN5Ipopt%sE' % ''.join('%d%s' % (len(x), x) for x in n.split('::'))


def thrown(ex, st):
    """every exception that may come from a strategy object"""
    out = []
    for k, n in enumerate(NAMES):
        s = st.fork()
        put(s, THROWN, k + 1)
        b = Block('exc.' + n, 'rec', cls='Ipopt::IpoptException' if n[0:3] != 'std' else None, lazy=True)
        s.add(b)
        out.append(('throw', s, MD.Exc(ti(n), Ptr(b.id))))
    return out


def step(ex, st, allowed, what):
    ex.require(st, z3.Or(*[g(st, STEP) == k for k in allowed]), what)


def choice(ex, st, name, yes, no):
    """a strategy object succeeds or fails"""
    s = st.fork()
    put(st, STEP, yes)
    put(s, STEP, no)
    return [('ret', st, TRUE), ('ret', s, FALSE)]


@MODELS.regv('Ipopt::IterateInitializer', 'SetInitialIterates', 'interface', 'sets the starting point, fails or throws')
def m_sii(ex, st, a, ins):
    step(ex, st, [0], 'the iterates are initialized once, at the start')
    o = thrown(ex, st)
    return o + choice(ex, st, 'initialized', INIT, 100)


@MODELS.regv('Ipopt::ConvergenceCheck', 'CheckConvergence', 'interface', 'any result (C01), or throws')
def m_cc(ex, st, a, ins):
    v = ex.vv
    sq = cqval('IsSquareProblem', [], BoolS)
    ex.require(st, z3.Or(g(st, STEP) == INIT, g(st, STEP) == z3.If(sq, iv(FEAS), iv(ACC))), 'the convergence check follows the initialization or an accepted iterate')
    ex.require(st, v.get(st, v.d, 'iter_count_') == v.D['iter_count_'] + g(st, NIT), 'the iteration count is the number of iterates accepted')
    o = thrown(ex, st)
    r = z3.FreshInt('status')
    st.assume(z3.And(r >= 0, r <= 8))
    put(st, LAST, r)
    put(st, STEP, TESTED)
    return o + ret(st, r)


@MODELS.regv('Ipopt::HessianUpdater', 'UpdateHessian', 'interface', 'sets the Hessian, or throws')
def m_uh(ex, st, a, ins):
    step(ex, st, [TESTED], 'the Hessian is set after the convergence check')
    ex.require(st, g(st, LAST) == CS['CONTINUE'], 'an iteration is started only if the algorithm is to continue')
    o = thrown(ex, st)
    put(st, STEP, HESS)
    return o + ret(st)


@MODELS.regv('Ipopt::IterationOutput', 'WriteOutput', 'interface', 'prints, or throws')
def m_wo(ex, st, a, ins):
    ex.require(st, z3.Or(g(st, STEP) == HESS, z3.And(g(st, STEP) == TESTED, g(st, LAST) != CS['CONTINUE'])), 'output of every iterate, once the Hessian is set or the algorithm has ended')
    o = thrown(ex, st)
    put(st, STEP, OUTP)
    return o + ret(st)


@MODELS.regv('Ipopt::MuUpdate', 'UpdateBarrierParameter', 'interface', 'updates the barrier parameter (C06), fails or throws')
def m_mu(ex, st, a, ins):
    step(ex, st, [OUTP], 'the barrier parameter is updated after the output')
    o = thrown(ex, st)
    return o + choice(ex, st, 'mu', MU, NOMU)


@MODELS.regv('Ipopt::SearchDirectionCalculator', 'ComputeSearchDirection', 'interface', 'computes the direction (C23), fails or throws')
def m_sd(ex, st, a, ins):
    step(ex, st, [MU], 'a direction is computed only with an updated barrier parameter')
    o = thrown(ex, st)
    return o + choice(ex, st, 'direction', DIR, NODIR)


@MODELS.regv('Ipopt::LineSearch', 'ActivateFallbackMechanism', 'interface', 'prepares the restoration phase, if there is one')
def m_af(ex, st, a, ins):
    step(ex, st, [NOMU, NODIR], 'fallback exactly if there is no direction')
    o = thrown(ex, st)
    return o + choice(ex, st, 'fallback', EMERG, NOEMERG)


@MODELS.regv('Ipopt::LineSearch', 'FindAcceptableTrialPoint', 'interface', 'finds an acceptable point (C03), or throws')
def m_fa(ex, st, a, ins):
    step(ex, st, [DIR, EMERG], 'the line search has a direction, or is in fallback mode')
    o = thrown(ex, st)
    put(st, STEP, TRIAL)
    return o + ret(st)


@MODELS.reg(IA + '::AcceptTrialPoint', 'contract', 'the trial point becomes the current point, or throws')
def m_at(ex, st, a, ins):
    step(ex, st, [TRIAL], 'a trial point is accepted after the line search')
    o = thrown(ex, st)
    put(st, STEP, ACC)
    put(st, NIT, g(st, NIT) + 1)
    return o + ret(st)


@MODELS.reg(IA + '::ComputeFeasibilityMultipliers', 'contract', 'multipliers of a square problem, or throws')
def m_fm(ex, st, a, ins):
    step(ex, st, [ACC], 'multipliers of the accepted point')
    ex.require(st, cqval('IsSquareProblem', [], BoolS), 'for square problems only')
    o = thrown(ex, st)
    put(st, STEP, FEAS)
    return o + ret(st)


@MODELS.reg(IA + '::ComputeFeasibilityMultipliersPostprocess', 'contract', 'completes the multipliers of a square problem')
def m_fp(ex, st, a, ins):
    ex.require(st, cqval('IsSquareProblem', [], BoolS), 'for square problems only')
    put(st, POSTP, 1)
    return ret(st)


@MODELS.reg(IA + '::PrintProblemStatistics', 'contract', 'output only')
def m_pps(ex, st, a, ins):
    step(ex, st, [INIT], 'statistics of the initialized problem')
    return ret(st)


@MODELS.reg('re:^Ipopt::IpoptAlgorithm::print_copyright_message$', 'model', 'output only')
def m_pc(ex, st, a, ins):
    return ret(st)


@MODELS.reg('Ipopt::BacktrackingLineSearch::StopWatchDog', 'contract', 'returns to the iterate before the watchdog procedure')
def m_swd(ex, st, a, ins):
    ex.require(st, z3.And(g(st, STEP) == OUTP, z3.Or(*[g(st, LAST) == CS[k] for k in ('MAXITER_EXCEEDED', 'CPUTIME_EXCEEDED', 'WALLTIME_EXCEEDED')])), 'the watchdog is ended at a limit only')
    put(st, WD, 1)
    return ret(st)


@MODELS.reg('re:^Ipopt::TimedTask::\\w+$', 'model', 'time keeping')
def m_tt(ex, st, a, ins):
    return ret(st)


@MODELS.reg('re:^Ipopt::(IpoptException::ReportException|Vector::Print|IpoptData::ResetInfo)$', 'model', 'output only')
def m_rep(ex, st, a, ins):
    return ret(st)


@MODELS.reg('re:^Ipopt::IpoptException::IpoptException$|^Ipopt::\\w+::(STEP_COMPUTATION_FAILED|FAILED_INITIALIZATION)$', 'model', 'exception object')
def m_exc(ex, st, a, ins):
    return ret(st)


def jobs():
    out = []
    for bt in (True, False):
        def s(v, bt=bt):
            v.p, v.F = AL.strategy(v, IA)
            for f, c in (('conv_check_', 'ConvergenceCheck'), ('iterate_initializer_', 'IterateInitializer'), ('hessian_updater_', 'HessianUpdater'), ('iter_output_', 'IterationOutput'), ('mu_update_', 'MuUpdate'),
                         ('search_dir_calculator_', 'SearchDirectionCalculator'), ('line_search_', 'LineSearch')):
                v.set(v.st, v.p, f, v.obj('Ipopt::' + c, c))
            v.set(v.st, v.p, 'jnlst_', v.obj('Ipopt::Journalist', 'jnlst'))
            v.st.wb('LineSearch').ghost['isa'] = ('Ipopt::BacktrackingLineSearch',) if bt else ()
            v.obj(None, 'ghost')
            b = v.st.wb('ghost')
            for k in (THROWN, LAST, STEP, NIT, WD, POSTP):
                b.cells[k] = iv(0)
            b.cells[LAST] = iv(-1)
            return [v.p, v.bool('resto')]

        def inv(v, st, st0):
            it = v.get(st, v.d, 'iter_count_')
            sq = cqval('IsSquareProblem', [], BoolS)
            return {'must': [('the convergence check was done', g(st, STEP) == TESTED), ('nothing was thrown', g(st, THROWN) == 0), ('iterations are counted', it == v.D['iter_count_'] + g(st, NIT)),
                             ('results of the convergence check', z3.And(g(st, LAST) >= 0, g(st, LAST) <= 8)), ('no watchdog end or completion before the end', z3.And(g(st, WD) == 0, g(st, POSTP) == 0))],
                    'terms': [g(st, LAST)], 'preds': []}

        def p(v, kd, st, val, bt=bt):
            t, last, sq = g(st, THROWN), g(st, LAST), cqval('IsSquareProblem', [], BoolS)
            if kd == 'throw':
                k = [i for i, n in enumerate(NAMES) if ti(n) == val.ti and EXC[n] is None]
                own = val.ti == ti('FAILED_INITIALIZATION')
                v.ensure(st, z3.Or(z3.And(z3.BoolVal(own), g(st, STEP) == 100, t == 0), t == k[0] + 1 if k else FALSE), 'only exceptions without a status of their own leave the algorithm')
                return
            if kd != 'ret':
                v.ensure(st, FALSE, 'ends')
                return
            for n, s_ in EXC.items():
                c = z3.simplify(t == NAMES.index(n) + 1)
                if z3.is_false(c):
                    continue
                if s_ is None:
                    v.ensure(st, z3.Not(c), '%s is passed on' % n)
                elif n == 'RESTORATION_CONVERGED_TO_FEASIBLE_POINT':
                    v.ensure(st, z3.Implies(c, z3.And(val == z3.If(sq, iv(SR['FEASIBLE_POINT_FOUND']), iv(SR[s_])), g(st, POSTP) == as_int(sq))), 'status after %s' % n)
                else:
                    v.ensure(st, z3.Implies(c, val == SR[s_]), 'status after %s' % n)
                    if n == 'FEASIBILITY_PROBLEM_SOLVED':
                        v.ensure(st, z3.Implies(c, g(st, POSTP) == as_int(sq)), 'multipliers are completed for square problems')
                    else:
                        v.ensure(st, z3.Implies(c, g(st, POSTP) == 0), 'no other completion of multipliers')
            nf = g(st, STEP) == NOEMERG
            v.ensure(st, z3.Implies(z3.And(t == 0, nf), val == SR['ERROR_IN_STEP_COMPUTATION']), 'status if neither a direction nor a fallback is there')
            end = z3.And(t == 0, z3.Not(nf))
            v.ensure(st, (g(st, WD) == 1) == (z3.And(end, z3.Or(*[last == CS[k] for k in ('MAXITER_EXCEEDED', 'CPUTIME_EXCEEDED', 'WALLTIME_EXCEEDED')])) if bt else FALSE), 'the iterate before the watchdog procedure is restored exactly at a limit')
            v.ensure(st, v.get(st, v.d, 'iter_count_') <= v.D['iter_count_'] + g(st, NIT), 'no iteration is counted that was not accepted')
            if z3.is_false(z3.simplify(end)):
                return
            v.ensure(st, z3.Implies(end, z3.And(g(st, STEP) == OUTP, last != CS['CONTINUE'])), 'otherwise the algorithm ends only by the convergence check, after the last output')
            for n, s_ in ENDS.items():
                v.ensure(st, z3.Implies(z3.And(end, last == CS[n]), val == SR[s_]), 'status after the convergence check says %s' % n)
            v.ensure(st, z3.BoolVal(not st.gh.get('caught')), 'no exception is left open')
        out.append(Job('IpoptAlgorithm::Optimize (%s)' % ('backtracking' if bt else 'other line search'), IA + '::Optimize', s, p, inv={'Optimize': inv}, budget=300))
    return out
