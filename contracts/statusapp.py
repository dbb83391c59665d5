"""contract of IpoptApplication::call_optimize: return code and final solution for every way the algorithm can end"""
from status import *
import status as ST

SRCS = ['Interfaces/IpIpoptApplication.cpp', 'Algorithm/IpOrigIpoptNLP.cpp', 'Common/IpJournalist.cpp', 'Algorithm/IpIpoptAlg.cpp', 'Algorithm/IpGenAugSystemSolver.cpp']
AP, NL = 'Ipopt::IpoptApplication', 'Ipopt::IpoptNLP'
REP = {NL: 'Ipopt::OrigIpoptNLP'}
MODELS = ALG.child()
COD = {'Solve_Succeeded': 0, 'Solved_To_Acceptable_Level': 1, 'Infeasible_Problem_Detected': 2, 'Search_Direction_Becomes_Too_Small': 3, 'Diverging_Iterates': 4, 'User_Requested_Stop': 5, 'Feasible_Point_Found': 6,
       'Maximum_Iterations_Exceeded': -1, 'Restoration_Failed': -2, 'Error_In_Step_Computation': -3, 'Maximum_CpuTime_Exceeded': -4, 'Maximum_WallTime_Exceeded': -5, 'Not_Enough_Degrees_Of_Freedom': -10,
       'Invalid_Problem_Definition': -11, 'Invalid_Option': -12, 'Invalid_Number_Detected': -13, 'Unrecoverable_Exception': -100, 'NonIpopt_Exception_Thrown': -101, 'Insufficient_Memory': -102, 'Internal_Error': -199}
# documented return code of each status of the algorithm
RC = {'SUCCESS': 'Solve_Succeeded', 'MAXITER_EXCEEDED': 'Maximum_Iterations_Exceeded', 'CPUTIME_EXCEEDED': 'Maximum_CpuTime_Exceeded', 'WALLTIME_EXCEEDED': 'Maximum_WallTime_Exceeded', 'STOP_AT_TINY_STEP': 'Search_Direction_Becomes_Too_Small',
      'STOP_AT_ACCEPTABLE_POINT': 'Solved_To_Acceptable_Level', 'LOCAL_INFEASIBILITY': 'Infeasible_Problem_Detected', 'USER_REQUESTED_STOP': 'User_Requested_Stop', 'FEASIBLE_POINT_FOUND': 'Feasible_Point_Found',
      'DIVERGING_ITERATES': 'Diverging_Iterates', 'RESTORATION_FAILURE': 'Restoration_Failed', 'ERROR_IN_STEP_COMPUTATION': 'Error_In_Step_Computation', 'INVALID_NUMBER_DETECTED': 'Invalid_Number_Detected',
      'TOO_FEW_DEGREES_OF_FREEDOM': 'Not_Enough_Degrees_Of_Freedom', 'INTERNAL_ERROR': 'Internal_Error'}
# what may be thrown: return code, status of the final solution
XS = {'TOO_FEW_DOF': ('Not_Enough_Degrees_Of_Freedom', 'TOO_FEW_DEGREES_OF_FREEDOM'), 'OPTION_INVALID': ('Invalid_Option', 'INVALID_OPTION'), 'DYNAMIC_LIBRARY_FAILURE': ('Invalid_Option', None),
      'INCONSISTENT_BOUNDS': ('Invalid_Problem_Definition', 'LOCAL_INFEASIBILITY'), 'FATAL_ERROR_IN_LINEAR_SOLVER': ('Unrecoverable_Exception', None), 'FAILED_INITIALIZATION': ('Unrecoverable_Exception', None),
      'std::bad_alloc': ('Insufficient_Memory', 'OUT_OF_MEMORY'), 'std::overflow_error': ('Insufficient_Memory', 'OUT_OF_MEMORY'), 'std::runtime_error': ('NonIpopt_Exception_Thrown', None)}
XN = list(XS)
# solutions are meaningful for these
SOLVED = ['SUCCESS', 'MAXITER_EXCEEDED', 'CPUTIME_EXCEEDED', 'WALLTIME_EXCEEDED', 'STOP_AT_TINY_STEP', 'STOP_AT_ACCEPTABLE_POINT', 'LOCAL_INFEASIBILITY', 'USER_REQUESTED_STOP', 'FEASIBLE_POINT_FOUND', 'DIVERGING_ITERATES', 'RESTORATION_FAILURE', 'ERROR_IN_STEP_COMPUTATION']


def ti2(n):
    return '_ZTISt%d%s' % (len(n) - 5, n[5:]) if n.startswith('std::') else ti(n)


def thrown2(ex, st, where):
    out = []
    for n in XN:
        if n == 'TOO_FEW_DOF' and where == 'optimize':
            continue
        s = st.fork()
        s.gh['thrown'] = n
        s.add(Block('exc.' + n, 'rec', cls='Ipopt::IpoptException', lazy=True))
        out.append(('throw', s, MD.Exc(ti2(n), Ptr('exc.' + n))))
    return out


@MODELS.reg('Ipopt::AlgorithmStrategyObject::Initialize', 'interface', 'sets up the algorithm, or throws')
def m_ini(ex, st, a, ins):
    v = ex.vv
    ex.require(st, z3.BoolVal(a[0].b == 'alg' and a[1].b == 'jnlst' and a[2].b == 'nlp' and a[3].b == 'data' and a[4].b == 'cq' and a[5].b == 'options'), 'the algorithm works on the objects of the application')
    st.gh['inits'] = st.gh.get('inits', 0) + 1
    return thrown2(ex, st, 'init') + ret(st, TRUE)


@MODELS.reg('Ipopt::IpoptAlgorithm::Optimize', 'contract', 'a status of a solve, or exceptions that have no status; proved for IpoptAlgorithm::Optimize')
def m_opt(ex, st, a, ins):
    v = ex.vv
    ex.require(st, z3.BoolVal(st.gh.get('inits') == 1 and not st.gh.get('run')), 'the algorithm is set up and then run once')
    ex.require(st, z3.BoolVal(True) if len(a) < 2 else z3.Not(as_bool(a[1])), 'not as restoration phase')
    st.gh['run'] = 1
    o = thrown2(ex, st, 'optimize')
    st.assume(z3.Or(*[v.status == SR[k] for k in RC]))
    st.assume(z3.Not(z3.Or(v.bool('no iterate'), v.bool('no x'))))
    return o + ret(st, v.status)


@MODELS.reg('re:^Ipopt::IpoptCalculatedQuantities::unscaled_curr_dual_infeasibility$', 'contract', 'printed in the summary; cannot be computed where the derivatives do not exist')
def m_ud(ex, st, a, ins):
    s = st.fork()
    s.gh['sumfail'] = 1
    s.add(Block('exc.eval', 'rec', cls='Ipopt::IpoptException', lazy=True))
    return [('throw', s, MD.Exc(ti('IpoptNLP::Eval_Error'), Ptr('exc.eval')))] + ret(st, z3.FreshReal('ud'))


@MODELS.regv(NL, 'FinalizeSolution', 'interface', 'takes the final solution')
def m_fs(ex, st, a, ins):
    v = ex.vv
    ex.require(st, z3.BoolVal(not st.gh.get('final')), 'there is one final solution')
    st.gh['final'] = tuple(x.b if isinstance(x, Ptr) else x for x in a)
    return ret(st)


@MODELS.reg('Ipopt::Vector::MakeNew', 'contract', 'a vector of the same space')
def m_mn(ex, st, a, ins):
    b = ex.newblock(st, 'vec')
    b.cls, b.heap, b.lazy = 'Ipopt::Vector', True, True
    b.ghost['of'] = a[0].b
    return ret(st, Ptr(b.id))


@MODELS.reg('Ipopt::Vector::Set', 'contract', 'all entries get the value')
def m_set(ex, st, a, ins):
    st.wb(a[0].b).ghost['value'] = a[1]
    return ret(st)


@MODELS.reg('re:^Ipopt::OptionsList::(SetStringValue|PrintUserOptions|PrintList)$', 'model', 'options are set or printed')
def m_os(ex, st, a, ins):
    return ret(st, TRUE)


@MODELS.reg('re:^Ipopt::(TimedTask::TotalWallclockTime|TimingStatistics::TotalFunctionEvaluationWallclockTime)$', 'model', 'time keeping')
def m_tot(ex, st, a, ins):
    return ret(st, z3.FreshReal('time'))


@MODELS.reg('re:^Ipopt::TimingStatistics::IsFunctionEvaluationTimeEnabled$', 'model', 'time keeping')
def m_en(ex, st, a, ins):
    return ret(st, z3.FreshBool('timed'))


@MODELS.reg('re:^Ipopt::TimingStatistics::(ResetTimes|PrintAllTimingStatistics)$|^Ipopt::(IpoptException::(ReportException|~?IpoptException)|Vector::Print|Journal::SetAllPrintLevels|Journal::SetPrintLevel|Journalist::FlushBuffer|TOO_FEW_DOF::~?TOO_FEW_DOF)$|^Ipopt::SolveStatistics::SolveStatistics$', 'model', 'output, statistics and exception objects')
def m_no(ex, st, a, ins):
    return ret(st)


@MODELS.reg('Ipopt::Journalist::GetJournal', 'contract', 'the journal of that name, or none (C26)')
def m_gj(ex, st, a, ins):
    if 'console' not in st.mem:
        st.add(Block('console', 'rec', cls='Ipopt::Journal', lazy=True))
    ex.store(st, a[0], Ptr('console', 0, (), z3.Bool('no console')))
    return ret(st)


for n_ in ('f_evals', 'grad_f_evals', 'c_evals', 'jac_c_evals', 'd_evals', 'jac_d_evals', 'h_evals'):
    @MODELS.regv(NL, n_, 'interface', 'counter')
    def m_cnt(ex, st, a, ins):
        return ret(st, z3.FreshInt('count'))


def jobs():
    def s(v):
        st = v.st
        v.p = v.obj(AP, 'this')
        v.F = v.fields(v.p)
        v.d, v.D = AL.mkdata(v)
        for f, c, n in (('jnlst_', 'Journalist', 'jnlst'), ('options_', 'OptionsList', 'options'), ('alg_', 'IpoptAlgorithm', 'alg'), ('ip_nlp_', 'IpoptNLP', 'nlp'), ('ip_cq_', 'IpoptCalculatedQuantities', 'cq')):
            v.set(st, v.p, f, v.obj('Ipopt::' + c, n))
        v.set(st, v.p, 'ip_data_', v.d)
        v.set(st, v.p, 'statistics_', v.nullable(v.obj('Ipopt::SolveStatistics', 'oldstat'), v.bool('no old statistics')))
        v.set(st, v.d, 'curr_', v.nullable(Ptr('curr'), v.bool('no iterate')))
        st.wb('curr').ghost['nul.x'] = v.bool('no x')
        v.status = v.int('Optimize()')
        return [v.p]

    def p(v, kd, st, val):
        th, run = st.gh.get('thrown'), bool(st.gh.get('run'))
        skip = opt('skip_finalize_solution_call', BoolS)
        rethrow = as_bool(v.F['rethrow_nonipoptexception_'])
        fin = st.gh.get('final')
        if kd == 'throw':
            v.ensure(st, z3.And(z3.BoolVal(th == 'std::runtime_error' and val.ti == ti2(th)), rethrow), 'only foreign exceptions leave, and only if that is wanted')
            v.ensure(st, z3.BoolVal(fin is None), 'no final solution then')
            return
        if kd != 'ret':
            v.ensure(st, FALSE, 'ends')
            return
        v.ensure(st, z3.BoolVal(not st.gh.get('caught')), 'no exception is left open')
        none = z3.Or(v.bool('no iterate'), v.bool('no x'))
        got = z3.BoolVal(fin is not None)
        if th:
            rc, fs = XS[th]
            v.ensure(st, val == COD[rc], 'return code if %s is thrown' % th)
            v.ensure(st, z3.BoolVal(th != 'std::runtime_error') if False else z3.Implies(rethrow, z3.BoolVal(th != 'std::runtime_error')), 'foreign exceptions are passed on if that is wanted')
            v.ensure(st, got == z3.Not(z3.Or(skip, none)), 'there is a final solution exactly if there is an iterate and it is wanted')
            stat = None if fs is None else iv(SR[fs])
        else:
            v.ensure(st, z3.BoolVal(run), 'the algorithm was run')
            sf = bool(st.gh.get('sumfail'))
            for k, c in RC.items():
                v.ensure(st, z3.Implies(v.status == SR[k], val == (COD['Invalid_Number_Detected'] if sf else COD[c])), 'return code for %s' % k)
            v.ensure(st, got == z3.And(z3.Not(z3.Or(skip, none)), z3.BoolVal(sf) if False else z3.Or(z3.BoolVal(sf), v.status != SR['INTERNAL_ERROR'])), 'there is a final solution exactly if there is an iterate and it is wanted')
            stat = iv(SR['INVALID_NUMBER_DETECTED']) if sf else v.status
        if fin is None:
            return
        if stat is not None:
            v.ensure(st, fin[1] == stat, 'status of the final solution')
        else:
            v.ensure(st, fin[1] == SR['INTERNAL_ERROR'], 'status of the final solution')
            stat = iv(SR['INTERNAL_ERROR'])
        solved = z3.Or(*[stat == SR[k] for k in SOLVED])
        v.ensure(st, z3.BoolVal(fin[0] == 'nlp' and fin[2] == 'curr.x' and fin[10] == 'data' and fin[11] == 'cq'), 'the final point is the current one')
        want = {3: 'curr.z_L', 4: 'curr.z_U', 5: 'cq.curr_c', 6: 'cq.curr_d', 7: 'curr.y_c', 8: 'curr.y_d'}
        sp = {3: 'curr.z_L', 4: 'curr.z_U', 5: 'curr.y_c', 6: 'curr.y_d', 7: 'curr.y_c', 8: 'curr.y_d'}
        for k in want:
            b = st.mem[fin[k]]
            zero = b.ghost.get('of') == sp[k] and 'value' in b.ghost and z3.is_true(z3.simplify(b.ghost['value'] == 0))
            v.ensure(st, z3.If(solved, z3.BoolVal(fin[k] == want[k]), z3.BoolVal(zero)), 'final solution: %s, or zeros of its space if there is no solution' % want[k])
        v.ensure(st, fin[9] == z3.If(solved, cqval('curr_f', []), z3.RealVal(0)), 'final objective value, or zero')
    return [Job('IpoptApplication::call_optimize', AP + '::call_optimize', s, p, merge=True, budget=300)]
