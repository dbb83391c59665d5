"""contract of the search direction: its right-hand side consists of the optimality conditions at the current iterate, and the direction is the negative solution"""
from pdsys import *
import pdsys as PDS
from scaling import normal

SRCS = ['Algorithm/IpPDSearchDirCalc.cpp', 'Algorithm/IpIteratesVector.cpp', 'Common/IpTaggedObject.cpp', '/verif/contracts/inst/pdsys.cpp']
SD, PS, DT = 'Ipopt::PDSearchDirCalculator', 'Ipopt::PDSystemSolver', 'Ipopt::IpoptData'
REP = dict(PDS.REP)
REP[PS] = 'Ipopt::PDFullSpaceSolver'
MODELS = PDS.SMOD.child()
RHS = {'x': 'curr_grad_lag_with_damping_x', 's': 'curr_grad_lag_with_damping_s', 'y_c': 'curr_c', 'y_d': 'curr_d_minus_s', 'z_L': 'curr_relaxed_compl_x_L', 'z_U': 'curr_relaxed_compl_x_U', 'v_L': 'curr_relaxed_compl_s_L', 'v_U': 'curr_relaxed_compl_s_U'}


@MODELS.reg('re:^Ipopt::IpoptCalculatedQuantities::curr_\\w+$', 'contract', 'calculated quantities of the current iterate (C17)')
def m_cqv(ex, st, a, ins):
    n = MD.fkey(ex.mod.dem[ins['f']]).split('::')[-1]
    k = [k for k, x in RHS.items() if x == n]
    if not k:
        raise Unsupported('calculated quantity ' + n)
    ex.store(st, a[0], Ptr('cq.' + n))
    return ret(st)


for n_, d_ in (('x_L', 'nxL'), ('x_U', 'nxU'), ('d_L', 'nsL'), ('d_U', 'nsU')):
    @MODELS.regv('Ipopt::IpoptNLP', n_, 'interface', 'bounds')
    def m_bnd(ex, st, a, ins, n=n_):
        ex.store(st, a[0], Ptr('nlp.' + n))
        return ret(st)


@MODELS.reg('Ipopt::IteratesVector::MakeNewContainer', 'contract', 'an iterates vector whose components are to be set (C08)')
def m_mkc(ex, st, a, ins):
    b = ex.newblock(st, 'container')
    b.cls, b.heap, b.lazy = 'Ipopt::IteratesVector', True, True
    b.ghost['set'] = ()
    ex.store(st, a[0], Ptr(b.id))
    return ret(st)


@MODELS.reg('re:^Ipopt::IteratesVector::Set_(x|s|y_c|y_d|z_L|z_U|v_L|v_U)(_NonConst)?$', 'contract', 'a component is set (C08)')
def m_set(ex, st, a, ins):
    k = MD.fkey(ex.mod.dem[ins['f']]).split('::Set_')[-1].replace('_NonConst', '')
    w = st.wb(a[0].b)
    ex.chk(st, a[1], 'component')
    st.mem[a[1].b].ghost.setdefault('const', True) if False else None
    w.ghost['set'] = tuple(x for x in w.ghost['set'] if x[0] != k) + ((k, a[1].b),)
    return ret(st)


@MODELS.regv(PS, 'Solve', 'contract', 'the solution of the primal-dual system is stored, or failure is reported; proved for PDFullSpaceSolver')
def m_solve(ex, st, a, ins):
    v = ex.vv
    al, be, rhs, res, inex, impr = a[1:]
    ex.require(st, z3.And(al == -1, be == 0), 'the negative solution is asked for')
    got = dict(st.mem[rhs.b].ghost['set'])
    ex.require(st, z3.BoolVal(set(got) == set(COMPS)), 'every component of the right-hand side is set')
    fast = as_bool(v.F['fast_step_computation_'])
    ex.require(st, z3.And(as_bool(inex) == fast, as_bool(impr) == v.have), 'inexact solutions only for fast steps; a given solution is improved')
    meh = z3.And(as_bool(v.F['mehrotra_algorithm_']), v.nb > 0)
    for k in COMPS:
        x = at(st, got[k], SK)
        c = z3.Function('cq.%s.val' % RHS[k], IntS, RealS)(SK)
        if k in P_OF:
            of, sg = ('x' if k[0] == 'z' else 's'), (1 if k.endswith('L') else -1)
            f = lambda c_, i: z3.Function('aff.%s.val' % c_, IntS, RealS)(i)
            extra = sg * f(k, SK) * f(of, E(P_OF[k], SK))
            ex.require(st, x == z3.If(meh, c + extra, c), 'right-hand side, block ' + k)
        else:
            ex.require(st, x == c, 'right-hand side, block ' + k)
        if 'val[]' in st.mem['delta.x'].ghost:
            ex.require(st, z3.Implies(v.have, at(st, '%s.%s' % (res.b, k), SK) == -at(st, 'delta.' + k, SK)), 'the given solution is the negative direction, block ' + k)
    st.wb('data').ghost['solved'] = TRUE
    st.wb('data').ghost['result'] = iv(len(st.mem))
    st.gh['res'] = res.b
    return ret(st, z3.Bool('solved'))


@MODELS.reg('Ipopt::IpoptData::set_delta', 'contract', 'the direction is stored')
def m_sd(ex, st, a, ins):
    p = a[1]
    q = ex.load(st, p, 'ptr')
    ex.require(st, z3.BoolVal(isinstance(q, Ptr) and q.b == st.gh.get('res')), 'the solution becomes the direction')
    st.wb('data').ghost['stored'] = TRUE
    return ret(st)


def jobs():
    def setup(v):
        facts(v)
        v.p, v.F = AL.strategy(v, SD)
        st = v.st
        v.set(st, v.p, 'pd_solver_', v.obj(PS, 'pdsolver'))
        v.set(st, v.d, 'curr_', iterates(v, 'curr'))
        v.set(st, v.d, 'delta_', iterates(v, 'delta'))
        v.set(st, v.d, 'delta_aff_', iterates(v, 'aff'))
        for k, n in RHS.items():
            vec(v, 'cq.' + n, k)
        v.nb = iv(0)
        for n, d in (('x_L', 'z_L'), ('x_U', 'z_U'), ('d_L', 'v_L'), ('d_U', 'v_U')):
            vec(v, 'nlp.' + n, d)
            v.nb = v.nb + DIM[DIMOF[d]]
        for P in P_OF.values():
            mat(st, P)
        v.have = as_bool(v.get(st, v.d, 'have_deltas_'))
        g = st.wb('data').ghost
        g['solved'], g['stored'] = FALSE, FALSE
        return [v.p]

    def post(v, kd, st, r):
        if not normal(v, kd, st):
            return
        G = st.mem['data'].ghost
        fast = z3.And(v.have, as_bool(v.F['fast_step_computation_']))
        v.ensure(st, as_bool(G['solved']) == z3.Not(fast), 'a system is solved unless a direction is there and fast steps are allowed')
        v.ensure(st, as_bool(r) == z3.Or(fast, z3.Bool('solved')), 'failure is reported exactly if the system could not be solved')
        v.ensure(st, as_bool(G['stored']) == z3.And(z3.Not(fast), z3.Bool('solved')), 'the direction is stored exactly if there is a new one')
        v.frame(st, {('data', '*')})
    return [Job('PDSearchDirCalculator::ComputeSearchDirection', SD + '::ComputeSearchDirection', setup, post)]
