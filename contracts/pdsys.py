"""contracts of the primal-dual system: elimination of bound multipliers, perturbation loop, residuals, iterative refinement, assembly of the augmented matrix

The full system, for perturbations dx, ds, dc, dd and right-hand side r (documented in IpPDFullSpaceSolver.hpp):
  W x + Jc'yc + Jd'yd - PxL zL + PxU zU + dx x = r_x        -yd - PdL vL + PdU vU + ds s = r_s
  Jc x - dc yc = r_c     Jd x - s - dd yd = r_d
  ZL PxL'x + SxL zL = r_zL   -ZU PxU'x + SxU zU = r_zU   VL PdL's + SsL vL = r_vL   -VU PdU's + SsU vU = r_vU"""
from ipvlib import *
from absvec import *
import absvec as A
import alg as AL
import models as MD
import stl, re
from alg import opt
from ir import *
from engine import *
from scaling import mat, matis, cellptr, sret, normal, isnull

SRCS = ['Algorithm/IpPDFullSpaceSolver.cpp', 'Algorithm/IpStdAugSystemSolver.cpp', 'Algorithm/IpIteratesVector.cpp', 'Common/IpTaggedObject.cpp', '/verif/contracts/inst/pdsys.cpp']
PD, SA, PH, AS = ['Ipopt::' + x for x in ('PDFullSpaceSolver', 'StdAugSystemSolver', 'PDPerturbationHandler', 'AugSystemSolver')]
REP = {AS: 'ipv_pd::Aug', 'Ipopt::SymLinearSolver': 'ipv_pd::Lin', 'Ipopt::IpoptNLP': 'Ipopt::OrigIpoptNLP'}
MODELS = ABS.child()
for k_, m_ in AL.ALG.exact.items():
    MODELS.exact.setdefault(k_, m_)
for r_, m_ in AL.ALG.rx:
    if 'OptionsList' in r_.pattern:
        MODELS.rx.append((r_, m_))
SUCCESS, SINGULAR, WRONG, AGAIN, FATAL = range(5)
COMPS = ('x', 's', 'y_c', 'y_d', 'z_L', 'z_U', 'v_L', 'v_U')
DIMOF = {'x': 'nx', 's': 'ns', 'y_c': 'nc', 'y_d': 'ns', 'z_L': 'nxL', 'z_U': 'nxU', 'v_L': 'nsL', 'v_U': 'nsU'}
DIM = {k: z3.Int('dim.' + k) for k in set(DIMOF.values())}
P_OF = {'z_L': 'Px_L', 'z_U': 'Px_U', 'v_L': 'Pd_L', 'v_U': 'Pd_U'}
SLK = {'z_L': 'slack_x_L', 'z_U': 'slack_x_U', 'v_L': 'slack_s_L', 'v_U': 'slack_s_U'}
SK = z3.Int('entry')
DELTAS = ('delta_x', 'delta_s', 'delta_c', 'delta_d')


def vec(v, name, comp, const=True):
    b = Block(name, 'rec', cls='Ipopt::Vector', lazy=True, tag='abs')
    b.ghost['dim'] = DIM[DIMOF[comp]]
    b.ghost['val[]'] = z3.Function(name + '.val', IntS, RealS)(J)
    if const:
        b.ghost['const'] = True
    v.st.add(b)
    return Ptr(name)


def iterates(v, name, const=True):
    p = v.obj('Ipopt::IteratesVector', name)
    for k in COMPS:
        vec(v, '%s.%s' % (name, k), k, const)
    v.st.wb(name).ghost['comps'] = name
    return p


def at(st, name, j):
    return z3.substitute(vbody(st.mem[name]), (J, j))


def E(P, j):
    return z3.Function('E.' + P, IntS, IntS)(j)


def IN(P, j):
    return z3.Function('IN.' + P, IntS, BoolS)(j)


def INV(P, j):
    return z3.Function('INV.' + P, IntS, IntS)(j)


def expand(P, f, j):
    """entry j of P f"""
    return z3.If(IN(P, j), f(INV(P, j)), rv(0))


def op(M, t):
    """entry J of the product of the matrix M with the vector of value t"""
    if z3.is_app(t) and t.num_args() >= 1 and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.arg(t.num_args() - 1).eq(J):
        args = t.children()
        return z3.Function('%s*%s' % (M, t.decl().name()), *([x.sort() for x in args] + [RealS]))(*args)
    raise Unsupported('product of %s with a combined vector' % M)


def facts(v):
    for P in P_OF.values():
        for j in (SK,):
            v.assume(z3.And(IN(P, E(P, j)), INV(P, E(P, j)) == j, z3.Implies(IN(P, j), E(P, INV(P, j)) == j)))
    v.assume(SK >= 0)
    for d in DIM.values():
        v.assume(d >= 0)


@MODELS.reg('Ipopt::Matrix::MultVector', 'contract', 'y := beta y + alpha A x (C09, C10)')
def m_mult(ex, st, a, ins):
    M_ = matis(ex, st, a[0])
    x, old = vget(ex, st, a[2]), vget(ex, st, a[4])
    if M_ in P_OF.values():
        vput(ex, st, a[4], lambda j: z(a[3], old(j)) + z(a[1], expand(M_, x, j)), 'product')
    else:
        t = op(M_, vbody(st.mem[a[2].b]))
        vput(ex, st, a[4], lambda j: z(a[3], old(j)) + z(a[1], z3.substitute(t, (J, j))), 'product')
    return ret(st)


@MODELS.reg('Ipopt::Matrix::TransMultVector', 'contract', "y := beta y + alpha A'x (C09, C10)")
def m_tmult(ex, st, a, ins):
    M_ = matis(ex, st, a[0])
    x, old = vget(ex, st, a[2]), vget(ex, st, a[4])
    if M_ in P_OF.values():
        vput(ex, st, a[4], lambda j: z(a[3], old(j)) + z(a[1], x(E(M_, j))), 'product')
    else:
        t = op(M_ + "'", vbody(st.mem[a[2].b]))
        vput(ex, st, a[4], lambda j: z(a[3], old(j)) + z(a[1], z3.substitute(t, (J, j))), 'product')
    return ret(st)


@MODELS.reg('Ipopt::Matrix::AddMSinvZ', 'contract', 'X := X + alpha M S^-1 Z (C09)')
def m_amsz(ex, st, a, ins):
    P = matis(ex, st, a[0])
    s, zz, old = vget(ex, st, a[2]), vget(ex, st, a[3]), vget(ex, st, a[4])
    vput(ex, st, a[4], lambda j: old(j) + z(a[1], expand(P, lambda i: zz(i) / s(i), j)), 'AddMSinvZ')
    return ret(st)


@MODELS.reg('Ipopt::Matrix::SinvBlrmZMTdBr', 'contract', "X := S^-1 (R + alpha Z M'D) (C09)")
def m_sinv(ex, st, a, ins):
    P = matis(ex, st, a[0])
    s, r, zz, d = [vget(ex, st, x) for x in a[2:6]]
    vput(ex, st, a[6], lambda j: (r(j) + z(a[1], zz(j) * d(E(P, j)))) / s(j), 'SinvBlrmZMTdBr')
    return ret(st)


def compname(ex, st, p, m):
    b = ex.chk(st, p, 'component of iterate')
    if 'comps' not in b.ghost:
        raise Unsupported('iterates vector of unknown contents')
    return '%s.%s' % (b.ghost['comps'], m)


@MODELS.reg('re:^Ipopt::IteratesVector::(x|s|y_c|y_d|z_L|z_U|v_L|v_U)(_NonConst)?$', 'contract', 'component access of the iterates vector (C08)')
def m_comp(ex, st, a, ins):
    m = MD.fkey(ex.mod.dem[ins['f']]).split('::')[-1].replace('_NonConst', '')
    ex.store(st, a[0], Ptr(compname(ex, st, a[1], m)))
    return ret(st)


@MODELS.reg('re:^Ipopt::IteratesVector::MakeNewIteratesVector(Copy)?$', 'contract', 'a new iterates vector with new components (C08)')
def m_mkit(ex, st, a, ins):
    src = ex.chk(st, a[1], 'iterates vector')
    cp = 'Copy' in ex.mod.dem[ins['f']].split('(')[0]
    if not cp and len(a) > 2:
        ex.require(st, as_bool(a[2]), 'new components are created')
    b = ex.newblock(st, 'newiter')
    b.cls, b.heap, b.lazy = 'Ipopt::IteratesVector', True, True
    b.ghost['comps'] = b.id
    if 'val[]' in src.ghost:                 # a whole iterate as one vector
        b.tag = 'abs'
        b.ghost['dim'] = src.ghost['dim']
        b.ghost['val[]'] = vbody(src) if cp else z3.Function('uninit%d' % next(engine._uid), IntS, RealS)(J)
        ex.store(st, a[0], Ptr(b.id))
        return ret(st)
    for k in COMPS:
        c = Block('%s.%s' % (b.id, k), 'rec', cls='Ipopt::Vector', lazy=True, tag='abs')
        c.ghost['dim'] = DIM[DIMOF[k]]
        if cp:
            c.ghost['val[]'] = vbody(st.mem[compname(ex, st, a[1], k)])
        else:
            c.ghost['verfn'], c.ghost['ver'] = 'sol.' + k, iv(-next(engine._uid))
        st.add(c)
    ex.store(st, a[0], Ptr(b.id))
    return ret(st)


_one = ABS.exact['Ipopt::Vector::AddOneVector']


def _whole(name, order):
    old_ = ABS.exact['Ipopt::Vector::' + name]

    @MODELS.reg('Ipopt::Vector::' + name, 'contract', 'definition of the operation, component by component for iterates (C07, C08)')
    def m(ex, st, a, ins):
        b = ex.chk(st, a[0], 'vector')
        if 'comps' not in b.ghost or b.tag == 'abs':
            return old_.f(ex, st, a, ins)
        for k in COMPS:
            args = [Ptr(compname(ex, st, x, k)) if isinstance(x, Ptr) else x for x in a]
            old_.f(ex, st, args, ins)
        return ret(st)
    return m


for n_ in ('AddOneVector', 'Scal', 'Axpy', 'Copy', 'Set'):
    _whole(n_, None)


@MODELS.reg('re:^Ipopt::(TaggedObject|Vector|Matrix|SymMatrix)::Print$', 'model', 'output only')
def m_print(ex, st, a, ins):
    return ret(st)


@MODELS.reg('re:^Ipopt::Vector::(Dot|Nrm2|Amax)$', 'contract', 'some number (its use only steers the perturbation)')
def m_red(ex, st, a, ins):
    for x in a:
        ex.chk(st, x, 'vector')
    r = z3.Real('red!%d' % next(engine._uid))
    return ret(st, r)


@MODELS.reg('re:^Ipopt::Journalist::ProduceOutput$', 'contract', 'whether some journal takes the output (C26): no')
def m_po(ex, st, a, ins):
    return ret(st, FALSE)


@MODELS.reg('re:^Ipopt::TimedTask::(Start|End)$', 'model', 'timing only')
def m_timing(ex, st, a, ins):
    return ret(st)


@MODELS.reg('re:^Ipopt::TimingStatistics::\\w+$', 'model', 'timing only')
def m_timing2(ex, st, a, ins):
    return ret(st, Ptr('timing'))


@MODELS.reg('re:^Ipopt::IpoptData::TimingStats$', 'model', 'timing only')
def m_timing3(ex, st, a, ins):
    return ret(st, Ptr('timing'))


@MODELS.reg('Ipopt::IpoptData::setPDPert', 'contract', 'perturbations are recorded')
def m_setpd(ex, st, a, ins):
    for k, x in zip(DELTAS, a[1:]):
        st.wb('data').ghost['pd.' + k] = x
    return ret(st)


# ---- perturbation handler (C05): the perturbations in effect are those it gave last
def cur(st):
    return [st.mem['pert'].ghost[k] for k in DELTAS]


def _pert(name, new):
    @MODELS.reg(PH + '::' + name, 'contract', 'perturbations to be used from now on, or failure (C05)' if new else 'the perturbations in effect (C05)')
    def m(ex, st, a, ins):
        ex.require(st, z3.BoolVal(a[0].b == 'pert'), 'the perturbation handler')
        if new:
            for k in DELTAS:
                st.wb('pert').ghost[k] = z3.Real('%s!%d' % (k, next(engine._uid)))
        for k, p, d in zip(DELTAS, a[1:], cur(st)):
            ex.store(st, p, d)
        if name == 'ConsiderNewSystem':
            st.wb('pert').ghost['new'] = TRUE
            st.gh['cells'] = tuple((p.b, p.c) for p in a[1:5])
            return ret(st, z3.Bool('ConsiderNewSystem'))
        return ret(st, z3.Bool('perturbed!%d' % next(engine._uid))) if new else ret(st)
    return m


_pert('CurrentPerturbation', False)
for n_ in ('ConsiderNewSystem', 'PerturbForSingularity', 'PerturbForWrongInertia'):
    _pert(n_, True)


# ---- augmented system
def augrhs(k, j):
    f = lambda c: (lambda i: z3.Function('rhs.%s.val' % c, IntS, RealS)(i))
    s = lambda c: (lambda i: z3.Function(SLK[c] + '.val', IntS, RealS)(i))
    r = f(k)(j)
    if k in 'xs':
        L, U = ('z_L', 'z_U') if k == 'x' else ('v_L', 'v_U')
        r = r + expand(P_OF[L], lambda i: f(L)(i) / s(L)(i), j) - expand(P_OF[U], lambda i: f(U)(i) / s(U)(i), j)
    return r


def augeq(st, sol, j):
    """the augmented system holds in entry j of every block"""
    dx, ds, dc, dd = cur(st)
    body = {k: vbody(st.mem['%s.%s' % (sol, k)]) for k in ('x', 's', 'y_c', 'y_d')}
    e = lambda k: z3.substitute(body[k], (J, j))
    o = lambda M_, k: z3.substitute(op(M_, body[k]), (J, j))
    sg = lambda k: z3.Function('sigma_%s.val' % k, IntS, RealS)(j)
    return z3.And(o('W', 'x') + sg('x') * e('x') + dx * e('x') + o("J_c'", 'y_c') + o("J_d'", 'y_d') == augrhs('x', j),
                  sg('s') * e('s') + ds * e('s') - e('y_d') == augrhs('s', j),
                  o('J_c', 'x') - dc * e('y_c') == augrhs('y_c', j),
                  o('J_d', 'x') - e('s') - dd * e('y_d') == augrhs('y_d', j))


@MODELS.regv(AS, 'Solve', 'interface', 'solves the augmented system with the given perturbations, or fails; a success solves it')
def m_aug(ex, st, a, ins):
    W, wf, Dx, dx, Ds, ds, Jc, Dc, dc, Jd, Dd, dd, rx, rs, rc, rd, sx, ss, sc, sd, chk, neg = a[1:]
    v = ex.vv
    nm = lambda p: p.b if isinstance(p, Ptr) else None
    ex.require(st, z3.BoolVal([nm(x) for x in (W, Dx, Ds, Jc, Jd)] == ['W', 'sigma_x', 'sigma_s', 'J_c', 'J_d'] and Dc.b is None and Dd.b is None), 'matrices and diagonals of the augmented system')
    ex.require(st, wf == 1, 'factor of the Hessian')
    ex.require(st, z3.And(*[x == y for x, y in zip((dx, ds, dc, dd), cur(st))]), 'perturbations are those of the perturbation handler')
    for k, p in zip(('x', 's', 'y_c', 'y_d'), (rx, rs, rc, rd)):
        ex.require(st, vget(ex, st, p)(SK) == augrhs(k, SK), 'right-hand side of the augmented system, block ' + k)
    sol = sx.b[:-2]
    ex.require(st, z3.BoolVal([x.b for x in (sx, ss, sc, sd)] == ['%s.%s' % (sol, k) for k in ('x', 's', 'y_c', 'y_d')] and sol not in ('rhs', 'res')), 'solution goes to new vectors')
    n = DIM['nc'] + DIM['ns']
    ex.require(st, z3.Implies(as_bool(chk), neg == n), 'expected number of negative eigenvalues is the number of constraints')
    ver, stat = z3.Int('solution!%d' % next(engine._uid)), z3.Int('status!%d' % next(engine._uid))
    G = st.wb('aug').ghost
    ex.require(st, z3.Implies(z3.And(as_bool(G['uptodate']), z3.Not(v.pretend)), z3.Not(as_bool(chk))), 'inertia is not checked again for an unchanged matrix')
    ex.require(st, z3.Implies(z3.And(z3.Or(z3.Not(as_bool(G['uptodate'])), v.pretend), v.F['neg_curv_test_tol_'] <= 0), as_bool(chk)), 'inertia is checked for a new matrix unless replaced by the curvature test')
    G['ver'], G['status'] = ver, stat
    for k in ('x', 's', 'y_c', 'y_d'):
        st.wb('%s.%s' % (sol, k)).ghost['ver'] = ver
    st.assume(z3.And(stat >= 0, stat <= FATAL, stat != AGAIN, z3.Implies(stat == SUCCESS, augeq(st, sol, SK))))
    return ret(st, stat)


for nm_, so_ in (('NumberOfNegEVals', IntS), ('IncreaseQuality', BoolS), ('ProvidesInertia', BoolS)):
    @MODELS.regv(AS, nm_, 'interface', 'answer of the solver')
    def m_q(ex, st, a, ins, nm=nm_, so=so_):
        r = z3.Const('%s!%d' % (nm, next(engine._uid)), so)
        if nm == 'NumberOfNegEVals':
            st.wb('aug').ghost['neg'] = r
        return ret(st, r)


def vecptrs(ex, st, p):
    d = stl.vdata(ex, st, p)
    return [ex.load(st, d.add(0, [(8, iv(i))]), 'ptr') for i in range(z3.simplify(st.mem[d.b].n).as_long())]


def chkdeps(ex, st, p):
    names = [x.b for x in vecptrs(ex, st, p)]
    ex.require(st, z3.BoolVal(all(k in names for k in ('W', 'J_c', 'J_d', 'sigma_x', 'sigma_s'))), 'everything the augmented matrix depends on is a dependency of the factorization')
    ex.require(st, z3.BoolVal(all(k and not k.startswith(('rhs', 'res')) for k in names)), 'nothing else is a dependency')


@MODELS.reg(r're:^Ipopt::CachedResults<void\*>::GetCachedResult$', 'contract', 'found if the factorization belongs to these dependencies (C11)')
def m_gc(ex, st, a, ins):
    chkdeps(ex, st, a[2])
    return ret(st, st.mem['aug'].ghost['uptodate'])


@MODELS.reg(r're:^Ipopt::CachedResults<void\*>::AddCachedResult$', 'contract', 'the factorization belongs to these dependencies (C11)')
def m_ac(ex, st, a, ins):
    chkdeps(ex, st, a[2])
    st.wb('aug').ghost['added'] = TRUE
    return ret(st)


def full(st, s, j):
    """left-hand sides of the full system in entry j for the iterate s"""
    dx, ds, dc, dd = cur(st)
    body = {k: vbody(st.mem['%s.%s' % (s, k)]) for k in COMPS}
    e = lambda k, i=j: z3.substitute(body[k], (J, i))
    o = lambda M_, k: z3.substitute(op(M_, body[k]), (J, j))
    f = lambda nm, i=j: z3.Function(nm + '.val', IntS, RealS)(i)
    X = lambda k: expand(P_OF[k], lambda i: e(k, i), j)
    T = lambda k, of: f(k) * e(of, E(P_OF[k], j))
    return {'x': o('W', 'x') + o("J_c'", 'y_c') + o("J_d'", 'y_d') - X('z_L') + X('z_U') + dx * e('x'),
            's': -e('y_d') - X('v_L') + X('v_U') + ds * e('s'),
            'y_c': o('J_c', 'x') - dc * e('y_c'), 'y_d': o('J_d', 'x') - e('s') - dd * e('y_d'),
            'z_L': T('z_L', 'x') + f('slack_x_L') * e('z_L'), 'z_U': -T('z_U', 'x') + f('slack_x_U') * e('z_U'),
            'v_L': T('v_L', 's') + f('slack_s_L') * e('v_L'), 'v_U': -T('v_U', 's') + f('slack_s_U') * e('v_U')}


def base(v):
    facts(v)
    v.p, v.F = AL.strategy(v, PD)
    st = v.st
    st.add(Block('timing', 'rec', cls='Ipopt::TimedTask', lazy=True))
    ph = v.obj(PH, 'pert')
    for k in DELTAS:
        st.wb('pert').ghost[k] = z3.Real('current ' + k)
        st.wb('data').ghost['pd.' + k] = z3.Real('recorded ' + k)
    st.wb('pert').ghost['new'] = FALSE
    au = v.obj(AS, 'aug')
    g = st.wb('aug').ghost
    g['uptodate'], g['added'], g['ver'], g['status'], g['neg'] = z3.Bool('uptodate'), FALSE, iv(-1), iv(-1), iv(0)
    v.set(st, v.p, 'perturbHandler_', ph)
    v.set(st, v.p, 'augSysSolver_', au)


def matargs(v):
    """W .. sigma_s as passed around"""
    a = [mat(v.st, 'W', cls='Ipopt::SymMatrix')] + [mat(v.st, k) for k in ('J_c', 'J_d', 'Px_L', 'Px_U', 'Pd_L', 'Pd_U')]
    a += [vec(v, k, k) for k in ('z_L', 'z_U', 'v_L', 'v_U')] + [vec(v, SLK[k], k) for k in ('z_L', 'z_U', 'v_L', 'v_U')]
    a += [vec(v, 'sigma_x', 'x'), vec(v, 'sigma_s', 's')]
    f = lambda nm, i: z3.Function(nm + '.val', IntS, RealS)(i)
    for k in ('z_L', 'z_U', 'v_L', 'v_U'):
        for j in (SK, INV(P_OF[k], SK)):
            v.assume(f(SLK[k], j) != 0)
    for s, L, U in (('x', 'z_L', 'z_U'), ('s', 'v_L', 'v_U')):
        v.assume(f('sigma_' + s, SK) == expand(P_OF[L], lambda i: f(L, i) / f(SLK[L], i), SK) + expand(P_OF[U], lambda i: f(U, i) / f(SLK[U], i), SK))
    return a

# ---- iterative refinement
SMOD = MODELS.child()
for r_, m_ in AL.ALG.rx:
    if 'IpoptCalculatedQuantities' in r_.pattern:
        SMOD.rx.append((r_, m_))
RATIO = z3.Function('residual ratio', IntS, RealS)
ARGS = ['W', 'cq.curr_jac_c', 'cq.curr_jac_d', 'Px_L', 'Px_U', 'Pd_L', 'Pd_U', 'curr.z_L', 'curr.z_U', 'curr.v_L', 'curr.v_U', 'cq.curr_slack_x_L', 'cq.curr_slack_x_U', 'cq.curr_slack_s_L', 'cq.curr_slack_s_U', 'cq.curr_sigma_x', 'cq.curr_sigma_s']


for P_ in P_OF.values():
    @MODELS.regv('Ipopt::IpoptNLP', P_, 'interface', 'bound matrix')
    def m_nlpP1(ex, st, a, ins, P=P_):
        ex.store(st, a[0], Ptr(P))
        return ret(st)


def mats(ex, st, a, what):
    names = [x.b if isinstance(x, Ptr) else None for x in a]
    ex.require(st, z3.BoolVal(names == ARGS), 'matrices and vectors of the current iterate are passed to ' + what)


@SMOD.reg(PD + '::SolveOnce', 'contract', 'a new solution of the system (or a correction for a residual), or failure without change; proved in SolveOnce')
def m_once(ex, st, a, ins):
    better, pretend, al, be, rhs, res = a[1], as_bool(a[2]), a[20], a[21], a[22], a[23]
    mats(ex, st, a[3:20], 'SolveOnce')
    G = st.wb('aug').ghost
    R = st.mem['res'].ghost
    al, be = z3.simplify(al), z3.simplify(be)
    first = al.eq(rv(1)) and be.eq(rv(0))
    corr = al.eq(rv(-1)) and be.eq(rv(1))
    ex.require(st, z3.BoolVal((first and rhs.b == 'rhs' or corr and rhs.b not in ('rhs', 'res', None)) and res.b == 'res'), 'either the system is solved or the solution for the residual is subtracted')
    if corr:
        ex.require(st, st.mem[rhs.b].ghost['ver'] == R['ver'], 'the correction is computed for the residual of the current solution')
        ex.require(st, z3.Not(pretend), 'no new perturbation during refinement')
    ok, ver = z3.Bool('solved!%d' % next(engine._uid)), z3.Int('version!%d' % next(engine._uid))
    G['ref'] = z3.simplify(G['ref'] + 1) if corr else iv(0)
    G['pretended'] = z3.Or(as_bool(G['pretended']), pretend)
    G['failed'] = z3.Not(ok)
    w = st.wb('res').ghost
    w['ver'] = z3.If(ok, ver, w['ver'])
    return ret(st, ok)


@SMOD.reg(PD + '::ComputeResiduals', 'contract', 'residual of the full system for the given solution; proved in ComputeResiduals')
def m_cres(ex, st, a, ins):
    mats(ex, st, a[1:18], 'ComputeResiduals')
    rhs, res, resid = a[20:23]
    ex.require(st, z3.BoolVal(rhs.b == 'rhs' and res.b == 'res' and resid.b not in ('rhs', 'res', None)), 'residual of the solution for the right-hand side')
    st.wb(resid.b).ghost['ver'] = st.mem['res'].ghost['ver']
    return ret(st)


@SMOD.reg(PD + '::ComputeResidualRatio', 'contract', 'ratio of the residual to right-hand side and solution; proved in ComputeResidualRatio')
def m_ratio(ex, st, a, ins):
    ex.require(st, z3.BoolVal([x.b for x in a[1:3]] == ['rhs', 'res'] and a[3].b not in ('rhs', 'res')), 'arguments of the ratio')
    ex.require(st, st.mem[a[3].b].ghost['ver'] == st.mem['res'].ghost['ver'], 'the residual belongs to the current solution')
    return ret(st, RATIO(st.mem['res'].ghost['ver']))


def solve_job():
    def setup(v):
        base(v)
        st = v.st
        v.set(st, v.d, 'W_', mat(st, 'W', cls='Ipopt::SymMatrix'))
        st.wb('curr').ghost['comps'] = 'curr'
        for k in COMPS:
            vec(v, 'curr.' + k, k)
        for P in P_OF.values():
            mat(st, P)
        for nm in ('rhs', 'res'):
            b = Block(nm, 'rec', cls='Ipopt::IteratesVector', lazy=True, tag='abs')
            b.ghost['dim'], b.ghost['comps'] = v.int('dim'), nm
            b.ghost['val[]'] = z3.Function(nm + '.val', IntS, RealS)(J)
            if nm == 'res':
                b.ghost['verfn'], b.ghost['ver'] = 'res', iv(0)
            else:
                b.ghost['const'] = True
            st.add(b)
        g = st.wb('aug').ghost
        g['ref'], g['pretended'], g['failed'] = iv(0), FALSE, FALSE
        v.al, v.be, v.inex, v.impr = v.real('alpha'), v.real('beta'), v.bool('allow_inexact'), v.bool('improve_solution')
        F = v.F
        v.assume(z3.And(v.al != 0, z3.Not(z3.And(v.inex, v.impr)), z3.Implies(v.impr, v.be == 0), F['min_refinement_steps_'] >= 0, F['max_refinement_steps_'] >= F['min_refinement_steps_'], F['residual_ratio_max_'] > 0, F['residual_ratio_singular_'] >= F['residual_ratio_max_']))
        return [v.p, v.al, v.be, Ptr('rhs'), Ptr('res'), v.inex, v.impr]

    def accept(v, st):
        R = RATIO(st.mem['res'].ghost['ver'])
        return z3.Or(R <= v.F['residual_ratio_max_'], R < v.F['residual_ratio_singular_'], as_bool(st.mem['aug'].ghost['pretended']))

    def post(v, kd, st, r):
        G, R = st.mem['aug'].ghost, st.mem['res'].ghost
        if kd == 'throw':
            v.ensure(st, z3.And(z3.BoolVal(AL.throws(kd, r, 'INTERNAL_ABORT')), as_bool(G['failed']), G['ref'] > 0), 'thrown only if a solve fails during refinement')
            return
        if not normal(v, kd, st):
            return
        v.ensure(st, as_bool(r) == z3.Not(as_bool(G['failed'])), 'failure is reported exactly if the system could not be solved')
        s2 = st.fork()
        s2.assume(as_bool(r))
        V = z3.Function('res', IntS, IntS, RealS)
        if z3.simplify(as_bool(r)).eq(FALSE):
            return
        v.ensure(s2, at(st, 'res', SK) == v.al * V(R['ver'], SK) + z(v.be, V(iv(0), SK)), 'the result is alpha times the last solution plus beta times the incoming values')
        v.ensure(s2, z3.Or(v.inex, accept(v, st)), 'an exact solve ends with a small residual ratio, or after the system was declared singular once in vain')
        v.ensure(s2, z3.Or(v.inex, G['ref'] >= v.F['min_refinement_steps_']), 'at least the requested number of refinement steps')
        v.ensure(s2, z3.Implies(v.inex, G['ref'] == 0), 'no refinement if inexact solutions are allowed')
        v.frame(st, {('res', '*'), ('this', v.off(PD, 'augsys_improved_')), ('data', '*'), ('aug', '*'), ('pert', '*')})

    def inv(v, st, st0):
        G, R = st.mem['aug'].ghost, st.mem['res'].ghost
        must = []
        for b in st.mem.values():
            if b.id.startswith(('newiter', 'tmp')) or b.heap and b.cls == 'Ipopt::IteratesVector':
                if b.live and 'ver' in b.ghost:
                    must.append(('the residual belongs to the current solution', b.ghost['ver'] == R['ver']))
        must.append(('counted', G['ref'] >= 0))
        must.append(('no refinement of inexact solutions', z3.Implies(v.inex, G['ref'] == 0)))
        must.append(('no failure so far', z3.Not(as_bool(G['failed']))))
        return dict(must=must, terms=[RATIO(R['ver']), G['ref']], preds=[as_bool(G['pretended']), accept(v, st), G['ref'] >= v.F['min_refinement_steps_'], G['ref'] == 0], pairs=(0, 1))
    return Job('PDFullSpaceSolver::Solve', PD + '::Solve', setup, post, models=SMOD, inv={PD + '::Solve': inv})


RMOD = MODELS.child()


@RMOD.reg('Ipopt::Vector::Amax', 'contract', 'largest absolute entry (C07, C08)')
def m_am(ex, st, a, ins):
    return ret(st, z3.Real('|%s|' % a[0].b))


def others():
    out = []

    def s_ratio(v):
        base(v)
        for k in ('rhs', 'res', 'resid'):
            v.assume(z3.Real('|%s|' % k) >= 0)
        return [v.p, iterates(v, 'rhs'), iterates(v, 'res'), iterates(v, 'resid')]

    def p_ratio(v, kd, st, r):
        if not normal(v, kd, st):
            return
        a, b, c = [z3.Real('|%s|' % k) for k in ('rhs', 'res', 'resid')]
        v.ensure(st, z3.If(a + b == 0, r == c, z3.Implies(a > 0, r * (z3.If(b <= 1000000 * a, b, 1000000 * a) + a) == c)), 'residual relative to right-hand side and (limited) solution')
        v.frame(st, set())
    out.append(Job('PDFullSpaceSolver::ComputeResidualRatio', PD + '::ComputeResidualRatio', s_ratio, p_ratio, models=RMOD))

    OPTS = [('min_refinement_steps', IntS), ('max_refinement_steps', IntS), ('residual_ratio_max', RealS), ('residual_ratio_singular', RealS), ('residual_improvement_factor', RealS), ('neg_curv_test_tol', RealS), ('neg_curv_test_reg', BoolS)]

    def s_init(v):
        base(v)
        return [v.p, v.obj('Ipopt::OptionsList', 'options'), v.string('prefix')]

    def p_init(v, kd, st, r):
        O = {k: opt(k, s) for k, s in OPTS}
        bad = z3.Or(O['max_refinement_steps'] < O['min_refinement_steps'], O['residual_ratio_singular'] < O['residual_ratio_max'])
        if kd == 'throw':
            v.ensure(st, z3.And(z3.BoolVal(AL.throws(kd, r, 'OPTION_INVALID')), bad), 'only inconsistent options are rejected')
            return
        if not normal(v, kd, st):
            return
        v.ensure(st, z3.Not(bad), 'inconsistent options are rejected')
        for k, s in OPTS:
            x = v.get(st, v.p, k + '_')
            v.ensure(st, (as_bool(x) if s == BoolS else x) == O[k], 'option %s is taken over' % k)
        v.ensure(st, z3.Not(as_bool(v.get(st, v.p, 'augsys_improved_'))), 'a new problem starts without improved quality')
        v.ensure(st, as_bool(r) == z3.And(z3.Bool('initialized aug'), z3.Bool('initialized pert')), 'initialized if both parts are')
    out.append(Job('PDFullSpaceSolver::InitializeImpl', PD + '::InitializeImpl', s_init, p_init))
    return out


@MODELS.reg(['Ipopt::AlgorithmStrategyObject::Initialize', 'Ipopt::AlgorithmStrategyObject::ReducedInitialize'], 'interface', 'a part of the algorithm is initialized, with success or not')
def m_init(ex, st, a, ins):
    return ret(st, z3.Bool('initialized ' + a[0].b))


def jobs():
    out = []

    def s_res(v):
        base(v)
        m = matargs(v)
        return [v.p] + m + [v.real('alpha'), v.real('beta'), iterates(v, 'rhs'), iterates(v, 'res'), iterates(v, 'resid', False)]

    def p_res(v, kd, st, r):
        if not normal(v, kd, st):
            return
        l = full(v.pre, 'res', SK)
        for k in COMPS:
            v.ensure(st, at(st, 'resid.' + k, SK) == l[k] - at(v.pre, 'rhs.' + k, SK), 'residual of the full primal-dual system, block ' + k)
        v.frame(st, {('resid.' + k, ('g', 'val[]')) for k in COMPS})
    out.append(Job('PDFullSpaceSolver::ComputeResiduals', PD + '::ComputeResiduals', s_res, p_res))

    def s_once(v):
        base(v)
        m = matargs(v)
        v.better, v.pretend, v.al, v.be = v.bool('resolve_with_better_quality'), v.bool('pretend_singular'), v.real('alpha'), v.real('beta')
        return [v.p, v.better, v.pretend] + m + [v.al, v.be, iterates(v, 'rhs'), iterates(v, 'res', False)]

    def p_once(v, kd, st, r):
        if not normal(v, kd, st):
            return
        ok = as_bool(r)
        G = st.mem['aug'].ghost
        sols = [b for b in st.mem if b.startswith('newiter') and '.' not in b] or [b for b in st.mem if '%s.z_L' % b in st.mem and b not in ('rhs', 'res')]
        changed = any(not z3.eq(vbody(st.mem['res.' + k]), vbody(v.pre.mem['res.' + k])) for k in COMPS)
        fresh = z3.Or(z3.Not(as_bool(G['uptodate'])), v.pretend)
        if not changed:
            v.ensure(st, z3.Not(ok), 'without a result failure is reported')
            v.frame(st, {('this', v.off(PD, 'augsys_improved_')), ('data', '*')} | {(b, '*') for b in st.mem if b in ('pert', 'aug')})
            return
        v.ensure(st, ok, 'a result is a success')
        v.ensure(st, G['status'] == SUCCESS, 'the result is one the augmented system solver reported as success')
        s = sols[0]
        l = full(st, s, SK)
        for k in COMPS:
            v.ensure(st, l[k] == at(v.pre, 'rhs.' + k, SK), 'the new solution satisfies the full primal-dual system, block ' + k)
            v.ensure(st, at(st, 'res.' + k, SK) == z(v.al, at(st, '%s.%s' % (s, k), SK)) + z(v.be, at(v.pre, 'res.' + k, SK)), 'the result is combined as asked, block ' + k)
        v.ensure(st, z3.Implies(fresh, z3.And(*[st.mem['data'].ghost['pd.' + k] == x for k, x in zip(DELTAS, cur(st))])), 'the perturbations used are recorded')
        v.ensure(st, z3.Implies(z3.Not(fresh), z3.And(*[x == y for x, y in zip(cur(st), cur(v.pre))])), 'an unchanged system is solved with unchanged perturbations')
        v.ensure(st, z3.Implies(z3.Not(as_bool(G['uptodate'])), as_bool(G['added'])), 'the dependencies are remembered')
        v.ensure(st, fresh == as_bool(st.mem['pert'].ghost['new']), 'perturbations are determined exactly for new or seemingly singular systems')
        v.frame(st, {('res.' + k, ('g', 'val[]')) for k in COMPS} | {('this', v.off(PD, 'augsys_improved_')), ('data', '*'), ('pert', '*'), ('aug', '*')})

    def inv(v, st, st0):
        sol = [b for b in st.mem if '%s.z_L' % b in st.mem and b not in ('rhs', 'res')][0]
        G = st.mem['aug'].ghost
        must = []
        for (b, c), x in zip(st.gh['cells'], cur(st)):
            must.append(('perturbation variables hold the perturbations of the handler', v.ex.load(st, Ptr(b, c), 'double') == x))
        eq = z3.And(G['status'] == SUCCESS, augeq(st, sol, SK))
        return dict(must=must, preds=[eq])
    out.append(Job('PDFullSpaceSolver::SolveOnce', PD + '::SolveOnce', s_once, p_once, inv={PD + '::SolveOnce': inv}))
    out.append(solve_job())
    out += others()
    return out
