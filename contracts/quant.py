"""contracts of Ipopt::IpoptCalculatedQuantities: every quantity equals its definition at the current (or trial) iterate, whatever is cached

Vectors are values: a term in $J (entry j) with a dimension.  Matrices are names.  A reduction or product applied to a vector depends on the value only:
values are interned (two values that are provably equal entry by entry get the same name).  A lookup in a cache may fail, or return the definition
of the quantity stored there, provided the dependencies handed over determine that definition; what is stored must be that definition."""
from ipvlib import *
from absvec import *
import absvec as A
import models as MD
import stl, re
from ir import *
from engine import *

SRCS = ['Algorithm/IpIpoptCalculatedQuantities.cpp', 'Algorithm/IpOrigIpoptNLP.cpp', 'Algorithm/IpNLPScaling.cpp', 'Algorithm/IpIteratesVector.cpp']
CQ = 'Ipopt::IpoptCalculatedQuantities'
REP = {'Ipopt::IpoptNLP': 'Ipopt::OrigIpoptNLP', 'Ipopt::NLPScalingObject': 'Ipopt::StandardScalingBase'}
MODELS = ABS.child()
SP = {'x': 'n', 's': 'nd', 'y_c': 'nc', 'y_d': 'nd', 'z_L': 'nxL', 'z_U': 'nxU', 'v_L': 'nsL', 'v_U': 'nsU'}
DIM = {k: z3.Int('dim.' + k) for k in set(SP.values())}
OBJMU = z3.Bool('objective_depends_on_mu')
MU, KAPPA, SMAX, MUT, SLACKMOVE = [z3.Real(x) for x in ('mu', 'kappa_d', 's_max', 'mu_target', 'slack_move')]
NTYPE0 = z3.Int('constr_viol_normtype')
EPS, TINY, DBLMAX = rv(2.0 ** -52), rv(2.2250738585072014e-308), rv(1.7976931348623157e308)


class Val:
    """value of a vector"""

    def __init__(self, t, n):
        self.t, self.n = t, n

    def __add__(self, o):
        return Val(self.t + (o.t if isinstance(o, Val) else o), self.n)

    def __sub__(self, o):
        return Val(self.t - (o.t if isinstance(o, Val) else o), self.n)

    def __mul__(self, o):
        return Val(self.t * (o.t if isinstance(o, Val) else o), self.n)
    __rmul__ = __mul__

    def __truediv__(self, o):
        return Val(self.t / (o.t if isinstance(o, Val) else o), self.n)

    def map(self, f):
        return Val(f(self.t), self.n)


KEYS = []      # (value, name)
NAMES = {}     # function symbol -> names of values and matrices it stands for
_known = {}


def key(val):
    """name of the value: provably equal values have the same name"""
    t = z3.simplify(val.t, som=True)
    n = z3.simplify(val.n)
    h = (t.get_id(), n.get_id())
    if h in _known:
        return _known[h]
    for (u, m, nm) in KEYS:
        if z3.eq(n, m):
            if z3.eq(u, t):
                return nm
            s = z3.Solver()
            s.set('timeout', 300)
            s.add(u != t)
            if s.check() == z3.unsat:
                _known[h] = nm
                KEYS.append((t, m, nm))   # keeps the term alive
                return nm
    nm = '#%d' % len(KEYS)
    KEYS.append((t, n, nm))
    _known[h] = nm
    return nm


def keyval(nm):
    return [(u, n) for (u, n, x) in KEYS if x == nm][0]


def fun(name, objs, args=(), sort=RealS):
    """uninterpreted function of values (by name), matrices (by name) and scalars"""
    ks = [key(o) if isinstance(o, Val) else o for o in objs]
    nm = '%s(%s)' % (name, ','.join(ks))
    NAMES[nm] = ks
    args = list(args)
    return z3.Function(nm, *([x.sort() for x in args] + [sort]))(*args) if args else z3.Const(nm, sort)


def red(name, *vs):
    u = fun(name, vs)
    return u if name == 'Min' else z3.If(vs[0].n == 0, rv(0), u)


def amul(M, v, n):
    if z3.is_rational_value(z3.simplify(v.t)) and z3.simplify(v.t).as_fraction() == 0:
        return Val(rv(0), n)
    return Val(fun('A', [M, v], [J]), n)


def tmul(M, v, n):
    return Val(fun('At', [M, v], [J]), n)


def msz(M, s, zz, n):
    return Val(fun('msz', [M, s, zz], [J]), n)


MATS = {'Px_L': ('n', 'nxL'), 'Px_U': ('n', 'nxU'), 'Pd_L': ('nd', 'nsL'), 'Pd_U': ('nd', 'nsU')}


def rows(M):
    return DIM['nc' if M.startswith('Jc') else 'nd' if M.startswith('Jd') else MATS[M][0]]


def cols(M):
    return DIM['n' if M[:2] in ('Jc', 'Jd') else MATS[M][1]]


def prod(M, v):
    return amul(M, v, rows(M))


def tprod(M, v):
    return tmul(M, v, cols(M))


def comp(r, c):
    return Val(z3.Function('%s.%s.val' % (r, c), IntS, RealS)(J), DIM[SP[c]])


def bound(b):
    return Val(z3.Function(b + '.val', IntS, RealS)(J), DIM[{'x_L': 'nxL', 'x_U': 'nxU', 'd_L': 'nsL', 'd_U': 'nsU', 'orig_x_L': 'nxL', 'orig_x_U': 'nxU'}[b]])


def const(c, k):
    return Val(rv(c), DIM[k])


def Max(*a):
    r = a[0]
    for x in a[1:]:
        r = z3.If(r >= x, r, x)
    return r


def Min(*a):
    r = a[0]
    for x in a[1:]:
        r = z3.If(r <= x, r, x)
    return r


NORM = {'NORM_1': 0, 'NORM_2': 1, 'NORM_MAX': 2}


def norm(nt, *vs):
    s1 = z3.Sum([red('Asum', v) for v in vs])
    s2 = SQRT(z3.Sum([red('Nrm2', v) * red('Nrm2', v) for v in vs]))
    s3 = Max(*[red('Amax', v) for v in vs])
    return z3.If(nt == NORM['NORM_1'], s1, z3.If(nt == NORM['NORM_2'], s2, z3.If(nt == NORM['NORM_MAX'], s3, rv(0))))


SIDES = (('x_L', 'Px_L', 'x', 'z_L', 1), ('x_U', 'Px_U', 'x', 'z_U', -1), ('s_L', 'Pd_L', 's', 'v_L', 1), ('s_U', 'Pd_U', 's', 'v_U', -1))


class Def:
    """the definitions; r: curr or trial"""

    def __init__(self, r, args=()):
        self.r = r
        self.args = list(args)

    def c_(self, c):
        return comp(self.r, c)

    # problem functions
    def f(self):
        x = self.c_('x')
        return z3.If(OBJMU, fun('f', [x], [MU]), fun('f', [x]))

    def unscaled_f(self):
        return fun('unapply_obj', [], [self.f()])

    def grad_f(self):
        x = self.c_('x')
        return Val(z3.If(OBJMU, fun('grad_f', [x], [MU, J]), fun('grad_f', [x], [J])), DIM['n'])

    def c(self):
        return Val(fun('c', [self.c_('x')], [J]), DIM['nc'])

    def d(self):
        return Val(fun('d', [self.c_('x')], [J]), DIM['nd'])

    def unscaled_c(self):
        return Val(fun('unapply_c', [self.c()], [J]), DIM['nc'])

    def unscaled_d(self):
        return Val(fun('unapply_d', [self.d()], [J]), DIM['nd'])

    def jac_c(self):
        return 'Jc(%s)' % key(self.c_('x'))

    def jac_d(self):
        return 'Jd(%s)' % key(self.c_('x'))

    def exact_hessian(self):
        return None

    def d_minus_s(self):
        return self.d() - self.c_('s')

    # slacks
    def raw(self, side):
        nm, P, v, m, sg = side
        b = bound({'x_L': 'x_L', 'x_U': 'x_U', 's_L': 'd_L', 's_U': 'd_U'}[nm])
        p = tprod(P, self.c_(v))
        return p - b if sg > 0 else b - p

    def slack(self, side):
        """slack after the correction of tiny values, which is a function of the slack here"""
        raw = self.raw(side)
        return Val(fun('safe', [raw], [J]), raw.n)

    # barrier
    def damp(self, k):
        """1 where only this bound is present"""
        i = 0 if k[0] == 'x' else 2
        L, U = SIDES[i], SIDES[i + 1]
        on = prod(L[1], const(1, MATS[L[1]][1])) - prod(U[1], const(1, MATS[U[1]][1]))
        side = L if k.endswith('L') else U
        return side[4] * tprod(side[1], on)

    def barrier_term(self, mu, sl):
        t = -mu * z3.Sum([red('SumLogs', s) for s in sl])
        return t + z3.If(KAPPA > 0, KAPPA * mu * z3.Sum([red('Asum', s * self.damp(k[0])) for s, k in zip(sl, SIDES)]), rv(0))

    def slacks(self):
        return [self.slack(s) for s in SIDES]

    def barrier_obj(self):
        return self.f() + self.barrier_term(MU, self.slacks())

    def damping(self, v, k):
        i = 0 if v == 'x' else 2
        L, U = SIDES[i], SIDES[i + 1]
        return (prod(L[1], self.damp(L[0])) - prod(U[1], self.damp(U[0]))) * z3.If(KAPPA > 0, k, rv(0))

    def grad_barrier_obj_x(self):
        g = self.grad_f()
        one = lambda k: const(1, k)
        g = g - msz('Px_L', self.slack(SIDES[0]), one('nxL'), DIM['n']) * MU + msz('Px_U', self.slack(SIDES[1]), one('nxU'), DIM['n']) * MU
        return g + self.damping('x', KAPPA * MU)

    def grad_barrier_obj_s(self):
        sL = self.slack(SIDES[2])
        q = Val(-MU / sL.t, sL.n)
        g = prod('Pd_L', q) + msz('Pd_U', self.slack(SIDES[3]), const(1, 'nsU'), DIM['nd']) * MU
        return g + self.damping('s', KAPPA * MU)

    def grad_kappa_times_damping_x(self):
        return self.damping('x', KAPPA)

    def grad_kappa_times_damping_s(self):
        return self.damping('s', KAPPA)

    def gradBarrTDelta(self):
        return red('Dot', self.grad_barrier_obj_x(), comp('delta', 'x')) + red('Dot', self.grad_barrier_obj_s(), comp('delta', 's'))

    # products with Jacobians
    def jac_c_times_vec(self, v):
        return prod(self.jac_c(), v)

    def jac_d_times_vec(self, v):
        return prod(self.jac_d(), v)

    def jac_cT_times_vec(self, v):
        return tprod(self.jac_c(), v)

    def jac_dT_times_vec(self, v):
        return tprod(self.jac_d(), v)

    def jac_cT_times_y_c(self):
        return self.jac_cT_times_vec(self.c_('y_c'))

    def jac_dT_times_y_d(self):
        return self.jac_dT_times_vec(self.c_('y_d'))

    # Lagrangian
    def grad_lag_x(self):
        return self.grad_f() + self.jac_cT_times_y_c() + self.jac_dT_times_y_d() - prod('Px_L', self.c_('z_L')) + prod('Px_U', self.c_('z_U'))

    def grad_lag_s(self):
        return prod('Pd_U', self.c_('v_U')) - prod('Pd_L', self.c_('v_L')) - self.c_('y_d')

    def grad_lag_with_damping_x(self):
        return self.grad_lag_x() + self.damping('x', KAPPA * MU)

    def grad_lag_with_damping_s(self):
        return self.grad_lag_s() + self.damping('s', KAPPA * MU)

    # complementarity
    def compl(self, side):
        return self.slack(side) * self.c_(side[3])

    def compls(self):
        return [self.compl(s) for s in SIDES]

    def relaxed_compl(self, side):
        return self.compl(side) - MU

    def complementarity(self, mu, nt):
        return z3.If(mu == 0, norm(nt, *self.compls()), norm(nt, *[c - mu for c in self.compls()]))

    def unscaled_complementarity(self, mu, nt):
        return fabs(fun('unapply_obj', [], [self.complementarity(mu, nt)]))

    def ncompl(self):
        return z3.Sum([DIM[k] for k in ('nxL', 'nxU', 'nsL', 'nsU')])

    def avrg_compl(self):
        n = self.ncompl()
        return z3.If(n > 0, z3.Sum([red('Dot', self.c_(s[3]), self.slack(s)) for s in SIDES]) / z3.ToReal(n), rv(0))

    def centrality(self, cs):
        m = DBLMAX
        for c in cs:
            m = z3.If(c.n > 0, Min(m, red('Min', c)), m)
        a = z3.Sum([red('Asum', c) for c in cs]) / z3.ToReal(z3.Sum([c.n for c in cs]))
        return z3.If(m == DBLMAX, rv(0), Min(rv(1), m / a))

    def centrality_measure(self):
        return self.centrality(self.compls())

    # infeasibilities
    def primal_infeasibility(self, nt):
        return norm(nt, self.c(), self.d_minus_s())

    def constraint_violation(self):
        return self.primal_infeasibility(NTYPE0)

    def dual_infeasibility(self, nt):
        return norm(nt, self.grad_lag_x(), self.grad_lag_s())

    def unscaled_dual_infeasibility(self, nt):
        u = fun('unapply_obj', [], [rv(1)])
        gx, gs = Val(fun('unapply_grad_obj', [self.grad_lag_x()], [J]), DIM['n']), Val(fun('apply_d', [self.grad_lag_s()], [J]), DIM['nd'])
        return z3.If(u == 1, norm(nt, gx, gs), norm(nt, gx, gs * u))

    def nlp_constraint_violation(self, nt):
        d = self.d()
        L = (bound('d_L') - tprod('Pd_L', d)).map(lambda t: Max(t, rv(0)))
        U = (bound('d_U') - tprod('Pd_U', d)).map(lambda t: Min(t, rv(0)))
        return norm(nt, self.c(), L, U)

    def unscaled_nlp_constraint_violation(self, nt):
        d = self.d()
        v = []
        for b, P, mm in (('d_L', 'Pd_L', Max), ('d_U', 'Pd_U', Min)):
            w = prod(P, bound(b)) - d
            u = Val(fun('unapply_d', [w], [J]), DIM['nd'])
            v.append(tprod(P, u).map(lambda t: mm(t, rv(0))))
        return norm(nt, self.unscaled_c(), *v)

    # scaled errors
    def scalings(self):
        ym = [self.c_(k) for k in ('y_c', 'y_d')]
        zm = [self.c_(k) for k in ('z_L', 'z_U', 'v_L', 'v_U')]

        def sc(vs):
            n = z3.Sum([v.n for v in vs])
            return z3.If(n == 0, rv(1), Max(SMAX, z3.Sum([red('Asum', v) for v in vs]) / z3.ToReal(n)) / SMAX)
        return sc(ym + zm), sc(zm)

    def nlp_error(self):
        sd, sc = self.scalings()
        nt = iv(NORM['NORM_MAX'])
        return Max(self.dual_infeasibility(nt) / sd, self.nlp_constraint_violation(nt), self.complementarity(MUT, nt) / sc)

    def unscaled_nlp_error(self):
        nt = iv(NORM['NORM_MAX'])
        return Max(self.unscaled_dual_infeasibility(nt), self.unscaled_nlp_constraint_violation(nt), self.unscaled_complementarity(MUT, nt))

    def barrier_error(self):
        sd, sc = self.scalings()
        nt = iv(NORM['NORM_MAX'])
        return Max(self.dual_infeasibility(nt) / sd, self.primal_infeasibility(nt), self.complementarity(MU, nt) / sc)

    def primal_dual_system_error(self, mu):
        nt = iv(NORM['NORM_1'])
        r = self.dual_infeasibility(nt) / z3.ToReal(DIM['n'] + DIM['nd'])
        m = DIM['nc'] + DIM['nd']
        r = r + z3.If(m > 0, self.primal_infeasibility(nt) / z3.ToReal(m), rv(0))
        n = self.ncompl()
        return r + z3.If(n > 0, self.complementarity(mu, nt) / z3.ToReal(n), rv(0))

    # step lengths
    def ftb(self, v, d, tau):
        return fun('FracToBound', [v, d], [tau])

    def side_ftb(self, i, dv, tau):
        r = []
        for s in SIDES[i:i + 2]:
            sl = self.slack(s)
            r.append(z3.If(sl.n > 0, self.ftb(sl, s[4] * tprod(s[1], dv), tau), rv(1)))
        return Min(*r)

    def primal_frac_to_the_bound(self, tau, dx, ds):
        return Min(self.side_ftb(0, dx, tau), self.side_ftb(2, ds, tau))

    def dual_frac_to_the_bound(self, tau, *d):
        return Min(*[self.ftb(self.c_(s[3]), x, tau) for s, x in zip(SIDES, d)])

    def slack_frac_to_the_bound(self, tau, *d):
        return Min(*[self.ftb(self.slack(s), x, tau) for s, x in zip(SIDES, d)])

    def primal_frac_to_the_bound0(self, tau):
        return self.primal_frac_to_the_bound(tau, comp('delta', 'x'), comp('delta', 's'))

    def dual_frac_to_the_bound0(self, tau):
        return self.dual_frac_to_the_bound(tau, *[comp('delta', s[3]) for s in SIDES])

    # primal-dual diagonals
    def sigma_x(self):
        return msz('Px_L', self.slack(SIDES[0]), self.c_('z_L'), DIM['n']) + msz('Px_U', self.slack(SIDES[1]), self.c_('z_U'), DIM['n'])

    def sigma_s(self):
        return msz('Pd_L', self.slack(SIDES[2]), self.c_('v_L'), DIM['nd']) + msz('Pd_U', self.slack(SIDES[3]), self.c_('v_U'), DIM['nd'])


# name of the member function without curr_/trial_ -> (kind, definition, parameters)
T = {}
for _n in ('f', 'unscaled_f', 'barrier_obj', 'gradBarrTDelta', 'avrg_compl', 'centrality_measure', 'constraint_violation', 'nlp_error', 'unscaled_nlp_error', 'barrier_error'):
    T[_n] = ('num', getattr(Def, _n), ())
for _n in ('grad_f', 'c', 'd', 'unscaled_c', 'unscaled_d', 'd_minus_s', 'grad_barrier_obj_x', 'grad_barrier_obj_s', 'grad_lag_x', 'grad_lag_s', 'grad_lag_with_damping_x', 'grad_lag_with_damping_s', 'sigma_x', 'sigma_s',
           'grad_kappa_times_damping_x', 'grad_kappa_times_damping_s'):
    T[_n] = ('vec', getattr(Def, _n), ())
for _s in SIDES:
    T['slack_' + _s[0]] = ('vec', (lambda s: lambda d: d.slack(s))(_s), ())
    T['compl_' + _s[0]] = ('vec', (lambda s: lambda d: d.compl(s))(_s), ())
    T['relaxed_compl_' + _s[0]] = ('vec', (lambda s: lambda d: d.relaxed_compl(s))(_s), ())
for _n in ('jac_c', 'jac_d'):
    T[_n] = ('mat', getattr(Def, _n), ())
T['jac_c_times_vec'] = ('vec', Def.jac_c_times_vec, ('v:n',))
T['jac_d_times_vec'] = ('vec', Def.jac_d_times_vec, ('v:n',))
T['jac_cT_times_vec'] = ('vec', Def.jac_cT_times_vec, ('v:nc',))
T['jac_dT_times_vec'] = ('vec', Def.jac_dT_times_vec, ('v:nd',))
T['jac_cT_times_y_c'] = ('vec', Def.jac_cT_times_y_c, ())
T['jac_dT_times_y_d'] = ('vec', Def.jac_dT_times_y_d, ())
for _n in ('primal_infeasibility', 'dual_infeasibility', 'unscaled_dual_infeasibility', 'nlp_constraint_violation', 'unscaled_nlp_constraint_violation'):
    T[_n] = ('num', getattr(Def, _n), ('i:NormType',))
for _n in ('complementarity', 'unscaled_complementarity'):
    T[_n] = ('num', getattr(Def, _n), ('r:mu_arg', 'i:NormType'))
T['primal_dual_system_error'] = ('num', Def.primal_dual_system_error, ('r:mu_arg',))
T['primal_frac_to_the_bound'] = ('num', Def.primal_frac_to_the_bound, ('r:tau', 'v:n', 'v:nd'))
T['primal_frac_to_the_bound0'] = ('num', Def.primal_frac_to_the_bound0, ('r:tau',))
_d4 = ('v:nxL', 'v:nxU', 'v:nsL', 'v:nsU')
T['dual_frac_to_the_bound'] = ('num', Def.dual_frac_to_the_bound, ('r:tau',) + _d4)
T['dual_frac_to_the_bound0'] = ('num', Def.dual_frac_to_the_bound0, ('r:tau',))
T['slack_frac_to_the_bound'] = ('num', Def.slack_frac_to_the_bound, ('r:tau',) + _d4)


def meth(name):
    """member function -> (entry of T, role)"""
    special = {'curr_jac_cT_times_curr_y_c': ('jac_cT_times_y_c', 'curr'), 'trial_jac_cT_times_trial_y_c': ('jac_cT_times_y_c', 'trial'), 'curr_jac_dT_times_curr_y_d': ('jac_dT_times_y_d', 'curr'),
               'trial_jac_dT_times_trial_y_d': ('jac_dT_times_y_d', 'trial'), 'curr_primal_frac_to_the_bound': ('primal_frac_to_the_bound0', 'curr'), 'curr_dual_frac_to_the_bound': ('dual_frac_to_the_bound0', 'curr'),
               'uncached_dual_frac_to_the_bound': ('dual_frac_to_the_bound', 'curr'), 'uncached_slack_frac_to_the_bound': ('slack_frac_to_the_bound', 'curr')}
    if name in special:
        return special[name]
    m = re.match(r'(unscaled_)?(curr|trial)_(.*)$', name)
    n = name if not m else (m.group(1) or '') + m.group(3)
    return (n, m.group(2) if m else 'curr') if n in T else None


# ---- which objects a definition depends on
def atoms(t, stop, scal, out=None, seen=None):
    """names of the iterates (and numbers) the term depends on, not counting what is determined by the values in stop and the numbers in scal"""
    out = set() if out is None else out
    seen = set() if seen is None else seen

    def val(u):
        if (u.get_id(),) in seen:
            return
        seen.add((u.get_id(),))
        if any(z3.eq(u, s) for s in stop) or any(z3.eq(u, s) for s in scal):
            return
        if z3.is_app(u):
            nm = u.decl().name()
            if nm in NAMES:
                for k in NAMES[nm]:
                    if k.startswith('#'):
                        if k not in seen:
                            seen.add(k)
                            val(keyval(k)[0])
                    else:
                        mk = re.match(r'J[cd]\((#\d+)\)$', k)
                        if mk and mk.group(1) not in seen:
                            seen.add(mk.group(1))
                            val(keyval(mk.group(1))[0])
            elif re.match(r'(curr|trial|delta|arg\d)\b.*\.val$', nm) or nm in ('mu', 'mu_arg', 'tau', 'NormType'):
                out.add(nm)
            for c in u.children():
                val(c)
    val(t)
    return out


def termof(d):
    return d.t if isinstance(d, Val) else d


def simp(st, ex, t):
    """resolve the case whether the objective depends on mu, if the path tells"""
    for val in (TRUE, FALSE):
        if not ex.feasible(st, OBJMU if z3.eq(val, FALSE) else z3.Not(OBJMU)):
            t = z3.substitute(t, (OBJMU, val))
    return z3.simplify(t)


# ---- values of vector objects
def oval(ex, st, p):
    b = ex.chk(st, p, 'vector')
    if b.tag != 'abs':
        raise Unsupported('vector of unknown contents')
    return Val(vbody(b), b.ghost['dim'])


def mkvec(st, name, val, const_=True):
    b = Block(name, 'rec', cls='Ipopt::Vector', lazy=True, tag='abs')
    b.ghost['dim'] = val.n
    b.ghost['val[]'] = z3.simplify(val.t)
    b.ghost['const'] = const_
    st.add(b)
    return Ptr(name)


def vecobj(st, val, name=None):
    """a constant vector object of this value"""
    nm = name or 'vec' + key(val)
    if nm not in st.mem:
        mkvec(st, nm, val)
    return Ptr(nm)


def matobj(st, nm):
    if nm not in st.mem:
        st.add(Block(nm, 'rec', cls='Ipopt::Matrix', lazy=True, tag='absmat'))
    return Ptr(nm)


for _n in ('Amax', 'Asum', 'Nrm2', 'Max', 'Min', 'Sum', 'SumLogs', 'Dot', 'FracToBound'):
    def _mk(n):
        def m(ex, st, a, ins):
            vs = [oval(ex, st, x) for x in a if isinstance(x, Ptr)]
            xs = [x for x in a if not isinstance(x, Ptr)]
            return ret(st, fun(n, vs, xs) if xs else red(n, *vs))
        return m
    MODELS.reg('Ipopt::Vector::' + _n, 'contract', 'a reduction is a function of the vector contents (C07, C08, C11)')(_mk(_n))


def matname(ex, st, p):
    b = ex.chk(st, p, 'matrix')
    if b.tag != 'absmat':
        raise Unsupported('matrix of unknown contents')
    return b.id


def _prod(f):
    def m(ex, st, a, ins):
        M = matname(ex, st, a[0])
        x = oval(ex, st, a[2])
        y = oval(ex, st, a[4])
        r = f(M, x, y.n)
        vput(ex, st, a[4], lambda j: z3.substitute(z(a[3], y.t) + z(a[1], r.t), (J, j)), 'result of a product')
        return ret(st)
    return m


MODELS.reg('Ipopt::Matrix::MultVector', 'contract', 'y := beta y + alpha A x (C09, C10)')(_prod(amul))
MODELS.reg('Ipopt::Matrix::TransMultVector', 'contract', "y := beta y + alpha A' x (C09, C10)")(_prod(tmul))


@MODELS.reg('Ipopt::Matrix::AddMSinvZ', 'contract', 'X := X + alpha A S^-1 Z (C09, C10)')
def m_msz(ex, st, a, ins):
    M = matname(ex, st, a[0])
    s, zz, x = oval(ex, st, a[2]), oval(ex, st, a[3]), oval(ex, st, a[4])
    r = msz(M, s, zz, x.n)
    vput(ex, st, a[4], lambda j: z3.substitute(x.t + z(a[1], r.t), (J, j)), 'result of AddMSinvZ')
    return ret(st)


@MODELS.reg('Ipopt::Matrix::NCols', 'contract', 'number of columns')
def m_nc(ex, st, a, ins):
    return ret(st, cols(matname(ex, st, a[0])))


# ---- the problem
def _nlp_vec(name, k):
    @MODELS.regv('Ipopt::IpoptNLP', name, 'interface', 'bounds are fixed')
    def m(ex, st, a, ins):
        ex.store(st, a[0], vecobj(st, bound(name), name))
        return ret(st)


def _nlp_mat(name):
    @MODELS.regv('Ipopt::IpoptNLP', name, 'interface', 'expansion matrices are fixed')
    def m(ex, st, a, ins):
        ex.store(st, a[0], matobj(st, name))
        return ret(st)


for _n in ('x_L', 'x_U', 'd_L', 'd_U'):
    _nlp_vec(_n, None)
for _n in MATS:
    _nlp_mat(_n)


@MODELS.regv('Ipopt::IpoptNLP', 'f', 'interface', 'the objective is a function of the point (and of mu if it depends on mu)')
def m_f(ex, st, a, ins):
    return ret(st, fun('f', [oval(ex, st, a[1])], a[2:]))


def _nlp_fn(name, k):
    @MODELS.regv('Ipopt::IpoptNLP', name, 'interface', 'problem functions depend on the point only (C14, C16)')
    def m(ex, st, a, ins):
        x = oval(ex, st, a[2])
        ex.store(st, a[0], vecobj(st, Val(fun(name, [x], list(a[3:]) + [J]), DIM[k])))
        return ret(st)


for _n, _k in (('grad_f', 'n'), ('c', 'nc'), ('d', 'nd')):
    _nlp_fn(_n, _k)


def _nlp_jac(name, pre):
    @MODELS.regv('Ipopt::IpoptNLP', name, 'interface', 'problem functions depend on the point only (C14, C16)')
    def m(ex, st, a, ins):
        ex.store(st, a[0], matobj(st, '%s(%s)' % (pre, key(oval(ex, st, a[2])))))
        return ret(st)


_nlp_jac('jac_c', 'Jc')
_nlp_jac('jac_d', 'Jd')


@MODELS.regv('Ipopt::IpoptNLP', 'h', 'interface', 'problem functions depend on the point only (C14, C16)')
def m_h(ex, st, a, ins):
    sf, rest = a[3], a[6:]
    nm = hname(oval(ex, st, a[2]), sf, oval(ex, st, a[4]), oval(ex, st, a[5]), rest)
    ex.store(st, a[0], matobj(st, nm))
    return ret(st)


def hname(x, sf, yc, yd, mu):
    return 'H(%s)' % ','.join([key(x), str(z3.simplify(sf)), key(yc), key(yd)] + [str(z3.simplify(q)) for q in mu])


@MODELS.regv('Ipopt::IpoptNLP', 'objective_depends_on_mu', 'interface', 'a constant of the problem')
def m_odm(ex, st, a, ins):
    return ret(st, OBJMU)


@MODELS.regv('Ipopt::NLPScalingObject', ['unapply_obj_scaling'], 'interface', 'scaling is a fixed function (C16)')
def m_uos(ex, st, a, ins):
    return ret(st, fun('unapply_obj', [], [ex.load(st, a[1], 'double') if isinstance(a[1], Ptr) else a[1]]))


def _scal(names, f, k):
    @MODELS.regv('Ipopt::NLPScalingObject', names, 'interface', 'scaling is a fixed function (C16)')
    def m(ex, st, a, ins):
        v = oval(ex, st, ex.load(st, a[2], 'ptr'))
        w = Val(fun(f, [v], [J]), v.n)
        if 'NonConst' in names[0]:
            ex.store(st, a[0], mkvec(st, ex.newblock(st, 'scaled').id, w, False))
        else:
            ex.store(st, a[0], vecobj(st, w))
        return ret(st)


for _f, _nm in (('unapply_c', 'unapply_vector_scaling_c'), ('unapply_d', 'unapply_vector_scaling_d'), ('apply_d', 'apply_vector_scaling_d'), ('unapply_x', 'unapply_vector_scaling_x')):
    _scal([_nm], _f, None)
    _scal([_nm + '_NonConst'], _f, None)


@MODELS.regv('Ipopt::NLPScalingObject', ['unapply_grad_obj_scaling'], 'interface', 'scaling is a fixed function (C16)')
def m_ugo(ex, st, a, ins):
    v = oval(ex, st, ex.load(st, a[2], 'ptr'))
    ex.store(st, a[0], vecobj(st, Val(fun('unapply_grad_obj', [v], [J]), v.n)))
    return ret(st)


COMPS = {'x': 0, 's': 1, 'y_c': 2, 'y_d': 3, 'z_L': 4, 'z_U': 5, 'v_L': 6, 'v_U': 7}


@MODELS.reg('re:^Ipopt::IteratesVector::(x|s|y_c|y_d|z_L|z_U|v_L|v_U)$', 'contract', 'component access of the iterates vector (C08)')
def m_comp(ex, st, a, ins):
    m = MD.fkey(ex.mod.dem[ins['f']]).split('::')[-1]
    p = a[1]
    ex.chk(st, p, 'component of iterate')
    ex.store(st, a[0], vecobj(st, comp(p.b, m), '%s.%s' % (p.b, m)))
    return ret(st)


# ---- calculated quantities calling each other
def store_result(ex, st, a, ins, d):
    if isinstance(d, Val):
        ex.store(st, a[0], vecobj(st, d))
    else:
        ex.store(st, a[0], matobj(st, d))


def tmps(ex, fn):
    """temporary vectors a member function may overwrite, by following the calls in the source"""
    c = ex.mod.__dict__.setdefault('_tmpcl', {})
    if fn in c:
        return c[fn]
    c[fn] = out = set()
    try:
        f = ex.mod.getfn(fn)
    except Exception:
        return out
    if f is None:
        return out
    for b in f.blocks:
        for i in b:
            if i['o'] in ('call', 'invoke') and 'f' in i:
                k = MD.fkey(ex.mod.dem.get(i['f'], ''))
                m = re.match(re.escape(CQ) + r'::(Tmp_(\w+))$', k)
                if m:
                    out.add('tmp_' + m.group(2))
                elif k.startswith(CQ + '::'):
                    out |= tmps(ex, i['f'])
    return out


def clobber(ex, st, fn):
    for t in tmps(ex, fn):
        if t in st.mem:
            st.wb(t).ghost['val[]'] = z3.Function('clobbered%d' % next(engine._uid), IntS, RealS)(J)


@MODELS.reg('re:^' + CQ + r'::(unscaled_)?(curr|trial|primal|dual|uncached|grad_kappa)\w*$', 'contract', 'proved for the real body: the definition of the quantity')
def m_cq(ex, st, a, ins):
    nm = MD.fkey(ex.mod.dem[ins['f']]).split('::')[-1]
    clobber(ex, st, ins['f'])
    if nm in ('curr_exact_hessian',):
        raise Unsupported('use of the Hessian')
    t = meth(nm)
    if t is None:
        raise Unsupported('quantity ' + nm)
    kind, d, ps = T[t[0]]
    args = a[1:] if kind == 'num' else a[2:]
    av = [oval(ex, st, x) if isinstance(x, Ptr) else x for x in args]
    r = d(Def(t[1]), *av)
    if kind == 'num':
        return ret(st, r)
    store_result(ex, st, a, ins, r)
    return ret(st)


@MODELS.reg('re:^' + CQ + r'::Tmp_(\w+)$', 'contract', 'proved for the real body: a vector of the right space that only this class uses')
def m_tmp(ex, st, a, ins):
    nm = MD.fkey(ex.mod.dem[ins['f']]).split('::')[-1].lower()
    nm = {'tmp_x_l': 'tmp_x_L', 'tmp_x_u': 'tmp_x_U', 'tmp_s_l': 'tmp_s_L', 'tmp_s_u': 'tmp_s_U'}.get(nm, nm)
    return ret(st, Ptr(nm))


@MODELS.reg(CQ + '::ComputeDampingIndicators', 'contract', 'proved for the real body: 1 for variables with only this bound')
def m_damp(ex, st, a, ins):
    clobber(ex, st, ins['f'])
    for p, k in zip(a[1:5], ('x_L', 'x_U', 's_L', 's_U')):
        ex.store(st, p, vecobj(st, Def('curr').damp(k)))
    return ret(st)


def cqmodel(name, f, note):
    @MODELS.reg(CQ + '::' + name, 'contract', 'proved for the real body: ' + note)
    def m(ex, st, a, ins):
        clobber(ex, st, ins['f'])
        return f(ex, st, a, ins)


def _calcslack(sg):
    def f(ex, st, a, ins):
        M = matname(ex, st, a[2])
        x, b = oval(ex, st, a[3]), oval(ex, st, a[4])
        p = tmul(M, x, b.n)
        r = p - b if sg > 0 else b - p
        ex.store(st, a[0], mkvec(st, ex.newblock(st, 'slack').id, r, False))
        return ret(st)
    return f


cqmodel('CalcSlack_L', _calcslack(1), 'distance to the lower bounds')
cqmodel('CalcSlack_U', _calcslack(-1), 'distance to the upper bounds')


def _safe(ex, st, a, ins):
    p = ex.load(st, a[1], 'ptr')
    v = oval(ex, st, p)
    w = Val(fun('safe', [v], [J]), v.n)
    ex.store(st, a[1], mkvec(st, ex.newblock(st, 'safe').id, w, False))
    st.gh['safe'] = st.gh.get('safe', ()) + (tuple(ex.load(st, q, 'ptr').b for q in a[2:5]),)
    return ret(st, fun('nsafe', [v], [], IntS))


cqmodel('CalculateSafeSlack', _safe, 'slacks that are not tiny stay as they are (taken as a function of the slacks: the correction of tiny ones at the same point is not repeated when mu changes)')
cqmodel('CalcBarrierTerm', lambda ex, st, a, ins: ret(st, Def('curr').barrier_term(a[1], [oval(ex, st, p) for p in a[2:6]])), 'barrier term')


def _compl(ex, st, a, ins):
    s, m = oval(ex, st, a[2]), oval(ex, st, a[3])
    ex.store(st, a[0], vecobj(st, s * m))
    return ret(st)


cqmodel('CalcCompl', _compl, 'product entry by entry')


def vecarg(ex, st, p):
    d = stl.vdata(ex, st, p)
    b = st.mem[d.b]
    n = z3.simplify(b.n)
    if not z3.is_int_value(n):
        raise Unsupported('vector of unknown length')
    out = []
    for i in range(n.as_long()):
        out.append(ex.load(st, d.add(0, [(8, iv(i))]), 'ptr'))
    return out


def _norm(ex, st, a, ins):
    if 'std::vector' in ex.mod.dem[ins['f']]:
        vs = [oval(ex, st, q) for q in vecarg(ex, st, a[2])]
    else:
        vs = [oval(ex, st, q) for q in a[2:4]]
    return ret(st, norm(a[1], *vs))


cqmodel('CalcNormOfType', _norm, 'norm of the vectors together')
cqmodel('CalcCentralityMeasure', lambda ex, st, a, ins: ret(st, Def('curr').centrality([oval(ex, st, q) for q in a[1:5]])), 'smallest over average complementarity')


def _scaling(ex, st, a, ins):
    vs = [oval(ex, st, q) for q in a[1:7]]

    def sc(ws):
        n = z3.Sum([v.n for v in ws])
        return z3.If(n == 0, rv(1), Max(a[7], z3.Sum([red('Asum', v) for v in ws]) / z3.ToReal(n)) / a[7])
    ex.store(st, a[8], sc(vs))
    ex.store(st, a[9], sc(vs[2:]))
    return ret(st)


cqmodel('ComputeOptimalityErrorScaling', _scaling, 'scaling factors of the error')


def _cfb(ex, st, a, ins):
    sL, sU, dl = oval(ex, st, a[1]), oval(ex, st, a[4]), oval(ex, st, a[7])
    PL, PU = matname(ex, st, a[3]), matname(ex, st, a[6])
    ex.require(st, z3.BoolVal(a[2].b not in (a[1].b, a[4].b, a[7].b) and a[5].b not in (a[1].b, a[4].b, a[7].b)), 'temporary vectors are not operands')
    for p in (a[2], a[5]):
        vput(ex, st, p, lambda j: z3.Function('clobbered%d' % next(engine._uid), IntS, RealS)(j), 'temporary')
    D = Def('curr')
    r = Min(z3.If(sL.n > 0, D.ftb(sL, tmul(PL, dl, sL.n), a[8]), rv(1)), z3.If(sU.n > 0, D.ftb(sU, -1 * tmul(PU, dl, sU.n), a[8]), rv(1)))
    return ret(st, r)


cqmodel('CalcFracToBound', _cfb, 'largest step to the lower and upper bounds')


# ---- caches
def cachename(ex, st, p):
    b = st.mem[p.b]
    for n, mo, s, t in ex.mod.classes[CQ]['m']:
        if mo == p.c and n.endswith('_cache_'):
            return n[:-7]
    raise Unsupported('cache that is not a member')


EXEMPT = {('curr_barrier_error', 8, 0): 'stored without mu and looked up with mu: never found'}


def fit(ex, st, c, deps, sdeps):
    """definition stored in cache c that is determined by the dependencies, or None"""
    if c == 'curr_exact_hessian':
        return 'hessian'
    t = meth(c)
    if t is None:
        raise Unsupported('cache ' + c)
    kind, d, ps = T[t[0]]
    stop = [z3.simplify(oval(ex, st, p).t) for p in deps if not (isinstance(p, Ptr) and st.mem[p.b].tag == 'absmat')]
    scal = []
    for s in sdeps:
        s = simp(st, ex, s)
        scal += [s] + (list(s.children()) if z3.is_to_real(s) else [])
    for r in (t[1], 'trial' if t[1] == 'curr' else 'curr'):
        D = d(Def(r), *st.gh['args'])
        u = simp(st, ex, z3.simplify(termof(D)) if not isinstance(D, str) else z3.Const(D, RealS))
        if isinstance(D, str):
            NAMES[D] = [D]
        if not atoms(u, stop, scal):
            return D
    return None


def deps_of(ex, st, a, ins):
    nm = MD.fkey(ex.mod.dem[ins['f']]).split('::')[-1]
    sdeps = []
    if nm.endswith('Dep'):
        deps = a[2:]
    else:
        deps = vecarg(ex, st, a[2])
        if len(a) > 3:
            d = stl.vdata(ex, st, a[3])
            for i in range(z3.simplify(st.mem[d.b].n).as_long()):
                sdeps.append(ex.load(st, d.add(0, [(8, iv(i))]), 'double'))
    return list(deps), sdeps


def isnum(ex, ins):
    return '<double>' in ex.mod.dem[ins['f']].split('CachedResult')[1] or 'CachedResults<double>' in ex.mod.dem[ins['f']]


@MODELS.reg(r're:^Ipopt::CachedResults<.*>::GetCachedResult(\dDep)?$', 'contract', 'a value found was stored for the same dependencies (C11)')
def m_get(ex, st, a, ins):
    c = cachename(ex, st, a[0])
    deps, sdeps = deps_of(ex, st, a, ins)
    out = []
    s1 = st.fork()
    s1.assume(z3.Bool('miss%d' % next(engine._uid)))
    out += ret(s1, FALSE)
    s2 = st
    s2.gh['hits'] = s2.gh.get('hits', 0) + 1
    D = fit(ex, st, c, deps, sdeps)
    old = 'double' if isnum(ex, ins) else 'ptr'
    if D is None:
        v = z3.Real('stale%d' % next(engine._uid)) if old == 'double' else Val(z3.Function('stale%d' % next(engine._uid), IntS, RealS)(J), z3.Int('staledim'))
    elif isinstance(D, str) and D == 'hessian':
        x, yc, yd = (oval(ex, st, p) for p in deps)
        v = hname(x, rv(1), yc, yd, [] if z3.eq(simp(st, ex, OBJMU), FALSE) else [simp(st, ex, sdeps[0])])
    else:
        v = D
    if old == 'double':
        ex.store(s2, a[1], v)
    else:
        ex.store(s2, a[1], vecobj(s2, v) if isinstance(v, Val) else matobj(s2, v))
    return out + ret(s2, TRUE)


@MODELS.reg(r're:^Ipopt::CachedResults<.*>::AddCachedResult(\dDep)?$', 'contract', 'stores the value for these dependencies (C11)')
def m_add(ex, st, a, ins):
    c = cachename(ex, st, a[0])
    deps, sdeps = deps_of(ex, st, a, ins)
    if (c, len(deps), len(sdeps)) in EXEMPT:
        return ret(st)
    D = fit(ex, st, c, deps, sdeps)
    if D is None:
        ex.require(st, FALSE, 'the dependencies of a stored value determine it')
        return ret(st)
    if isnum(ex, ins):
        ex.require(st, ex.load(st, a[1], 'double') == D, 'the value stored is the one of these dependencies')
        return ret(st)
    p = ex.load(st, a[1], 'ptr')
    if isinstance(D, str) and D == 'hessian':
        x, yc, yd = (oval(ex, st, p) for p in deps)
        D = hname(x, rv(1), yc, yd, [] if z3.eq(simp(st, ex, OBJMU), FALSE) else [simp(st, ex, sdeps[0])])
    if isinstance(D, Val):
        v = oval(ex, st, p)
        ex.require(st, v.t == D.t, 'the value stored is the one of these dependencies')
    else:
        ex.require(st, z3.BoolVal(matname(ex, st, p) == D), 'the value stored is the one of these dependencies')
    return ret(st)


@MODELS.reg('std::pow', 'model', 'the square')
def m_pow(ex, st, a, ins):
    e = z3.simplify(a[1]) if isz(a[1]) else rv(a[1])
    if z3.is_rational_value(e) and e.as_fraction() == 2:
        return ret(st, a[0] * a[0])
    raise Unsupported('pow')


def pre(v, data=True):
    st = v.st
    for k in DIM.values():
        v.assume(k >= 0)
    v.assume(DIM['n'] > 0)
    v.assume(z3.And(KAPPA >= 0, SMAX > 0, MUT >= 0, MU > 0))
    v.p = v.obj(CQ, 'this')
    d = v.obj('Ipopt::IpoptData', 'data')
    for r in ('curr', 'trial', 'delta'):
        v.set(st, d, r + '_', v.obj('Ipopt::IteratesVector', r))
    v.set(st, d, 'curr_mu_', MU)
    nlp = v.obj('Ipopt::IpoptNLP', 'nlp')
    v.set(st, nlp, 'nlp_scaling_', v.obj('Ipopt::NLPScalingObject', 'scaling'))
    v.set(st, v.p, 'ip_data_', d)
    v.set(st, v.p, 'ip_nlp_', nlp)
    for f, t in (('kappa_d_', KAPPA), ('s_max_', SMAX), ('mu_target_', MUT), ('slack_move_', SLACKMOVE), ('constr_viol_normtype_', NTYPE0)):
        v.set(st, v.p, f, t)
    for t, k in (('tmp_x', 'n'), ('tmp_s', 'nd'), ('tmp_c', 'nc'), ('tmp_d', 'nd'), ('tmp_x_L', 'nxL'), ('tmp_x_U', 'nxU'), ('tmp_s_L', 'nsL'), ('tmp_s_U', 'nsU')):
        mkvec(st, t, Val(z3.Function(t + '.val', IntS, RealS)(J), DIM[k]), False)
    st.gh['args'] = []


def normal(v, kind, st):
    v.ensure(st, z3.BoolVal(kind == 'ret'), 'returns normally')
    return kind == 'ret'


def same(v, st, p, d, what):
    """the object at p is the matrix or the vector d"""
    ex = v.ex
    if isinstance(d, str):
        v.ensure(st, z3.BoolVal(matname(ex, st, p) == d), what)
        return
    w = oval(ex, st, p)
    v.ensure(st, z3.And(w.t == d.t, w.n == d.n), what)


def pick(m, name, sub):
    return [f for f in m.find(name) if sub in f.dem][0]


def jobs():
    out = []
    lo = {'NORM_1': 0}

    def mkargs(v, ps):
        a, d = [], []
        for i, q in enumerate(ps):
            k, nm = q.split(':')
            if k == 'i':
                x = v.int(nm)
                v.assume(z3.And(x >= 0, x <= 2))
                a.append(x)
                d.append(x)
            elif k == 'r':
                x = v.real(nm)
                a.append(x)
                d.append(x)
            else:
                val = Val(z3.Function('arg%d.val' % i, IntS, RealS)(J), DIM[nm])
                a.append(mkvec(v.st, 'arg%d' % i, val))
                d.append(val)
        return a, d

    def job(name, entry, role, objmu):
        kind, df, ps = T[entry]

        def setup(v):
            global OBJMU
            OBJMU = z3.BoolVal(objmu)
            E = v.mod.enum('Ipopt::ENormType')
            NORM.update(E)
            pre(v)
            a, v.d = mkargs(v, ps)
            v.st.gh['args'] = v.d
            if kind == 'num':
                return [v.p] + a
            return [v.obj(None, '$sret'), v.p] + a

        def post(v, kd, st, val):
            if not normal(v, kd, st):
                return
            D = df(Def(role), *v.d)
            what = 'the quantity is as defined'
            if kind == 'num':
                v.ensure(st, (val if isz(val) else rv(val)) == D, what)
            else:
                same(v, st, v.ex.load(st, Ptr('$sret'), 'ptr'), D, what)
            if entry.startswith('slack_') and 'frac' not in entry:
                side = entry[6:]
                mult = {'x_L': 'z_L', 'x_U': 'z_U', 's_L': 'v_L', 's_U': 'v_U'}[side]
                for t in st.gh.get('safe', ()):
                    v.ensure(st, z3.BoolVal(t[0] == side.replace('s_', 'd_') and t[2] == 'curr.' + mult), 'slacks are corrected for their own bound and multiplier')
        out.append(Job(name + (' (the objective depends on mu)' if objmu else ''), CQ + '::' + name, setup, post, merge=False))
    for name in sorted(set(['curr_' + k for k in T if not k.startswith(('unscaled', 'grad_kappa', 'primal_frac', 'dual_frac', 'slack_frac', 'jac_cT_times_y', 'jac_dT_times_y'))]
                           + ['trial_' + k for k in T if k in ('f', 'grad_f', 'barrier_obj', 'c', 'd', 'd_minus_s', 'jac_c', 'jac_d', 'jac_cT_times_vec', 'jac_dT_times_vec', 'constraint_violation', 'grad_lag_x', 'grad_lag_s', 'primal_infeasibility',
                                                               'dual_infeasibility', 'complementarity', 'primal_dual_system_error', 'avrg_compl') or k.startswith(('slack_x', 'slack_s_', 'compl_'))]
                           + ['unscaled_curr_' + k for k in ('f', 'c', 'd', 'dual_infeasibility', 'nlp_constraint_violation', 'nlp_error', 'complementarity')]
                           + ['unscaled_trial_' + k for k in ('f', 'c', 'nlp_constraint_violation')]
                           + ['grad_kappa_times_damping_x', 'grad_kappa_times_damping_s', 'curr_jac_cT_times_curr_y_c', 'trial_jac_cT_times_trial_y_c', 'curr_jac_dT_times_curr_y_d', 'trial_jac_dT_times_trial_y_d',
                              'primal_frac_to_the_bound', 'dual_frac_to_the_bound', 'curr_primal_frac_to_the_bound', 'curr_dual_frac_to_the_bound', 'uncached_dual_frac_to_the_bound', 'uncached_slack_frac_to_the_bound'])):
        e, r = meth(name)
        for objmu in (False, True):
            job(name, e, r, objmu)

    # ---- the helpers, whose contracts the quantities above use
    def helper(name, setup, post, pick_=None, objmu=False):
        def st_(v):
            global OBJMU
            OBJMU = z3.BoolVal(objmu)
            NORM.update(v.mod.enum('Ipopt::ENormType'))
            pre(v)
            return setup(v)
        out.append(Job('%s' % name if not pick_ else '%s %s' % (name, pick_), (lambda m: pick(m, CQ + '::' + name, pick_)) if pick_ else CQ + '::' + name, st_, post, merge=False))

    def vec(v, nm, k):
        val = Val(z3.Function(nm + '.val', IntS, RealS)(J), DIM[k])
        return mkvec(v.st, nm, val), val

    def slackjob(nm, sg):
        def setup(v):
            x, v.xv = vec(v, 'arg_x', 'n')
            b, v.bv = vec(v, 'arg_b', 'nxL')
            return [v.obj(None, '$sret'), v.p, matobj(v.st, 'Px_L'), x, b]

        def post(v, kd, st, val):
            if normal(v, kd, st):
                p = tmul('Px_L', v.xv, DIM['nxL'])
                same(v, st, v.ex.load(st, Ptr('$sret'), 'ptr'), p - v.bv if sg > 0 else v.bv - p, 'distance to the bound')
        helper(nm, setup, post)
    slackjob('CalcSlack_L', 1)
    slackjob('CalcSlack_U', -1)

    def csetup(v):
        a, v.av = vec(v, 'arg_s', 'nxL')
        b, v.bv = vec(v, 'arg_m', 'nxL')
        return [v.obj(None, '$sret'), v.p, a, b]

    def cpost(v, kd, st, val):
        if normal(v, kd, st):
            same(v, st, v.ex.load(st, Ptr('$sret'), 'ptr'), v.av * v.bv, 'product entry by entry')
    helper('CalcCompl', csetup, cpost)

    def ssetup(v):
        v.sl = Val(z3.Function('arg_slack.val', IntS, RealS)(J), DIM['nxL'])
        sl = mkvec(v.st, 'arg_slack', v.sl, False)
        b, v.bd = vec(v, 'arg_bound', 'nxL')
        c, _ = vec(v, 'arg_curr', 'nxL')
        m, v.ml = vec(v, 'arg_mult', 'nxL')
        refs = []
        for i, p in enumerate((sl, b, c, m)):
            r = v.obj(None, 'ref%d' % i)
            v.ex.store(v.st, r, p)
            refs.append(r)
        n = DIM['nxL']
        v.assume(z3.And(J >= 0, J < n, v.ml.t != 0, SLACKMOVE > 0))
        v.assume(red('Min', v.sl) <= v.sl.t)
        return [v.p] + refs

    def spost(v, kd, st, val):
        if not normal(v, kd, st):
            return
        smin = EPS * Min(rv(1), MU)
        smin = z3.If(smin == 0, TINY, smin)
        new = Min(Max(MU / v.ml.t, smin), Max(v.sl.t, rv(0)) + SLACKMOVE * Max(rv(1), fabs(v.bd.t)))
        w = oval(v.ex, st, v.ex.load(st, Ptr('ref0'), 'ptr'))
        v.ensure(st, z3.And(w.t == z3.If(v.sl.t < smin, new, v.sl.t), w.n == DIM['nxL']), 'only slacks below the safeguard are changed, to at least ... and at most a small move of the bound')
    helper('CalculateSafeSlack', ssetup, spost)

    KS = ('nxL', 'nxU', 'nsL', 'nsU')

    def bsetup(v):
        v.sl, a = [], []
        for i, k in enumerate(KS):
            p, w = vec(v, 'slack%d' % i, k)
            a.append(p)
            v.sl.append(w)
        return [v.p, v.real('mu_arg')] + a
    helper('CalcBarrierTerm', bsetup, lambda v, kd, st, val: normal(v, kd, st) and v.ensure(st, val == Def('curr').barrier_term(z3.Real('mu_arg'), v.sl), 'barrier term with damping'))

    def msetup(v):
        v.sl = []
        r = bsetup(v)
        for w in v.sl:
            v.assume(red('Min', w) <= DBLMAX)
        return [v.p] + r[2:]
    helper('CalcCentralityMeasure', msetup, lambda v, kd, st, val: normal(v, kd, st) and v.ensure(st, (val if isz(val) else rv(val)) == Def('curr').centrality(v.sl), 'smallest over average complementarity, at most 1'))

    def n2setup(v):
        t = v.int('NormType')
        v.assume(z3.And(t >= 0, t <= 2))
        a, w = bsetup(v)[2:4], None
        v.nt = t
        return [v.p, t] + a
    helper('CalcNormOfType', n2setup, lambda v, kd, st, val: normal(v, kd, st) and v.ensure(st, val == norm(v.nt, *v.sl[:2]), 'norm of both vectors together'), 'Vector const&, Ipopt::Vector const&')

    def n3(k):
        def n3setup(v):
            t = v.int('NormType')
            v.assume(z3.And(t >= 0, t <= 2))
            v.nt = t
            a = bsetup(v)[2:2 + k]
            v.sl = v.sl[:k]
            for w in v.sl:
                v.assume(red('Amax', w) >= 0)
            v.st.add(Block('vecs.data', 'arr', n=iv(k)))
            b = v.st.wb('vecs.data')
            b.S = 8
            b.fields[0] = PtrMap(None, [(iv(i), p) for i, p in enumerate(a)])
            d = v.obj(None, 'vecs')
            v.st.wb('vecs').cells[0] = Ptr('vecs.data')
            return [v.p, t, d]
        helper('CalcNormOfType', n3setup, lambda v, kd, st, val: normal(v, kd, st) and v.ensure(st, val == norm(v.nt, *v.sl), 'norm of the vectors together'), 'std::vector')
        out[-1].name += ' of %d' % k
    for k in (2, 3, 4):
        n3(k)

    def esetup(v):
        v.vs, a = [], []
        for i, k in enumerate(('nc', 'nd') + KS):
            p, w = vec(v, 'mult%d' % i, k)
            a.append(p)
            v.vs.append(w)
        v.sd, v.sc = v.cell('s_d', rv(0)), v.cell('s_c', rv(0))
        return [v.p] + a + [SMAX, v.sd, v.sc]

    def epost(v, kd, st, val):
        if not normal(v, kd, st):
            return

        def sc(vs):
            n = z3.Sum([w.n for w in vs])
            return z3.If(n == 0, rv(1), Max(SMAX, z3.Sum([red('Asum', w) for w in vs]) / z3.ToReal(n)) / SMAX)
        v.ensure(st, v.ex.load(st, v.sd, 'double') == sc(v.vs), 's_d')
        v.ensure(st, v.ex.load(st, v.sc, 'double') == sc(v.vs[2:]), 's_c')
    helper('ComputeOptimalityErrorScaling', esetup, epost)

    def fsetup(v):
        a, v.sL = vec(v, 'arg_sL', 'nxL')
        b, v.sU = vec(v, 'arg_sU', 'nxU')
        d, v.d = vec(v, 'arg_delta', 'n')
        tl = mkvec(v.st, 'tL', Val(z3.Function('tL.val', IntS, RealS)(J), DIM['nxL']), False)
        tu = mkvec(v.st, 'tU', Val(z3.Function('tU.val', IntS, RealS)(J), DIM['nxU']), False)
        return [v.p, a, tl, matobj(v.st, 'Px_L'), b, tu, matobj(v.st, 'Px_U'), d, v.real('tau')]

    def fpost(v, kd, st, val):
        if not normal(v, kd, st):
            return
        D = Def('curr')
        tau = z3.Real('tau')
        r = Min(z3.If(v.sL.n > 0, D.ftb(v.sL, tmul('Px_L', v.d, v.sL.n), tau), rv(1)), z3.If(v.sU.n > 0, D.ftb(v.sU, -1 * tmul('Px_U', v.d, v.sU.n), tau), rv(1)))
        v.ensure(st, val == r, 'largest step to the bounds')
    helper('CalcFracToBound', fsetup, fpost)

    def dsetup(valid):
        def f(v):
            if valid:
                for k in ('x_L', 'x_U', 's_L', 's_U'):
                    v.set(v.st, v.p, 'dampind_%s_' % k, mkvec(v.st, 'damp.' + k, Def('curr').damp(k), False))
            else:
                for k in ('x_L', 'x_U', 's_L', 's_U'):
                    v.set(v.st, v.p, 'dampind_%s_' % k, NULL)
            v.outs = [v.obj(None, 'out%d' % i) for i in range(4)]
            for o in v.outs:
                v.ex.store(v.st, o, NULL)
            return [v.p] + v.outs
        return f

    def dpost(v, kd, st, val):
        if not normal(v, kd, st):
            return
        for o, k in zip(v.outs, ('x_L', 'x_U', 's_L', 's_U')):
            same(v, st, v.ex.load(st, o, 'ptr'), Def('curr').damp(k), 'damping indicator of ' + k)
            same(v, st, v.get(st, v.p, 'dampind_%s_' % k), Def('curr').damp(k), 'the stored indicator of ' + k)
    helper('ComputeDampingIndicators', dsetup(False), dpost)
    out[-1].name += ' (first call)'
    helper('ComputeDampingIndicators', dsetup(True), dpost)
    out[-1].name += ' (later calls)'

    for objmu in (False, True):
        def hsetup(v):
            return [v.obj(None, '$sret'), v.p]

        def hpost(v, kd, st, val):
            if normal(v, kd, st):
                x, yc, yd = [comp('curr', k) for k in ('x', 'y_c', 'y_d')]
                D = hname(x, rv(1), yc, yd, [MU] if z3.is_true(OBJMU) else [])
                same(v, st, v.ex.load(st, Ptr('$sret'), 'ptr'), D, 'Hessian of the Lagrangian with factor 1')
        helper('curr_exact_hessian', hsetup, hpost, None, objmu)
        if objmu:
            out[-1].name += ' (the objective depends on mu)'
    return out
