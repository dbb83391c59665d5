"""contracts of the C interface: callbacks get the current point and their results are the ones used; data, starting values and results are copied to and from the arrays of the user"""
from ipvlib import *
import alg as AL

SRCS = ['Interfaces/IpStdCInterface.cpp', 'Interfaces/IpStdInterfaceTNLP.cpp', 'Interfaces/IpInterfacesRegOp.cpp'][:2]
SI, PI, APP = 'Ipopt::StdInterfaceTNLP', 'IpoptProblemInfo', 'Ipopt::IpoptApplication'
REP = {}
MODELS = BASE.child()
CB = ['eval_f', 'eval_g', 'eval_grad_f', 'eval_jac_g', 'eval_h', 'intermediate_cb']


def isnull(p):
    """z3 condition: pointer is null"""
    return z3.BoolVal(p.b is None) if p.nul is None else p.nul


def same(st, p, q):
    return z3.BoolVal(p.b == q.b) if p.b is None or p.nul is None else z3.And(z3.BoolVal(p.b == q.b))


def content(ex, st, p, n, f, what, ty='double'):
    """array p holds f(j) for 0 <= j < n"""
    if p.b is None:
        ex.require(st, n <= 0, what + ' are given')
        return
    s2 = st.fork()
    j = ex.vv.skolem('p')
    s2.assume(z3.And(j >= 0, j < n))
    if p.nul is not None:
        ex.require(s2, z3.Not(p.nul), what + ' are given')
        s2.assume(z3.Not(p.nul))
    g = M.rd(ex, s2, Ptr(p.b, p.c, p.t), ty)
    ex.require(s2, g(j) == f(j), what)


def result(ex, st, p, n, name, ty='double'):
    """the callback fills the array"""
    if p.b is None:
        return
    so = IntS if ty == 'i32' else RealS
    f = z3.Function('callback:' + name, IntS, so)
    g = M.rd(ex, st, Ptr(p.b, p.c, p.t), ty)
    M.wr(ex, st, Ptr(p.b, p.c, p.t), ty, n, lambda k: f(k))


def fp(ex, st, p, blk, a, ins):
    """the callbacks of the user: they may return anything"""
    v = ex.vv
    nm = p.b[3:]
    if not p.b.startswith('cb:'):
        return None
    R = z3.Int('returned by ' + nm)
    st.assume(z3.And(R >= 0, R <= 255))
    st.gh['called'] = st.gh.get('called', ()) + (nm,)
    if p.nul is not None:
        ex.require(st, z3.Not(p.nul), 'the callback was given')
    rv_ = lambda: ret(st, R if ins.get('t') in ('i8', 'i32') else R != 0)
    if nm == 'intermediate_cb':
        for k, x in enumerate(v.args[1:12]):
            ex.require(st, a[k] == x, 'argument %d of the intermediate callback' % k)
        ex.require(st, z3.BoolVal(a[11].b == 'user'), 'user data')
        ex.require(st, z3.BoolVal(v.get(st, v.p, 'ip_data_', 'ptr').b == 'ipdata' and v.get(st, v.p, 'ip_cq_', 'ptr').b == 'ipcq'), 'data and calculated quantities are available to GetIpoptCurrentIterate')
        return rv_()
    ex.require(st, a[0] == v.n, 'number of variables')
    x = a[1]
    if v.x.b is not None:
        content(ex, st, x, v.n, v.X, 'the callback gets the current point')
    ex.require(st, as_bool(a[2]) == as_bool(v.newx), 'whether the point is new')
    ex.require(st, z3.BoolVal(a[-1].b == 'user'), 'user data')
    if nm == 'eval_f':
        ex.store(st, a[3], z3.Real('callback:f'))
    elif nm == 'eval_grad_f':
        ex.require(st, z3.BoolVal(a[3].b == 'out'), 'gradient goes to the array of the caller')
        result(ex, st, a[3], v.n, 'grad')
    elif nm == 'eval_g':
        ex.require(st, z3.And(a[3] == v.m, z3.BoolVal(a[4].b == 'out')), 'constraints go to the array of the caller')
        result(ex, st, a[4], v.m, 'g')
    else:
        o = 4
        if nm == 'eval_h':
            ex.require(st, z3.And(a[3] == v.objf, a[4] == v.m), 'objective factor and number of constraints')
            if v.lam.b is not None:
                content(ex, st, a[5], v.m, v.LAM, 'the callback gets the current multipliers')
            ex.require(st, as_bool(a[6]) == as_bool(v.newl), 'whether the multipliers are new')
            o = 7
        else:
            ex.require(st, a[3] == v.m, 'number of constraints')
        ex.require(st, a[o] == v.nz, 'number of entries')
        for k, w in enumerate(('irow', 'jcol', 'out')):
            ex.require(st, z3.BoolVal(a[o + 1 + k].b == v.outs[k].b), 'array %s of the caller' % w)
            result(ex, st, a[o + 1 + k], v.nz, w, 'double' if w == 'out' else 'i32')
    return rv_()


MODELS.fp = fp


# ---- the surroundings of IpoptSolve
@MODELS.reg('re:^Ipopt::TNLP::(TNLP|~TNLP)$', 'model', 'the base class has no data')
def m_tnlp(ex, st, a, ins):
    return ret(st)


@MODELS.reg('re:^Ipopt::IpoptApplication::IpoptApplication$', 'model', 'a new application object')
def m_app(ex, st, a, ins):
    st.gh['app'] = st.gh.get('app', ()) + (a[0].b,)
    st.wb(a[0].b).cls = APP
    return ret(st)


@MODELS.reg('re:^Ipopt::IpoptException::ReportException$', 'model', 'prints a message')
def m_rep(ex, st, a, ins):
    return ret(st)


@MODELS.reg('re:^Ipopt::Journalist::(Printf|VPrintf)$', 'model', 'prints a message')
def m_prt(ex, st, a, ins):
    return ret(st)


@MODELS.reg('re:^Ipopt::IpoptApplication::RethrowNonIpoptException$', 'model', 'whether foreign exceptions leave the application')
def m_rt(ex, st, a, ins):
    st.gh['rethrow'] = a[1]
    return ret(st, TRUE)


def anyexc(ex, st, name):
    """outcome: an exception of the named class"""
    s = st.fork()
    b = Block('exc.' + name, 'rec', cls='Ipopt::' + name, lazy=True)
    s.add(b)
    import engine
    return ('throw', s, Exc('_ZTIN5Ipopt%d%sE' % (len(name), name), Ptr(b.id)))


@MODELS.reg('re:^Ipopt::IpoptApplication::Initialize$', 'interface', 'reads options; any status')
def m_init(ex, st, a, ins):
    st.gh['initialized'] = 1
    return ret(st, ex.vv.istat)


@MODELS.reg('re:^Ipopt::IpoptApplication::Jnlst$', 'model', 'the journalist')
def m_jn(ex, st, a, ins):
    if 'jnlst' not in st.mem:
        st.add(Block('jnlst', 'rec', cls='Ipopt::Journalist', lazy=True))
    ex.store(st, a[0], Ptr('jnlst'))
    return ret(st)


@MODELS.reg('re:^Ipopt::IpoptApplication::Options$', 'model', 'the options of the application')
def m_opts(ex, st, a, ins):
    ex.require(st, z3.BoolVal(a[1].b == 'app'), 'the application of the problem')
    if 'opts' not in st.mem:
        st.add(Block('opts', 'rec', cls='Ipopt::OptionsList', lazy=True))
    ex.store(st, a[0], Ptr('opts'))
    return ret(st)


@MODELS.reg(['Ipopt::OptionsList::SetStringValue', 'Ipopt::OptionsList::SetNumericValue', 'Ipopt::OptionsList::SetIntegerValue'], 'contract', 'sets an option, or refuses (C13)')
def m_set(ex, st, a, ins):
    v = ex.vv
    what = AL.fkey_last(ex.mod.dem[ins['f']])
    ex.require(st, AL.strval(ex, st, a[1]) == v.key, 'name of the option')
    if 'String' in what:
        ex.require(st, AL.strval(ex, st, a[2]) == v.val, 'value of the option')
    else:
        ex.require(st, a[2] == v.val, 'value of the option')
    ex.require(st, as_bool(a[3]), 'the option may be changed again')
    st.gh['set'] = what
    return ret(st, z3.Bool('accepted'))


@MODELS.reg('re:^Ipopt::IpoptApplication::OpenOutputFile$', 'interface', 'opens the file, or fails')
def m_of(ex, st, a, ins):
    v = ex.vv
    ex.require(st, z3.And(AL.strval(ex, st, a[1]) == v.key, a[2] == v.val), 'file name and print level')
    st.gh['set'] = 'file'
    return ret(st, z3.Bool('accepted'))


SOLVE = MODELS.child()


@SOLVE.reg(SI + '::' + 'StdInterfaceTNLP', 'contract', 'proved for the real body: keeps the data, or throws INVALID_STDINTERFACE_NLP')
def m_ctor(ex, st, a, ins):
    v = ex.vv
    ex.require(st, z3.And(a[1] == v.n, a[4] == v.m, a[7] == v.F['nele_jac'], a[8] == v.F['nele_hess'], a[9] == v.F['index_style']), 'the dimensions of the problem')
    for k, nme in ((2, 'x_L'), (3, 'x_U'), (5, 'g_L'), (6, 'g_U')):
        ex.require(st, z3.BoolVal(a[k].b == nme), 'the bounds %s of the problem' % nme)
    for k, nme in zip(range(14, 20), CB):
        ex.require(st, z3.BoolVal(a[k].b == 'cb:' + nme), 'callback %s' % nme)
    for k, k2, nme, n in ((10, 20, 'x', v.n), (11, 24, 'mult_g', v.m), (12, 21, 'mult_x_L', v.n), (13, 22, 'mult_x_U', v.n)):
        u = v.U[nme]
        s2 = st.fork()
        nul = isnull(u)
        s2.assume(z3.Not(nul))
        if engine._check(list(s2.pc), 3000)[0] != z3.unsat:
            content(ex, s2, a[k], n, v.body(v.pre, Ptr(nme)), 'starting values for %s are those of the user' % nme)
            ex.require(s2, z3.BoolVal(a[k].b is not None and a[k].b not in v.U), 'starting values for %s are kept apart from the array for the result' % nme)
        s3 = st.fork()
        s3.assume(nul)
        if engine._check(list(s3.pc), 3000)[0] != z3.unsat:
            ex.require(s3, isnull(a[k]), 'no starting values for %s if none are given' % nme)
        ex.require(st, z3.BoolVal(a[k2].b == nme), 'array of the user for the result %s' % nme)
    ex.require(st, z3.BoolVal(a[23].b == 'g' and a[25].b == 'obj_val'), 'arrays of the user for constraints and objective')
    ex.require(st, z3.BoolVal(a[26].b == 'user'), 'user data')
    ex.require(st, z3.And(a[27] == v.F['obj_scaling'], z3.BoolVal(a[28].b == 'x_scaling' and a[29].b == 'g_scaling')), 'scaling factors of the problem')
    st.gh['nlp'] = a[0].b
    bad = anyexc(ex, st, 'INVALID_STDINTERFACE_NLP')
    bad[1].assume(v.bool('problem is invalid'))
    st.assume(z3.Not(v.bool('problem is invalid')))
    return ret(st) + [bad]


@SOLVE.reg('re:^Ipopt::IpoptApplication::OptimizeTNLP$', 'interface', 'solves the problem and writes the results (finalize_solution), or throws')
def m_opt(ex, st, a, ins):
    v = ex.vv
    t = ex.load(st, a[1], 'ptr')
    ex.require(st, z3.BoolVal(t.b is not None and t.b == st.gh.get('nlp')), 'the problem solved is the one described')
    ex.require(st, z3.BoolVal(v.get(st, v.p, 'tnlp', 'ptr').b == t.b), 'the problem is known to GetIpoptCurrentIterate during the solve')
    bad = anyexc(ex, st, 'IpoptException')
    bad[1].assume(v.bool('solver throws'))
    st.assume(z3.Not(v.bool('solver throws')))
    st.gh['solved'] = 1
    for nme in ('x', 'g', 'mult_g', 'mult_x_L', 'mult_x_U'):
        st.wb(nme).fields[0] = z3.Function('final ' + nme, IntS, RealS)(J)
    return ret(st, v.ostat) + [bad]


ITER = MODELS.child()


@ITER.reg(['Ipopt::TNLP::get_curr_iterate', 'Ipopt::TNLP::get_curr_violations'], 'interface', 'the current iterate or its violations, if there is one')
def m_gci(ex, st, a, ins):
    v = ex.vv
    ex.require(st, z3.BoolVal(a[0].b == 'tnlp'), 'the problem being solved is asked')
    ex.require(st, z3.BoolVal(a[1].b == 'ipdata' and a[2].b == 'ipcq'), 'data of the running algorithm')
    for x, y in zip(a[3:], v.args):
        ex.require(st, as_bool(x) == y if isz(y) and z3.is_bool(y) else x == y if isz(y) else z3.BoolVal(x.b == y.b), 'arguments are passed on')
    st.gh['asked'] = 1
    return ret(st, z3.Bool('answer'))


def jobs():
    out = []

    def si(v):
        v.p = v.obj(SI, 'this')
        F = v.F = v.fields(v.p, only=['n_var_', 'n_con_', 'nele_jac_', 'nele_hess_', 'index_style_', 'obj_scaling_'])
        v.n, v.m = F['n_var_'], F['n_con_']
        v.assume(z3.And(v.n >= 1, v.m >= 0, F['nele_jac_'] >= 0, F['nele_hess_'] >= 0, z3.Or(F['index_style_'] == 0, F['index_style_'] == 1)))
        for f in ('x_L_', 'x_U_', 'start_x_'):
            v.set(v.st, v.p, f, v.arr(f, v.n))
        for f in ('g_L_', 'g_U_'):
            v.set(v.st, v.p, f, v.nullable(v.arr(f, v.m), z3.And(v.m == 0, v.bool('no ' + f))))
        for f, n in (('start_lam_', v.m), ('start_z_L_', v.n), ('start_z_U_', v.n), ('x_scaling_', v.n), ('g_scaling_', v.m), ('non_const_x_', v.n), ('x_sol_', v.n), ('z_L_sol_', v.n), ('z_U_sol_', v.n), ('g_sol_', v.m), ('lambda_sol_', v.m)):
            v.set(v.st, v.p, f, v.nullable(v.arr(f, n), v.bool('no ' + f)))
        v.set(v.st, v.p, 'obj_sol_', v.nullable(v.cell('obj_sol_', v.real('obj_sol_')), v.bool('no obj_sol_')))
        for c in CB:
            v.obj(SI, 'cb:' + c)
            v.set(v.st, v.p, c + '_', v.nullable(Ptr('cb:' + c), v.bool('no callback')) if c == 'intermediate_cb' else Ptr('cb:' + c))
        v.obj(SI, 'user')
        v.set(v.st, v.p, 'user_data_', Ptr('user'))
        v.set(v.st, v.p, 'ip_data_', NULL)
        v.set(v.st, v.p, 'ip_cq_', NULL)

    def ok(v, kd):
        v.ensure(v.st if kd is None else v.cur, z3.BoolVal(kd == 'ret'), 'returns normally')
        return kd == 'ret'

    def job(name, fn, setup, post, models=None, **kw):
        def s(v):
            return setup(v)

        def p(v, kd, st, val):
            v.cur = st
            post(v, kd, st, val)
        out.append(Job(name, fn, s, p, models=models, **kw))

    def rets(v, st, val):
        R = z3.Int('returned by ' + st.gh['called'][-1]) if st.gh.get('called') else None
        v.ensure(st, z3.BoolVal(R is not None), 'the callback is called')
        if R is not None:
            v.ensure(st, as_bool(val) == (R != 0), 'failure is reported exactly if the callback reports it')
        v.ensure(st, z3.BoolVal(len(st.gh.get('called', ())) == 1), 'the callback is called once')

    # ---- problem data
    def s(v):
        si(v)
        return [v.p] + [v.cell(n, v.int('old ' + n)) for n in ('n', 'm', 'nj', 'nh', 'style')]

    def p(v, kd, st, val):
        if not ok(v, kd):
            return
        for n, x in (('n', v.n), ('m', v.m), ('nj', v.F['nele_jac_']), ('nh', v.F['nele_hess_']), ('style', v.F['index_style_'])):
            v.ensure(st, st.mem[n].cells[0] == x, 'number given by the user: ' + n)
        v.ensure(st, as_bool(val), 'success')
        v.frame(st, {(n, 0) for n in ('n', 'm', 'nj', 'nh', 'style')})
    job('get_nlp_info', SI + '::get_nlp_info', s, p)

    def copied(v, st, src, dst, n, what, cond=TRUE):
        s2 = st.fork()
        s2.assume(cond)
        j = v.skolem()
        s2.assume(z3.And(j >= 0, j < n))
        v.ensure(s2, v.body(s2, Ptr(dst))(j) == v.body(v.pre, Ptr(src))(j), what)

    def s(v):
        si(v)
        return [v.p, v.n, v.arr('x_l', v.n), v.arr('x_u', v.n), v.m, v.arr('g_l', v.m), v.arr('g_u', v.m)]

    def p(v, kd, st, val):
        if not ok(v, kd):
            return
        for a, b, n in (('x_L_', 'x_l', v.n), ('x_U_', 'x_u', v.n), ('g_L_', 'g_l', v.m), ('g_U_', 'g_u', v.m)):
            copied(v, st, a, b, n, 'bounds given by the user: ' + a)
        v.ensure(st, as_bool(val), 'success')
        v.frame(st, {(n, ('f', 0)) for n in ('x_l', 'x_u', 'g_l', 'g_u')})
    job('get_bounds_info', SI + '::get_bounds_info', s, p)

    def s(v):
        si(v)
        return [v.p, v.cell('os', v.real('os')), v.cell('ux', v.bool('ux')), v.n, v.arr('xs', v.n), v.cell('ug', v.bool('ug')), v.m, v.arr('gs', v.m)]

    def p(v, kd, st, val):
        if not ok(v, kd):
            return
        v.ensure(st, st.mem['os'].cells[0] == v.F['obj_scaling_'], 'objective scaling given by the user')
        for u, a, b, n in (('ux', 'x_scaling_', 'xs', v.n), ('ug', 'g_scaling_', 'gs', v.m)):
            given = z3.Not(v.bool('no ' + a))
            v.ensure(st, as_bool(st.mem[u].cells[0]) == given, 'scaling is used exactly if given: ' + a)
            copied(v, st, a, b, n, 'scaling given by the user: ' + a, given)
        v.ensure(st, as_bool(val), 'success')
        v.frame(st, {('os', 0), ('ux', 0), ('ug', 0), ('xs', ('f', 0)), ('gs', ('f', 0))})
    job('get_scaling_parameters', SI + '::get_scaling_parameters', s, p)

    def s(v):
        si(v)
        v.i = [v.bool('init_x'), v.bool('init_z'), v.bool('init_lambda')]
        return [v.p, v.n, v.i[0], v.arr('x', v.n), v.i[1], v.arr('z_l', v.n), v.arr('z_u', v.n), v.m, v.i[2], v.arr('lam', v.m)]

    def p(v, kd, st, val):
        if not ok(v, kd):
            return
        good = z3.And(z3.Implies(v.i[1], z3.And(z3.Not(v.bool('no start_z_L_')), z3.Not(v.bool('no start_z_U_')))), z3.Implies(v.i[2], z3.Not(v.bool('no start_lam_'))))
        v.ensure(st, as_bool(val) == good, 'success exactly if everything asked for was given')
        for i, a, b, n in ((0, 'start_x_', 'x', v.n), (1, 'start_z_L_', 'z_l', v.n), (1, 'start_z_U_', 'z_u', v.n), (2, 'start_lam_', 'lam', v.m)):
            copied(v, st, a, b, n, 'starting values given by the user: ' + a, z3.And(v.i[i], as_bool(val)))
        v.frame(st, {(n, ('f', 0)) for n in ('x', 'z_l', 'z_u', 'lam')})
    job('get_starting_point', SI + '::get_starting_point', s, p)

    # ---- evaluations
    def point(v, x=True):
        """protocol of the caller: a point that is not new is the one announced last"""
        v.newx = v.bool('new_x')
        if x:
            v.x = v.arr('x', v.n)
            v.X = v.body(v.st, v.x)
            q = z3.Int('$q')
            v.assume(z3.Implies(z3.Not(v.newx), z3.And(z3.Not(v.bool('no non_const_x_')), z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < v.n), v.body(v.st, Ptr('non_const_x_'))(q) == v.X(q)), patterns=[v.X(q)]))))
        else:
            v.x = NULL
            v.newx = FALSE

    def after(v, st, kd, val, outs):
        if not ok(v, kd):
            return
        rets(v, st, val)
        px = v.get(st, v.p, 'non_const_x_', 'ptr')
        if v.x.b is not None:
            content(v.ex, st, px, v.n, v.X, 'the point is kept for evaluations at the same point')
        v.frame(st, {('this', v.off(SI, 'non_const_x_')), ('non_const_x_', ('f', 0))} | outs)

    def s(v):
        si(v)
        point(v)
        return [v.p, v.n, v.x, v.newx, v.cell('f', v.real('old f'))]

    def p(v, kd, st, val):
        after(v, st, kd, val, {('f', 0)})
        v.ensure(st, st.mem['f'].cells[0] == z3.Real('callback:f'), 'the value is the one of the callback')
    job('eval_f', SI + '::eval_f', s, p)

    def res(v, st, nme, key, n, ty='double'):
        j = v.skolem()
        s2 = st.fork()
        s2.assume(z3.And(j >= 0, j < n))
        v.ensure(s2, v.body(s2, Ptr(nme), ty)(j) == z3.Function('callback:' + key, IntS, IntS if ty == 'i32' else RealS)(j), 'the values are those of the callback: ' + nme)

    def s(v):
        si(v)
        point(v)
        return [v.p, v.n, v.x, v.newx, v.arr('out', v.n)]

    def p(v, kd, st, val):
        after(v, st, kd, val, {('out', ('f', 0))})
        res(v, st, 'out', 'grad', v.n)
    job('eval_grad_f', SI + '::eval_grad_f', s, p)

    def s(v):
        si(v)
        point(v)
        return [v.p, v.n, v.x, v.newx, v.m, v.arr('out', v.m)]

    def p(v, kd, st, val):
        after(v, st, kd, val, {('out', ('f', 0))})
        res(v, st, 'out', 'g', v.m)
    job('eval_g', SI + '::eval_g', s, p)

    for kind in ('values', 'structure'):
        def mk(v, kind=kind):
            point(v, kind == 'values')
            if kind == 'values':
                v.outs = [NULL, NULL, v.arr('out', v.nz)]
            else:
                v.outs = [v.arr('irow', v.nz, S=4, ty='i32'), v.arr('jcol', v.nz, S=4, ty='i32'), NULL]

        def fin(v, kd, st, val, kind=kind):
            after(v, st, kd, val, {(b, ('f', 0)) for b in ('out', 'irow', 'jcol')})
            if kind == 'values':
                res(v, st, 'out', 'out', v.nz)
            else:
                res(v, st, 'irow', 'irow', v.nz, 'i32')
                res(v, st, 'jcol', 'jcol', v.nz, 'i32')

        def s(v, mk=mk):
            si(v)
            v.nz = v.F['nele_jac_']
            mk(v)
            return [v.p, v.n, v.x, v.newx, v.m, v.nz] + v.outs
        job('eval_jac_g [%s]' % kind, SI + '::eval_jac_g', s, fin)

        def s(v, mk=mk, kind=kind):
            si(v)
            v.nz = v.F['nele_hess_']
            mk(v)
            v.objf, v.newl = v.real('obj_factor'), v.bool('new_lambda')
            v.lam = v.arr('lambda', v.m) if kind == 'values' else NULL
            v.LAM = v.body(v.st, v.lam) if kind == 'values' else None
            return [v.p, v.n, v.x, v.newx, v.objf, v.m, v.lam, v.newl, v.nz] + v.outs
        job('eval_h [%s]' % kind, SI + '::eval_h', s, fin)

    # ---- intermediate callback and results
    def s(v):
        si(v)
        v.obj('Ipopt::IpoptData', 'ipdata')
        v.obj('Ipopt::IpoptCalculatedQuantities', 'ipcq')
        v.args = [v.p, v.int('mode'), v.int('iter')] + [v.real(n) for n in ('obj', 'inf_pr', 'inf_du', 'mu', 'd_norm', 'reg', 'alpha_du', 'alpha_pr')] + [v.int('ls'), Ptr('ipdata'), Ptr('ipcq')]
        return v.args

    def p(v, kd, st, val):
        if not ok(v, kd):
            return
        none = v.bool('no callback')
        if st.gh.get('called'):
            v.ensure(st, z3.Not(none), 'only a callback that was given is called')
            rets(v, st, val)
        else:
            v.ensure(st, z3.And(none, as_bool(val)), 'without a callback the solve goes on')
        v.ensure(st, z3.BoolVal(v.get(st, v.p, 'ip_data_', 'ptr').b is None and v.get(st, v.p, 'ip_cq_', 'ptr').b is None), 'data are available during the callback only')
        v.frame(st, {('this', v.off(SI, 'ip_data_')), ('this', v.off(SI, 'ip_cq_'))})
    job('intermediate_callback', SI + '::intermediate_callback', s, p)

    def s(v):
        si(v)
        return [v.p, v.int('status'), v.n, v.arr('x', v.n), v.arr('zl', v.n), v.arr('zu', v.n), v.m, v.arr('g', v.m), v.arr('lam', v.m), v.real('obj'), NULL, NULL]

    def p(v, kd, st, val):
        if not ok(v, kd):
            return
        for d, a, n in (('x_sol_', 'x', v.n), ('z_L_sol_', 'zl', v.n), ('z_U_sol_', 'zu', v.n), ('g_sol_', 'g', v.m), ('lambda_sol_', 'lam', v.m)):
            copied(v, st, a, d, n, 'the result is copied to the array of the user: ' + d, z3.Not(v.bool('no ' + d)))
        v.ensure(st, z3.Implies(z3.Not(v.bool('no obj_sol_')), st.mem['obj_sol_'].cells[0] == v.real('obj')), 'objective value is copied')
        v.frame(st, {(d, ('f', 0)) for d in ('x_sol_', 'z_L_sol_', 'z_U_sol_', 'g_sol_', 'lambda_sol_')} | {('obj_sol_', 0)})
    job('finalize_solution', SI + '::finalize_solution', s, p)

    # ---- construction
    CARGS = [('n_var', 'i'), ('x_L', 'n'), ('x_U', 'n'), ('n_con', 'i'), ('g_L', 'm'), ('g_U', 'm'), ('nele_jac', 'i'), ('nele_hess', 'i'), ('index_style', 'i'), ('start_x', 'n'), ('start_lam', 'm'), ('start_z_L', 'n'), ('start_z_U', 'n')] + [(c, 'cb') for c in CB] + \
        [('x_sol', 'n'), ('z_L_sol', 'n'), ('z_U_sol', 'n'), ('g_sol', 'm'), ('lambda_sol', 'm'), ('obj_sol', 'o'), ('user_data', 'o'), ('obj_scaling', 'r'), ('x_scaling', 'n'), ('g_scaling', 'm')]

    def s(v):
        v.p = v.obj(SI, 'this')
        v.A = {}
        n, m = v.int('n_var'), v.int('n_con')
        for nme, t in CARGS:
            if t == 'i':
                v.A[nme] = v.int(nme)
            elif t == 'r':
                v.A[nme] = v.real(nme)
            elif t == 'cb' or t == 'o':
                v.A[nme] = v.nullable(v.obj(SI, nme), v.bool('no ' + nme))
            else:
                k = n if t == 'n' else m
                v.A[nme] = v.nullable(v.arr(nme, z3.If(k > 0, k, iv(0))), v.bool('no ' + nme))
        return [v.p] + [v.A[k] for k, t in CARGS]

    def valid(v, g=None):
        A, no = v.A, lambda k: v.bool('no ' + k)
        return z3.And(A['n_var'] > 0, A['n_con'] >= 0, A['nele_jac'] >= 0, A['nele_hess'] >= 0, z3.Or(A['index_style'] == 0, A['index_style'] == 1),
                      *[z3.Not(no(k)) for k in ('x_L', 'x_U', 'start_x', 'eval_f', 'eval_grad_f', 'eval_g', 'eval_jac_g', 'eval_h')],
                      *[z3.Or(A['n_con'] == 0, z3.Not(no(k))) for k in ('g_L', 'g_U')])

    def p(v, kd, st, val):
        if kd == 'throw':
            v.ensure(st, z3.BoolVal(AL.throws(kd, val, 'INVALID_STDINTERFACE_NLP')), 'only INVALID_STDINTERFACE_NLP is thrown')
            v.ensure(st, z3.Not(valid(v)), 'a valid problem is accepted')
            return
        v.ensure(st, valid(v), 'an invalid problem is rejected')
        for nme, t in CARGS:
            if nme in ('x_scaling', 'g_scaling'):
                q = v.get(st, v.p, nme + '_', 'ptr')
                given = z3.Not(v.bool('no ' + nme))
                s2 = st.fork()
                s2.assume(given)
                k = v.A['n_var' if nme[0] == 'x' else 'n_con']
                if engine._check(list(s2.pc), 3000)[0] != z3.unsat:
                    v.ensure(s2, z3.And(z3.Not(isnull(q)), z3.BoolVal(q.b != nme)), 'own copy of ' + nme)
                    content(v.ex, s2, q, k, v.body(v.pre, Ptr(nme)), 'copy of ' + nme)
                s2 = st.fork()
                s2.assume(z3.Not(given))
                if engine._check(list(s2.pc), 3000)[0] != z3.unsat:
                    v.ensure(s2, isnull(q), 'no scaling if none is given: ' + nme)
                continue
            x = v.get(st, v.p, nme + '_', 'ptr' if t not in 'ir' else None)
            if t in 'ir':
                v.ensure(st, x == v.A[nme], 'kept: ' + nme)
            else:
                v.ensure(st, z3.BoolVal(x.b == nme) if x.b is not None else v.bool('no ' + nme), 'kept: ' + nme)
        q = v.get(st, v.p, 'non_const_x_', 'ptr')
        v.ensure(st, isnull(q), 'no point yet')
        v.frame(st, {('this', '*')})
    job('StdInterfaceTNLP', SI + '::StdInterfaceTNLP', s, p, budget=200)

    def s(v):
        si(v)
        return [v.p]

    def p(v, kd, st, val):
        if ok(v, kd):
            v.frame(st, {('this', '*'), ('non_const_x_', 'release'), ('x_scaling_', 'release'), ('g_scaling_', 'release')}, 'the arrays of the user are kept')
            for b in ('non_const_x_', 'x_scaling_', 'g_scaling_'):
                v.ensure(st, z3.Or(z3.BoolVal(not st.mem[b].live), v.bool('no ' + b)), 'own array is released: ' + b)
    job('~StdInterfaceTNLP', lambda m: next(m.getfn(k) if not isinstance(k, tuple) else m.getfn(*reversed(k)) for k in list(m.funcs) if (k[1] if isinstance(k, tuple) else k).endswith('StdInterfaceTNLPD2Ev')), s, p)

    # ---- the C functions
    def prob(v):
        v.p = v.obj(PI, 'problem')
        v.F = F = v.fields(v.p, only=['n', 'm', 'nele_jac', 'nele_hess', 'index_style', 'obj_scaling'])
        v.n, v.m = F['n'], F['m']
        v.assume(z3.And(v.n >= 1, v.m >= 0))
        for f, n in (('x_L', v.n), ('x_U', v.n)):
            v.set(v.st, v.p, f, v.arr(f, n))
        for f in ('g_L', 'g_U'):
            v.set(v.st, v.p, f, v.nullable(v.arr(f, v.m), v.m == 0))
        for f, n in (('x_scaling', v.n), ('g_scaling', v.m)):
            v.set(v.st, v.p, f, v.nullable(v.arr(f, n), v.bool('no ' + f)))
        for c in CB:
            v.obj(SI, 'cb:' + c)
            v.set(v.st, v.p, c, v.nullable(Ptr('cb:' + c), v.bool('no ' + c)))
        v.obj(APP, 'app')
        v.set(v.st, v.p, 'app', Ptr('app'))
        v.set(v.st, v.p, 'tnlp', NULL)

    CR = [('n', 'i'), ('x_L', 'n'), ('x_U', 'n'), ('m', 'i'), ('g_L', 'm'), ('g_U', 'm'), ('nele_jac', 'i'), ('nele_hess', 'i'), ('index_style', 'i'), ('eval_f', 'cb'), ('eval_g', 'cb'), ('eval_grad_f', 'cb'), ('eval_jac_g', 'cb'), ('eval_h', 'cb')]

    def s(v):
        v.A = {}
        for nme, t in CR:
            if t == 'i':
                v.A[nme] = v.int(nme)
            elif t == 'cb':
                v.A[nme] = v.nullable(v.obj(SI, nme), v.bool('no ' + nme))
            else:
                k = v.int(t)
                v.A[nme] = v.nullable(v.arr(nme, z3.If(k > 0, k, iv(0))), v.bool('no ' + nme))
        return [v.A[k] for k, t in CR]

    def cvalid(v):
        A, no = v.A, lambda k: v.bool('no ' + k)
        return z3.And(A['n'] >= 1, A['m'] >= 0, A['nele_hess'] >= 0, *[z3.Not(no(k)) for k in ('x_L', 'x_U', 'eval_f', 'eval_grad_f')],
                      z3.Implies(A['m'] == 0, A['nele_jac'] == 0), z3.Implies(A['m'] > 0, z3.And(A['nele_jac'] >= 1, *[z3.Not(no(k)) for k in ('g_L', 'g_U', 'eval_g', 'eval_jac_g')])))

    def p(v, kd, st, val):
        if not ok(v, kd):
            return
        if val.b is None:
            v.ensure(st, z3.Not(cvalid(v)), 'a problem with valid data is created')
            v.frame(st, set())
            return
        v.ensure(st, cvalid(v), 'a problem with invalid data is not created')
        b = st.mem[val.b]
        fld = lambda f: b.cells.get(v.off(PI, f))
        for nme, t in CR:
            x = fld(nme)
            if t == 'i':
                v.ensure(st, x == v.A[nme], 'kept: ' + nme)
            elif t == 'cb':
                v.ensure(st, z3.BoolVal(isinstance(x, Ptr) and x.b == nme) if x.b is not None else v.bool('no ' + nme), 'kept: ' + nme)
            else:
                k = v.A[t]
                s2 = st.fork()
                s2.assume(k > 0)
                if engine._check(list(s2.pc), 3000)[0] != z3.unsat:
                    v.ensure(s2, z3.BoolVal(x.b is not None and x.b != nme), 'own copy of ' + nme)
                    content(v.ex, s2, x, k, v.body(v.pre, Ptr(nme)), 'copy of ' + nme)
                s2 = st.fork()
                s2.assume(k == 0)
                if engine._check(list(s2.pc), 3000)[0] != z3.unsat:
                    v.ensure(s2, isnull(x), 'no bounds without constraints: ' + nme)
        for f in ('tnlp', 'intermediate_cb', 'x_scaling', 'g_scaling'):
            x = fld(f)
            v.ensure(st, z3.BoolVal(isinstance(x, Ptr) and x.b is None), 'initially there is no ' + f)
        v.ensure(st, fld('obj_scaling') == 1, 'initially the objective is not scaled')
        x = fld('app')
        v.ensure(st, z3.BoolVal(isinstance(x, Ptr) and (x.b,) == st.gh.get('app')), 'an application is created')
        rt = st.gh.get('rethrow')
        v.ensure(st, z3.Not(as_bool(rt)) if rt is not None else FALSE, 'exceptions do not leave the C functions')
        v.frame(st, set())
    job('CreateIpoptProblem', 'CreateIpoptProblem', s, p, budget=200)

    def s(v):
        prob(v)
        return [v.p]

    def p(v, kd, st, val):
        if ok(v, kd):
            own = ('x_L', 'x_U', 'g_L', 'g_U', 'x_scaling', 'g_scaling', 'problem')
            for b in own:
                nul = {'g_L': v.m == 0, 'g_U': v.m == 0}.get(b, v.bool('no ' + b) if 'scal' in b else FALSE)
                v.ensure(st, z3.Or(z3.BoolVal(not st.mem[b].live), nul), 'released: ' + b)
            v.frame(st, {(b, 'release') for b in own} | {('problem', '*'), ('app', '*')})
    job('FreeIpoptProblem', 'FreeIpoptProblem', s, p)

    def s_sc(v):
        prob(v)
        v.os = v.real('obj')
        return [v.p, v.os, v.nullable(v.arr('xs', v.n), v.bool('no xs')), v.nullable(v.arr('gs', v.m), v.bool('no gs'))]

    def p_sc(v, kd, st, val):
        if not ok(v, kd):
            return
        v.ensure(st, as_bool(val), 'success')
        v.ensure(st, v.get(st, v.p, 'obj_scaling') == v.os, 'objective scaling is kept')
        for f, a, n in (('x_scaling', 'xs', v.n), ('g_scaling', 'gs', v.m)):
            q = v.get(st, v.p, f, 'ptr')
            no = v.bool('no ' + a)
            s2 = st.fork()
            s2.assume(z3.Not(no))
            if engine._check(list(s2.pc), 3000)[0] != z3.unsat:
                v.ensure(s2, z3.And(z3.Not(isnull(q)), z3.BoolVal(q.b != a)), 'own copy of the scaling factors ' + f)
                content(v.ex, s2, q, n, v.body(v.pre, Ptr(a)), 'the scaling factors are kept: ' + f)
            s2 = st.fork()
            s2.assume(no)
            if engine._check(list(s2.pc), 3000)[0] != z3.unsat:
                v.ensure(s2, isnull(q), 'scaling is switched off: ' + f)
                v.ensure(s2, z3.Or(z3.BoolVal(not st.mem[f].live), v.bool('no ' + f)), 'factors not used any more are released: ' + f)
        v.frame(st, {('problem', v.off(PI, f)) for f in ('obj_scaling', 'x_scaling', 'g_scaling')} | {(f, k) for f in ('x_scaling', 'g_scaling') for k in (('f', 0), 'release')})
    job('SetIpoptProblemScaling', 'SetIpoptProblemScaling', s_sc, p_sc)

    def s(v):
        prob(v)
        return [v.p, v.nullable(v.obj(SI, 'newcb'), v.bool('no newcb'))]

    def p(v, kd, st, val):
        if not ok(v, kd):
            return
        q = v.get(st, v.p, 'intermediate_cb', 'ptr')
        v.ensure(st, z3.And(as_bool(val), z3.BoolVal(q.b == 'newcb')), 'the callback is kept')
        v.frame(st, {('problem', v.off(PI, 'intermediate_cb'))})
    job('SetIntermediateCallback', 'SetIntermediateCallback', s, p)

    # options
    for fnm, what, ty in (('AddIpoptStrOption', 'SetStringValue', 's'), ('AddIpoptNumOption', 'SetNumericValue', 'r'), ('AddIpoptIntOption', 'SetIntegerValue', 'i'), ('OpenIpoptOutputFile', 'file', 'i')):
        def s(v, ty=ty):
            prob(v)
            v.key = z3.String('keyword')
            v.val = {'s': z3.String('value'), 'r': z3.Real('value'), 'i': z3.Int('value')}[ty]
            return [v.p, cstr_(v, 'kw', v.key), cstr_(v, 'vl', v.val) if ty == 's' else v.val]

        def p(v, kd, st, val, what=what):
            if ok(v, kd):
                v.ensure(st, z3.BoolVal(st.gh.get('set') == what), 'the option of this type is set')
                v.ensure(st, as_bool(val) == z3.Bool('accepted'), 'success is reported exactly if accepted')
                v.frame(st, set())
        job(fnm, fnm, s, p)

    # the current iterate during the callback
    for fnm, what in (('GetIpoptCurrentIterate', 'get_curr_iterate'), ('GetIpoptCurrentViolations', 'get_curr_violations')):
        names = ['scaled', 'n'] + (['x', 'z_L', 'z_U', 'm', 'g', 'lambda'] if 'Iterate' in fnm else ['xlv', 'xuv', 'cl', 'cu', 'gl', 'm', 'cv', 'cg'])

        def s(v, names=names):
            prob(v)
            v.none = v.bool('no solve in progress')
            t = v.obj(SI, 'tnlp')
            v.set(v.st, v.p, 'tnlp', v.nullable(t, v.none))
            v.obj('Ipopt::IpoptData', 'ipdata')
            v.obj('Ipopt::IpoptCalculatedQuantities', 'ipcq')
            v.set(v.st, t, 'ip_data_', v.nullable(Ptr('ipdata'), v.bool('outside callback')))
            v.set(v.st, t, 'ip_cq_', v.nullable(Ptr('ipcq'), v.bool('outside callback')))
            v.args = [v.bool('scaled') if k == 'scaled' else v.int('arg ' + k) if k in 'nm' else v.nullable(v.obj(SI, k), v.bool('no ' + k)) for k in names]
            return [v.p] + v.args

        def p(v, kd, st, val):
            if not ok(v, kd):
                return
            if st.gh.get('asked'):
                v.ensure(st, z3.And(z3.Not(v.none), as_bool(val) == z3.Bool('answer')), 'answer of the TNLP')
            else:
                v.ensure(st, z3.And(v.none, z3.Not(as_bool(val))), 'without a solve there is no current iterate')
            v.frame(st, set())
        job(fnm, fnm, s, p, models=ITER)

    # IpoptSolve
    def s(v):
        prob(v)
        v.istat, v.ostat = v.int('Initialize()'), v.int('OptimizeTNLP()')
        v.U = {}
        for nme, n in (('x', v.n), ('g', v.m), ('mult_g', v.m), ('mult_x_L', v.n), ('mult_x_U', v.n)):
            v.U[nme] = v.nullable(v.arr(nme, n), v.bool('no ' + nme))
        v.U['obj_val'] = v.nullable(v.cell('obj_val', v.real('obj_val')), v.bool('no obj_val'))
        v.obj(SI, 'user')
        return [v.p] + [v.U[k] for k in ('x', 'g', 'obj_val', 'mult_g', 'mult_x_L', 'mult_x_U')] + [Ptr('user')]

    def p(v, kd, st, val):
        if not ok(v, kd):
            return
        ip, ue = -11, -100
        solved = z3.BoolVal(bool(st.gh.get('solved')))
        v.ensure(st, solved == z3.And(v.istat == 0, z3.Not(v.bool('no x')), z3.Not(v.bool('problem is invalid')), z3.Not(v.bool('solver throws'))), 'the problem is solved exactly if options and data are fine')
        v.ensure(st, z3.BoolVal(bool(st.gh.get('initialized'))), 'the options are processed')
        v.ensure(st, val == z3.If(v.istat != 0, v.istat, z3.If(z3.Or(v.bool('no x'), v.bool('problem is invalid')), iv(ip), z3.If(v.bool('solver throws'), iv(ue), v.ostat))), 'the status is the one of the solve')
        q = v.get(st, v.p, 'tnlp', 'ptr')
        v.ensure(st, z3.BoolVal(q.b is None), 'after the solve the problem is not available to GetIpoptCurrentIterate')
        v.frame(st, {('problem', v.off(PI, 'tnlp'))} | ({(k, ('f', 0)) for k in v.U} if st.gh.get('solved') else set()))
        for bid, b in st.mem.items():
            if b.kind == 'arr' and bid not in v.pre.mem and str(bid).startswith(('new', 'heap')):
                v.ensure(st, z3.BoolVal(not b.live), 'the copies of the starting values are released')
    job('IpoptSolve', 'IpoptSolve', s, p, models=SOLVE, budget=200)
    return out


def cstr_(v, name, val):
    b = Block(name, 'arr', S=1, n=z3.Length(val) + 1, lazy=True)
    v.st.add(b)
    b.ghost['strterm'] = val
    return Ptr(name)
