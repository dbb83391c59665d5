"""contracts of the objects the algorithm classes talk to: calculated quantities, iterates, clocks"""
from ipvlib import *
import re
from models import strval, setstr, cstr

ALG = BASE.child()
_srt = {'double': RealS}


def term(x):
    return x


def cqval(name, args, sort=RealS, ver=0):
    a = [as_int(x) if z3.is_bool(x) else x for x in args]
    nm = 'cq.%s%s' % (name, '@%s' % ver if ver else '')
    if not a:
        return z3.Const(nm, sort)
    return z3.Function(nm, *([x.sort() for x in a] + [sort]))(*a)


def version(st):
    """number of times the current iterate was changed"""
    return st.gh.get('iterate', 0)


@ALG.reg('re:^Ipopt::IpoptCalculatedQuantities::(?!SetCGPen|Reset|~)\\w+$', 'contract', 'a calculated quantity is an (unspecified) function of the current iterate; its definition is property C17')
def m_cq(ex, st, a, ins):
    meth = fkey_last(ex.mod.dem[ins['f']])
    rt = ins.get('t')
    if rt == 'double':
        xs = a[1:]
        if any(not isz(x) for x in xs):
            # vector arguments: identified by the object
            xs = [x if isz(x) else None for x in xs]
            meth += '(' + ','.join(x.b or 'null' for x in a[1:] if isinstance(x, Ptr)) + ')'
            xs = [x for x in xs if x is not None]
        tr = meth.startswith('trial') or '_trial' in meth
        return ret(st, cqval(meth, xs, RealS, ('t%s' % st.gh.get('trial', 0)) if tr and st.gh.get('trial') else version(st)))
    if rt == 'i1' or rt == 'i8':
        return ret(st, cqval(meth, [x for x in a[1:] if isz(x)], BoolS, version(st)))
    if rt == 'void' and isinstance(a[0], Ptr):
        # SmartPtr<const Vector> returned through sret
        args = '' if len(a) == 2 else '(' + ','.join(str(x) for x in a[2:]) + ')'
        bid = 'cq.%s%s%s' % (meth, args, '@%s' % version(st) if version(st) else '')
        if bid not in st.mem:
            st.add(Block(bid, 'rec', cls='Ipopt::Vector', lazy=True))
        ex.store(st, a[0], Ptr(bid))
        return ret(st)
    raise Unsupported('calculated quantity %s of type %s' % (meth, rt))


def fkey_last(dem):
    import models
    return models.fkey(dem).split('::')[-1]


COMPS = {'x': 0, 's': 1, 'y_c': 2, 'y_d': 3, 'z_L': 4, 'z_U': 5, 'v_L': 6, 'v_U': 7}


@ALG.reg('re:^Ipopt::IteratesVector::(x|s|y_c|y_d|z_L|z_U|v_L|v_U)(_NonConst)?$', 'contract', 'component access of the iterates vector (C08)')
def m_comp(ex, st, a, ins):
    m = fkey_last(ex.mod.dem[ins['f']]).replace('_NonConst', '')
    p = a[1]
    b = ex.chk(st, p, 'component of iterate')
    bid = '%s.%s' % (p.b, m)
    if bid not in st.mem:
        st.add(Block(bid, 'rec', cls='Ipopt::Vector', lazy=True))
    n = b.ghost.get('nul.' + m)
    ex.store(st, a[0], Ptr(bid, 0, (), n))
    return ret(st)


RED = {'Amax': RealS, 'Asum': RealS, 'Nrm2': RealS, 'Max': RealS, 'Min': RealS, 'Sum': RealS, 'SumLogs': RealS, 'Dim': IntS, 'HasValidNumbers': BoolS}


def redval(p, m):
    return z3.Const('%s.%s()' % (p.b, m), RED[m])


@ALG.reg('re:^Ipopt::Vector::(%s)$' % '|'.join(RED), 'contract', 'reductions of an abstract vector (C07, C08)')
def m_red(ex, st, a, ins):
    m = fkey_last(ex.mod.dem[ins['f']])
    b = ex.chk(st, a[0], 'vector')
    if b.ghost.get('changed'):
        raise Unsupported('reduction of a modified abstract vector')
    return ret(st, redval(a[0], m))


@ALG.reg('Ipopt::CpuTime', 'model', 'clock readings within one call are equal')
def m_cpu(ex, st, a, ins):
    return ret(st, z3.Real('CpuTime'))


@ALG.reg('Ipopt::WallclockTime', 'model', 'clock readings within one call are equal')
def m_wall(ex, st, a, ins):
    return ret(st, z3.Real('WallclockTime'))


@ALG.reg(['Ipopt::IpoptData::Append_info_string', 'Ipopt::IpoptData::Set_info_skip_output'], 'model', 'the iteration info string is output only')
def m_ais(ex, st, a, ins):
    return ret(st)


def mkdata(v, name='data', delta=True):
    d = v.obj('Ipopt::IpoptData', name)
    F = v.fields(d)
    it = v.obj('Ipopt::IteratesVector', 'curr')
    v.set(v.st, d, 'curr_', it)
    tr = v.obj('Ipopt::IteratesVector', 'trial')
    v.set(v.st, d, 'trial_', tr)
    if delta:
        de = v.obj('Ipopt::IteratesVector', 'delta')
        v.st.wb('delta').ghost['nul.x'] = v.bool('delta.x.null')
        v.st.wb('delta').ghost['nul.s'] = v.bool('delta.s.null')
        v.set(v.st, d, 'delta_', v.nullable(de, v.bool('delta.null')))
    v.set(v.st, d, 'info_string_', z3.StringVal(''))
    return d, F


def strategy(v, cls, name='this', data=True):
    """an initialised AlgorithmStrategyObject"""
    p = v.obj(cls, name)
    F = v.fields(p)
    v.d, v.D = mkdata(v)
    v.cq = v.obj('Ipopt::IpoptCalculatedQuantities', 'cq')
    v.nlp = v.obj('Ipopt::IpoptNLP', 'nlp')
    v.set(v.st, p, 'ip_data_', v.d)
    v.set(v.st, p, 'ip_cq_', v.cq)
    v.set(v.st, p, 'ip_nlp_', v.nlp)
    return p, F


def throws(kind, val, *classes):
    """exception of one of the given classes of namespace Ipopt"""
    return kind == 'throw' and val.ti in ['_ZTIN5Ipopt%d%sE' % (len(c), c) for c in classes]


OPT = {'Numeric': ('double', RealS), 'Integer': ('i32', IntS), 'Enum': ('i32', IntS), 'Bool': ('i8', BoolS), 'String': (None, None)}


def opt(name, sort=RealS):
    return z3.Const('option:' + name, sort)


@ALG.reg('re:^Ipopt::OptionsList::Get(Numeric|Integer|Enum|Bool|String)Value$', 'contract', 'options are read as set, or as their registered default (C13)')
def m_getopt(ex, st, a, ins):
    kind = fkey_last(ex.mod.dem[ins['f']])[3:-5]
    tag = z3.simplify(strval(ex, st, a[1]))
    if not z3.is_string_value(tag):
        raise Unsupported('option name')
    t = tag.as_string()
    st.gh['optread'] = st.gh.get('optread', ()) + ((t, st.gh.get('optprefix')),)
    if kind == 'String':
        setstr(ex, st, a[2], z3.Const('option:' + t, z3.StringSort()))
    else:
        ty, so = OPT[kind]
        ex.store(st, a[2], opt(t, so), ty) if False else ex.store(st, a[2], as_int(opt(t, so)) if so == BoolS else opt(t, so))
    return ret(st, z3.Bool('option set by user:' + t))
