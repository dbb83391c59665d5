"""contracts of Ipopt::OptionsList, RegisteredOption and RegisteredOptions: options accept exactly the registered values and read back as set"""
from ipvlib import *
import stl
import models as M
from models import STR, strval, setstr, cstr
import re

SRCS = ['Common/IpOptionsList.cpp', 'Common/IpRegOptions.cpp']
OL, RO, ROS = 'Ipopt::OptionsList', 'Ipopt::RegisteredOption', 'Ipopt::RegisteredOptions'
OV = OL + '::OptionValue'
MODELS = BASE.child()
MODELS.exact_trunc = True
S2, S2B, S2I, S2R = [lambda n, s=s: z3.Function(n, STR, s) for s in (STR, BoolS, IntS, RealS)]
LOW = S2('lower')
REGD = S2B('registered')
VALID = S2B('valid_setting')
MAPS = S2('mapped_setting')
ENUM = S2I('enum_setting')
STRTOD = S2R('strtod')
STRTOL = S2I('strtol')
DE = S2('d_replaced_by_e')
PENDD, PENDL = S2I('strtod_end'), S2I('strtol_end')
FMTG = z3.Function('fmt_g', RealS, STR)
FMT17 = z3.Function('fmt_17g', RealS, STR)
FMTI = z3.Function('fmt_int', IntS, STR)
CHR = M.CHR
SPACE = z3.Function('isspace', IntS, BoolS)
RDOT = S2I('last_dot')
SUFFIX = z3.Function('suffix', STR, IntS, STR)
EQI = z3.Function('equal_ignoring_case', STR, STR, BoolS)
TOUP = z3.Function('toupper', IntS, IntS)
TOLOW = z3.Function('tolower', IntS, IntS)


@MODELS.reg(OL + '::lowercase', 'contract', 'the text in lower case, kept in a buffer of the list')
def m_lower(ex, st, a, ins):
    p = a[0].add(ex.mod.fieldoff(OL, 'lowercase_buffer_')[0])
    setstr(ex, st, p, LOW(strval(ex, st, a[1])))
    return ret(st, p)


@MODELS.reg(RO + '::OutputDescription', 'trusted', 'prints only')
def m_desc(ex, st, a, ins):
    return ret(st)


@MODELS.reg(ROS + '::GetOption', 'contract', 'proved for the real body')
def m_getoption(ex, st, a, ins):
    ex.store(st, a[0], Ptr('opt', 0, (), z3.Not(REGD(strval(ex, st, a[2])))))
    return ret(st)


@MODELS.reg(RO + '::IsValidStringSetting', 'contract', 'proved for the real body')
def m_validstr(ex, st, a, ins):
    return ret(st, VALID(strval(ex, st, a[1])))


@MODELS.reg(RO + '::MapStringSetting', 'contract', 'the registered spelling of the setting')
def m_mapstr(ex, st, a, ins):
    setstr(ex, st, a[0], MAPS(strval(ex, st, a[2])))
    return ret(st)


@MODELS.reg(RO + '::MapStringSettingToEnum', 'contract', 'proved for the real body')
def m_enum(ex, st, a, ins):
    return ret(st, ENUM(strval(ex, st, a[1])))


@MODELS.reg(RO + '::string_equal_insensitive', 'contract', 'proved for the real body')
def m_eqi(ex, st, a, ins):
    return ret(st, EQI(strval(ex, st, a[1]), strval(ex, st, a[2])))


@MODELS.reg('Ipopt::Snprintf', 'model', 'formatted output recovers integers exactly, and numbers when 17 digits are printed')
def m_snprintf(ex, st, a, ins):
    f = cstr(ex, st, a[2])
    f = f.as_string()
    if f == '%g':
        s = FMTG(a[3])
    elif re.match(r'^%\.(1[7-9]|[2-9]\d)[eg]$', f):
        s = FMT17(a[3])
        st.assume(STRTOD(s) == a[3])
    elif f in ('%d', '%i', '%ld', '%lld'):
        s = FMTI(a[3])
        st.assume(STRTOL(s) == a[3])
    else:
        raise Unsupported('format ' + f)
    ex.require(st, a[1] >= 32, 'the buffer holds the formatted number')
    w = st.wb(a[0].b)
    w.ghost['strterm'] = s
    return ret(st, st.fresh('printed', IntS))


def numtext(ex, st, p):
    """text handed to strtod/strtol, with each d read as e"""
    b = ex.chk(st, p, 'text')
    if 'strterm' in b.ghost and p.c == 0 and not p.t:
        return b.ghost['strterm'], None
    if b.kind == 'arr' and 'text' in b.ghost and not p.c and not p.t:
        s = b.ghost['text']
        j = ex.vv.skolem()
        st2 = st.fork()
        st2.assume(z3.And(j >= 0, j < z3.Length(s)))
        c = CHR(s, j)
        ex.require(st2, z3.substitute(b.fields[0], (J, j)) == z3.If(z3.Or(c == 100, c == 68), 101, c), 'the text read is that of the option with each d replaced by e')
        return DE(s), s
    raise Unsupported('text of unknown contents')


def endptr(ex, st, p, out, n):
    if isinstance(out, Ptr) and out.b is not None:
        ex.store(st, out, p.add(0, [(1, n)]))


@MODELS.reg(['strtod'], 'model', 'C library')
def m_strtod(ex, st, a, ins):
    s, _ = numtext(ex, st, a[0])
    n = PENDD(s)
    st.assume(z3.And(n >= 0, n <= z3.Length(s)))
    endptr(ex, st, a[0], a[1], n)
    return ret(st, STRTOD(s))


@MODELS.reg(['strtol', '__isoc23_strtol'], 'model', 'C library')
def m_strtol(ex, st, a, ins):
    s, _ = numtext(ex, st, a[0])
    ex.require(st, a[2] == 10, 'integers are decimal')
    n = PENDL(s)
    st.assume(z3.And(n >= 0, n <= z3.Length(s)))
    st.assume(z3.And(STRTOL(s) >= -2 ** 63, STRTOL(s) < 2 ** 63))
    endptr(ex, st, a[0], a[1], n)
    return ret(st, STRTOL(s))


@MODELS.reg('strcpy', 'model', 'C library')
def m_strcpy(ex, st, a, ins):
    s = cstr(ex, st, a[1])
    b = st.wb(a[0].b)
    if b.S is None:
        b.n, b.S = b.n, 1
    ex.require(st, b.n > z3.Length(s), 'the buffer holds the text and its end')
    st.assume(CHR(s, z3.Length(s)) == 0)
    b.fields[0] = CHR(s, J)
    b.ghost['text'] = s
    st.assume(z3.Length(DE(s)) == z3.Length(s))
    return ret(st, a[0])


@MODELS.reg('isspace', 'model', 'C library')
def m_isspace(ex, st, a, ins):
    st.assume(z3.Not(SPACE(0)))
    return ret(st, z3.If(SPACE(a[0]), 1, 0))


def base(v, noreg=False):
    """an options list with arbitrary contents"""
    p = v.obj(OL, 'this')
    m = v.mod
    v.map = stl.mkmap(v, p, m.fieldoff(OL, 'options_')[0], max(mo + sz for n, mo, sz, t in m.classes[OV]['m']), 'options', OV)
    for n, s in (('counter_', IntS), ('initialized_', BoolS), ('allow_clobber_', BoolS), ('dont_print_', BoolS), ('value_', STR)):
        v.map.fields[fo(v, n)] = z3.Function('options.' + n, IntS, s)(J)
    v.o = v.obj(RO, 'opt')
    v.F = v.fields(v.o)
    v.noreg = z3.Bool('no_registry')
    v.set(v.st, p, 'reg_options_', v.nullable(v.obj(ROS, 'reg'), v.noreg))
    v.set(v.st, p, 'jnlst_', v.nullable(v.obj('Ipopt::Journalist', 'jnlst'), z3.Bool('no_journalist')))
    v.tag = z3.String('tag')
    v.k = stl.KEY(LOW(v.tag))
    v.assume(z3.And(v.k >= 0, v.k < v.map.n))
    return p, v.string('tag')


def fo(v, n):
    return stl.MNODE + v.mod.fieldoff(OV, n)[0]


def ent(v, st, n, k):
    b = st.mem['options']
    if n == 'in':
        return z3.simplify(z3.substitute(b.ghost['in[]'], (J, k)))
    return z3.simplify(z3.substitute(b.fields[fo(v, n)], (J, k)))


FIELDS = ('value_', 'counter_', 'initialized_', 'allow_clobber_', 'dont_print_')


def same(v, st, k, label, but=()):
    """the entry of key k is as before"""
    v.ensure(st, ent(v, st, 'in', k) == ent(v, v.pre, 'in', k), label + ': presence')
    for n in FIELDS:
        if n in but:
            continue
        x, y = ent(v, st, n, k), ent(v, v.pre, n, k)
        if x.sort() != y.sort():
            x, y = as_bool(x), as_bool(y)
        v.ensure(st, z3.Implies(ent(v, st, 'in', k), x == y), label + ': ' + n)


TNUM, TINT, TSTR = range(3)


def framed(v, st):
    v.frame(st, {('options', '*'), ('this', v.off(OL, 'lowercase_buffer_'))})


def inrange(v, x, integer=False):
    F = v.F
    lo = z3.Or(z3.Not(F['has_lower_']), x > F['lower_'], z3.And(x == F['lower_'], z3.BoolVal(True) if integer else z3.Not(F['lower_strict_'])))
    up = z3.Or(z3.Not(F['has_upper_']), x < F['upper_'], z3.And(x == F['upper_'], z3.BoolVal(True) if integer else z3.Not(F['upper_strict_'])))
    return z3.And(lo, up)


def sub(t):
    r, todo = [], [t]
    while todo:
        x = todo.pop()
        r.append(x)
        todo += x.children()
    return r


def jobs():
    out = []

    # ---- registered options
    def s_inr(ty):
        def f(v):
            v.o = v.obj(RO, 'this')
            v.F = v.fields(v.o)
            v.x = v.real('value') if ty == 'd' else v.int('value')
            return [v.o, v.cell('value', v.x)]
        return f

    def p_inr(ty):
        def f(v, kd, st, val):
            v.ensure(st, z3.BoolVal(kd == 'ret'), 'returns normally')
            x = v.x if ty == 'd' else z3.ToReal(v.x)
            v.ensure(st, as_bool(val) == inrange(v, x, ty == 'i'), 'valid exactly if the value lies between the bounds that exist, and not on a strict one')
            v.frame(st, set())
        return f
    out.append(Job('RegisteredOption::IsValidNumberSetting', RO + '::IsValidNumberSetting', s_inr('d'), p_inr('d')))
    out.append(Job('RegisteredOption::IsValidIntegerSetting', RO + '::IsValidIntegerSetting', s_inr('i'), p_inr('i')))

    def setter(n, args, eff, getter=None):
        def s(v):
            v.o = v.obj(RO, 'this')
            v.F = v.fields(v.o)
            v.a = [z3.Const('arg%d' % i, t) for i, t in enumerate(args)]
            return [v.o] + [v.cell('arg%d' % i, x) for i, x in enumerate(v.a)]
        def p(v, kd, st, val):
            v.ensure(st, z3.BoolVal(kd == 'ret'), 'returns normally')
            for fld, e in eff(v).items():
                x = v.get(st, v.o, fld)
                v.ensure(st, (as_bool(x) if z3.is_bool(e) else x) == e, fld + ' is set as given')
            v.frame(st, {('this', v.off(RO, f)) for f in eff(v)})
        out.append(Job('RegisteredOption::' + n, RO + '::' + n, s, p))
    setter('SetLowerNumber', (RealS, BoolS), lambda v: {'has_lower_': z3.BoolVal(True), 'lower_': v.a[0], 'lower_strict_': v.a[1]})
    setter('SetUpperNumber', (RealS, BoolS), lambda v: {'has_upper_': z3.BoolVal(True), 'upper_': v.a[0], 'upper_strict_': v.a[1]})
    setter('SetLowerInteger', (IntS,), lambda v: {'has_lower_': z3.BoolVal(True), 'lower_': z3.ToReal(v.a[0])})
    setter('SetUpperInteger', (IntS,), lambda v: {'has_upper_': z3.BoolVal(True), 'upper_': z3.ToReal(v.a[0])})
    setter('SetDefaultNumber', (RealS,), lambda v: {'default_number_': v.a[0]})
    setter('SetDefaultInteger', (IntS,), lambda v: {'default_number_': z3.ToReal(v.a[0])})
    setter('SetType', (IntS,), lambda v: {'type_': v.a[0]})

    # ---- the list
    def s_find(v):
        p, t = base(v)
        v.pfx = z3.String('prefix')
        v.val0 = z3.String('value')
        return [p, t, v.string('prefix'), v.string('value')]

    def found(v):
        kp = stl.KEY(LOW(z3.Concat(v.pfx, v.tag)))
        v.ip = z3.And(v.pfx != z3.StringVal(''), ent(v, v.pre, 'in', kp))
        v.it = ent(v, v.pre, 'in', v.k)
        return z3.Or(v.ip, v.it), z3.If(v.ip, kp, v.k)

    def p_find(v, kd, st, val):
        v.ensure(st, z3.BoolVal(kd == 'ret'), 'returns normally')
        f, k = found(v)
        v.ensure(st, as_bool(val) == f, 'found exactly if the prefixed or the plain name has been set')
        v.ensure(st, strval(v.ex, st, Ptr('value')) == z3.If(f, ent(v, v.pre, 'value_', k), v.val0), 'the prefixed name takes precedence')
        j = v.skolem()
        same(v, st, j, 'the entries stay', but=('counter_',))
        v.frame(st, {('options', '*'), ('value', 0), ('this', v.off(OL, 'lowercase_buffer_'))})
    out.append(Job('OptionsList::find_tag', OL + '::find_tag', s_find, p_find))

    def s_wac(v):
        p, t = base(v)
        return [p, t]
    def p_wac(v, kd, st, val):
        v.ensure(st, z3.BoolVal(kd == 'ret'), 'returns normally')
        v.ensure(st, as_bool(val) == z3.Or(z3.Not(ent(v, v.pre, 'in', v.k)), ent(v, v.pre, 'allow_clobber_', v.k)), 'true unless the option is set and protected')
        v.frame(st, {('this', v.off(OL, 'lowercase_buffer_'))})
    out.append(Job('OptionsList::will_allow_clobber', OL + '::will_allow_clobber', s_wac, p_wac))

    def s_set(kind):
        def f(v):
            p, t = base(v)
            v.ac, v.dp = v.bool('allow_clobber'), v.bool('dont_print')
            v.x = {'s': z3.String, 'd': z3.Real, 'i': z3.Int}[kind]('value')
            if kind == 'i':
                v.assume(z3.And(v.x >= -2 ** 31, v.x < 2 ** 31))
            return [p, t, v.string('value') if kind == 's' else v.x, v.ac, v.dp]
        return f

    def p_set(kind):
        def f(v, kd, st, val):
            v.ensure(st, z3.BoolVal(kd == 'ret'), 'returns normally')
            ty = {'s': TSTR, 'd': TNUM, 'i': TINT}[kind]
            ok = {'s': lambda: VALID(v.x), 'd': lambda: inrange(v, v.x), 'i': lambda: inrange(v, z3.ToReal(v.x), True)}[kind]()
            good = z3.Or(v.noreg, z3.And(REGD(v.tag), v.F['type_'] == ty, ok))
            v.ensure(st, as_bool(val) == good, 'succeeds exactly if the option exists with this type and the value is in its range')
            free = z3.Or(z3.Not(ent(v, v.pre, 'in', v.k)), ent(v, v.pre, 'allow_clobber_', v.k))
            s = st.fork()
            s.assume(z3.And(good, free))
            if v.ex.feasible(s, TRUE):
                v.ensure(s, ent(v, s, 'in', v.k), 'the option is set')
                x = ent(v, s, 'value_', v.k)
                v.ensure(s, {'s': lambda: x, 'd': lambda: STRTOD(x), 'i': lambda: STRTOL(x)}[kind]() == v.x, 'the stored text reads back as the value given')
                v.ensure(s, as_bool(ent(v, s, 'allow_clobber_', v.k)) == v.ac, 'the protection is as given')
                v.ensure(s, as_bool(ent(v, s, 'dont_print_', v.k)) == v.dp, 'the print flag is as given')
                v.ensure(s, as_bool(ent(v, s, 'initialized_', v.k)), 'the entry is initialized')
                v.ensure(s, ent(v, s, 'counter_', v.k) == 0, 'the use count starts at zero')
            s = st.fork()
            s.assume(z3.Not(z3.And(good, free)))
            if v.ex.feasible(s, TRUE):
                same(v, s, v.k, 'rejected or protected: the entry stays', but=('counter_',))
            s = st.fork()
            j = v.skolem()
            s.assume(j != v.k)
            same(v, s, j, 'other entries stay')
            framed(v, st)
        return f
    out.append(Job('OptionsList::SetStringValue', OL + '::SetStringValue', s_set('s'), p_set('s')))
    out.append(Job('OptionsList::SetNumericValue', OL + '::SetNumericValue', s_set('d'), p_set('d')))
    out.append(Job('OptionsList::SetIntegerValue', OL + '::SetIntegerValue', s_set('i'), p_set('i')))

    def p_unset(v, kd, st, val):
        v.ensure(st, z3.BoolVal(kd == 'ret'), 'returns normally')
        was = ent(v, v.pre, 'in', v.k)
        prot = z3.And(was, z3.Not(ent(v, v.pre, 'allow_clobber_', v.k)))
        v.ensure(st, as_bool(val) == z3.And(was, z3.Not(prot)), 'true exactly if the option was set and not protected')
        v.ensure(st, ent(v, st, 'in', v.k) == prot, 'afterwards it is set only if it is protected')
        j = v.skolem()
        same(v, (lambda s: (s.assume(j != v.k), s)[1])(st.fork()), j, 'other entries stay')
        s = st.fork()
        s.assume(prot)
        if v.ex.feasible(s, TRUE):
            same(v, s, v.k, 'a protected entry stays', but=('counter_',))
        framed(v, st)
    out.append(Job('OptionsList::UnsetValue', OL + '::UnsetValue', s_wac, p_unset))

    # ---- reading
    def s_get(prep):
        def f(v):
            p, t = base(v)
            v.pfx = z3.String('prefix')
            v.FND = z3.Bool('found')
            v.FV = z3.String('found_value')
            return [p, t, prep(v), v.string('prefix')]
        return f

    G = MODELS.child()
    G.exact_trunc = True

    @G.reg(OL + '::find_tag', 'contract', 'proved for the real body')
    def m_find(ex, st, a, ins):
        ex.require(st, z3.And(strval(ex, st, a[1]) == z3.String('tag'), strval(ex, st, a[2]) == z3.String('prefix')), 'looks for the option asked for')
        setstr(ex, st, a[3], z3.If(z3.Bool('found'), z3.String('found_value'), strval(ex, st, a[3])))
        return ret(st, z3.Bool('found'))

    def judged(v, kd, st, val, ty, okthrow=None):
        """common part of the getters; false if the call threw"""
        bad = z3.And(z3.Not(v.noreg), z3.Or(z3.Not(REGD(v.tag)), v.F['type_'] != ty))
        if kd == 'throw':
            v.ensure(st, z3.Or(bad, okthrow if okthrow is not None else FALSE), 'throws only for an option that does not exist or has another type, or an unreadable text')
            v.frame(st, {('value', 0)})
            return False
        v.ensure(st, z3.Not(bad), 'options that do not exist or have another type are refused')
        v.ensure(st, as_bool(val) == v.FND, 'tells whether the option has been set')
        v.frame(st, {('value', 0)})
        return True

    def p_gs(v, kd, st, val):
        if judged(v, kd, st, val, TSTR):
            dflt = strval(v.ex, v.pre.fork(), v.o.add(v.off(RO, 'default_string_')))
            x = strval(v.ex, st, Ptr('value'))
            v.ensure(st, x == z3.If(v.noreg, z3.If(v.FND, v.FV, z3.String('value')), z3.If(v.FND, MAPS(v.FV), dflt)), 'the value that was set, in the registered spelling, or the default')
    out.append(Job('OptionsList::GetStringValue', OL + '::GetStringValue', s_get(lambda v: v.string('value')), p_gs, models=G))

    def p_ge(v, kd, st, val):
        if judged(v, kd, st, val, TSTR):
            dflt = strval(v.ex, v.pre.fork(), v.o.add(v.off(RO, 'default_string_')))
            x = st.mem['value'].cells[0]
            v.ensure(st, x == z3.If(v.noreg, z3.Int('value'), z3.If(v.FND, ENUM(v.FV), ENUM(dflt))), 'the index of the setting, or of the default')
    out.append(Job('OptionsList::GetEnumValue', OL + '::GetEnumValue', s_get(lambda v: v.cell('value', z3.Int('value'))), p_ge, models=G))

    def used(v, st, s, pend):
        """the whole text is a number"""
        return z3.And(pend(s) > 0, pend(s) == z3.Length(s))

    def p_gn(v, kd, st, val):
        s = DE(v.FV)
        st.assume(z3.Length(s) == z3.Length(v.FV))
        st.assume(CHR(v.FV, z3.Length(v.FV)) == 0)
        if judged(v, kd, st, val, TNUM, z3.And(v.FND, z3.Not(used(v, st, s, PENDD)))):
            x = st.mem['value'].cells[0]
            v.ensure(st, x == z3.If(v.FND, STRTOD(s), z3.If(v.noreg, z3.Real('value'), v.F['default_number_'])), 'the number that was set, or the default')
            v.ensure(st, z3.Implies(v.FND, PENDD(s) > 0), 'an accepted text starts with a number')
    out.append(Job('OptionsList::GetNumericValue', OL + '::GetNumericValue', s_get(lambda v: v.cell('value', z3.Real('value'))), p_gn, models=G))

    def s_gi(v):
        v.assume(z3.And(v.F['default_number_'] == z3.ToReal(z3.Int('default')), z3.Int('default') >= -2 ** 31, z3.Int('default') < 2 ** 31))
        return v.cell('value', z3.Int('value'))

    def p_gi(v, kd, st, val):
        s = v.FV
        st.assume(CHR(v.FV, z3.Length(v.FV)) == 0)
        st.assume(FPTOSI(z3.ToReal(z3.Int('default'))) == z3.Int('default'))
        fits = z3.And(STRTOL(s) >= -2 ** 31, STRTOL(s) < 2 ** 31)
        if judged(v, kd, st, val, TINT, z3.And(v.FND, z3.Not(z3.And(used(v, st, s, PENDL), fits)))):
            x = st.mem['value'].cells[0]
            v.ensure(st, x == z3.If(v.FND, STRTOL(s), z3.If(v.noreg, z3.Int('value'), z3.Int('default'))), 'the integer that was set, or the default')
            v.ensure(st, z3.Implies(v.FND, z3.And(PENDL(s) > 0, fits)), 'an accepted text starts with an integer that fits')
    out.append(Job('OptionsList::GetIntegerValue', OL + '::GetIntegerValue', s_get(s_gi), p_gi, models=G))

    GB = MODELS.child()

    def getter(kind):
        def m(ex, st, a, ins):
            ex.require(st, z3.And(strval(ex, st, a[1]) == z3.String('tag'), strval(ex, st, a[3]) == (z3.String('prefix') if kind == 'bool' else z3.StringVal(''))), 'asks for the same option')
            if 'String' in ex.mod.dem[ins['f']]:
                setstr(ex, st, a[2], z3.String('stored'))
            else:
                ex.store(st, a[2], st.fresh('stored', RealS if 'Numeric' in ex.mod.dem[ins['f']] else IntS))
            return ret(st, z3.Bool('found'))
        return m
    GB.reg(OL + '::GetStringValue', 'contract', 'proved for the real body')(getter('bool'))

    def p_gb(v, kd, st, val):
        s = z3.String('stored')
        no = z3.Or([s == z3.StringVal(t) for t in ('no', 'false', 'off')])
        yes = z3.Or([s == z3.StringVal(t) for t in ('yes', 'true', 'on')])
        if kd == 'throw':
            v.ensure(st, z3.Not(z3.Or(yes, no)), 'throws only if the text is no truth value')
            return
        v.ensure(st, z3.Or(yes, no), 'a text that is no truth value is refused')
        v.ensure(st, as_bool(val) == z3.Bool('found'), 'tells whether the option has been set')
        v.ensure(st, as_bool(st.mem['value'].cells[0]) == yes, 'the truth value that was set')
        v.frame(st, {('value', 0)})
    out.append(Job('OptionsList::GetBoolValue', OL + '::GetBoolValue', s_get(lambda v: v.cell('value', z3.Bool('value'))), p_gb, models=GB))

    # ---- setting if unset
    GI = MODELS.child()
    GI.reg('re:^Ipopt::OptionsList::Get(String|Numeric|Integer)Value$', 'contract', 'proved for the real bodies')(getter('unset'))

    @GI.reg('re:^Ipopt::OptionsList::Set(String|Numeric|Integer)Value$', 'contract', 'proved for the real bodies')
    def m_set(ex, st, a, ins):
        d = ex.mod.dem[ins['f']]
        w = z3.String('value') if 'String' in d else (z3.Real if 'Numeric' in d else z3.Int)('value')
        x = strval(ex, st, a[2]) if 'String' in d else a[2]
        if ex.vv.boolarg is not None:
            w = z3.If(ex.vv.boolarg, z3.StringVal('yes'), z3.StringVal('no'))
        ex.require(st, z3.And(strval(ex, st, a[1]) == z3.String('tag'), x == w, as_bool(a[3]) == z3.Bool('allow_clobber'), as_bool(a[4]) == z3.Bool('dont_print')), 'sets the option as given')
        st.gh['sets'] = st.gh.get('sets', 0) + 1
        return ret(st, z3.Bool('set_result'))

    @GI.reg(OL + '::SetStringValueIfUnset', 'contract', 'proved for the real body')
    def m_setun(ex, st, a, ins):
        return m_set(ex, st, a, ins)

    def s_un(kind):
        def f(v):
            p, t = base(v)
            v.boolarg = v.bool('value') if kind == 'b' else None
            x = v.boolarg if kind == 'b' else v.string('value') if kind == 's' else (v.real if kind == 'd' else v.int)('value')
            return [p, t, x, v.bool('allow_clobber'), v.bool('dont_print')]
        return f

    def p_un(always):
        def f(v, kd, st, val):
            v.ensure(st, z3.BoolVal(kd == 'ret'), 'returns normally')
            fnd = FALSE if always else z3.Bool('found')
            n = st.gh.get('sets', 0)
            v.ensure(st, z3.If(fnd, iv(0), iv(1)) == n, 'sets the option exactly if it has not been set yet')
            v.ensure(st, as_bool(val) == z3.Or(fnd, z3.Bool('set_result')), 'reports the result')
            v.frame(st, set())
        return f
    for k, n in (('s', 'String'), ('d', 'Numeric'), ('i', 'Integer')):
        out.append(Job('OptionsList::Set%sValueIfUnset' % n, OL + '::Set%sValueIfUnset' % n, s_un(k), p_un(False), models=GI))
    out.append(Job('OptionsList::SetBoolValue', OL + '::SetBoolValue', s_un('b'), p_un(True), models=GI))
    out.append(Job('OptionsList::SetBoolValueIfUnset', OL + '::SetBoolValueIfUnset', s_un('b'), p_un(True), models=GI))

    # ---- the registry
    def registry(v):
        p = v.obj(ROS, 'this')
        v.map = stl.mkmap(v, p, v.off(ROS, 'registered_options_'), 8, 'registry')
        so = max(mo + sz for n, mo, sz, t in v.mod.classes[RO]['m'])
        b = Block('ropt', 'arr', cls=RO, S=1 << 12, n=v.map.n, lazy=True, tag='fam')
        v.st.add(b)
        v.map.fields[stl.MNODE] = FamVal(Ptr('ropt', 0, ((1 << 12, J),)))
        return p

    def s_go(v):
        p = registry(v)
        v.sret = v.cell('result', NULL)
        v.tag = z3.String('tag')
        return [v.sret, p, v.string('tag')]
    def p_go(v, kd, st, val):
        v.ensure(st, z3.BoolVal(kd == 'ret'), 'returns normally')
        t = v.tag
        tail = z3.If(RDOT(t) >= 0, SUFFIX(t, RDOT(t) + 1), t)
        st.assume(RDOT(t) >= -1)
        k = stl.KEY(tail)
        r = st.mem['result'].cells[0]
        ina = z3.substitute(v.pre.mem['registry'].ghost['in[]'], (J, k))
        v.ensure(st, z3.Not(v.ex.pcmp(st, 'eq', r, NULL)) == ina, 'an option is returned exactly if the name behind the prefix is registered')
        s = st.fork()
        s.assume(ina)
        if r.b is not None and v.ex.feasible(s, TRUE):
            v.ensure(s, z3.BoolVal(r.b == 'ropt'), 'the option returned is a registered one')
            v.ensure(s, r.offset() == 4096 * k, 'it is the one registered with this name')
        v.frame(st, {('result', 0)})
    R = MODELS.child()
    R.hide = ['Ipopt::RegisteredOptions::GetOption', '::AddValidStringSetting']
    SBX = M.SB

    @R.reg(SBX + 'rfind$', 'model', 'std::string')
    def m_rfind(ex, st, a, ins):
        s, t = strval(ex, st, a[0]), cstr(ex, st, a[1])
        ex.require(st, a[2] >= z3.Length(s), 'searches from the end')
        if not z3.is_string_value(t) or t.as_string() != '.':
            raise Unsupported('rfind')
        r = RDOT(s)
        st.assume(z3.And(r >= -1, r < z3.Length(s)))
        return ret(st, r)

    @R.reg(SBX + 'substr$', 'model', 'std::string')
    def m_substr(ex, st, a, ins):
        s = strval(ex, st, a[1])
        ex.require(st, z3.And(a[2] >= 0, a[2] <= z3.Length(s)), 'substring starts within the string')
        n = a[3] if len(a) > 3 else z3.Length(s)
        whole = ex.holds(st, n + a[2] >= z3.Length(s))
        setstr(ex, st, a[0], SUFFIX(s, a[2]) if whole else z3.SubString(s, a[2], n))
        return ret(st)
    out.append(Job('RegisteredOptions::GetOption', ROS + '::GetOption', s_go, p_go, models=R))

    def s_ao(v):
        p = registry(v)
        o = v.obj(RO, 'opt')
        v.nocat = z3.Bool('no_category')
        v.set(v.st, o, 'registering_category_', v.nullable(v.obj('Ipopt::RegisteredCategory', 'cat'), v.nocat))
        v.name = strval(v.ex, v.st, o.add(v.off(RO, 'name_')))
        return [p, v.cell('option', o)]

    def p_ao(v, kd, st, val):
        k = stl.KEY(v.name)
        ina = z3.substitute(v.pre.mem['registry'].ghost['in[]'], (J, k))
        if kd == 'throw':
            v.ensure(st, ina, 'throws only if the name is taken')
            v.frame(st, set())
            return
        v.ensure(st, z3.Not(ina), 'a name is registered only once')
        b = st.mem['registry']
        v.ensure(st, z3.substitute(b.ghost['in[]'], (J, k)), 'the option is registered')
        pm = b.fields[stl.MNODE]
        v.ensure(st, z3.BoolVal(isinstance(pm, PtrMap) and len(pm.st) == 1 and pm.st[0][1].b == 'opt'), 'only this option is registered')
        if isinstance(pm, PtrMap):
            v.ensure(st, pm.st[0][0] == k, 'with its name')
        v.ensure(st, z3.If(v.nocat, 0, 1) == st.gh.get('listed', 0), 'and listed in its category')
        j = v.skolem()
        s = st.fork()
        s.assume(j != k)
        v.ensure(s, z3.substitute(b.ghost['in[]'], (J, j)) == z3.substitute(v.pre.mem['registry'].ghost['in[]'], (J, j)), 'other names stay')
        v.frame(st, {('registry', '*')})

    @R.reg('re:^std::(__cxx11::)?list<Ipopt::SmartPtr<Ipopt::RegisteredOption>.*>::push_back$', 'model', 'std::list')
    def m_lpush(ex, st, a, ins):
        ex.require(st, z3.BoolVal(a[0].b == 'cat' and ex.load(st, a[1], 'ptr').b == 'opt'), 'the option is listed in its category')
        st.gh['listed'] = st.gh.get('listed', 0) + 1
        return ret(st)
    out.append(Job('RegisteredOptions::AddOption', ROS + '::AddOption', s_ao, p_ao, models=R))

    @R.reg(r're:^std::vector<Ipopt::RegisteredOption::string_entry.*>::push_back$', 'model', 'std::vector')
    def m_vpush(ex, st, a, ins):
        o = ex.mod.fieldoff(RO + '::string_entry', 'description_')[0]
        st.gh['valid'] = st.gh.get('valid', ()) + (((a[0].b, a[0].c), strval(ex, st, a[1]), strval(ex, st, a[1].add(o))),)
        return ret(st)

    def s_av(v):
        v.o = v.obj(RO, 'this')
        return [v.o, v.string('value'), v.string('description')]
    def p_av(v, kd, st, val):
        v.ensure(st, z3.BoolVal(kd == 'ret'), 'returns normally')
        g = st.gh.get('valid', ())
        v.ensure(st, z3.BoolVal(len(g) == 1 and g[0][0] == ('this', v.off(RO, 'valid_strings_'))), 'one setting is added')
        if g:
            v.ensure(st, z3.And(g[0][1] == z3.String('value'), g[0][2] == z3.String('description')), 'with the value and description given')
        v.frame(st, set())
    out.append(Job('RegisteredOption::AddValidStringSetting', RO + '::AddValidStringSetting', s_av, p_av, models=R))

    A = MODELS.child()

    @A.reg(RO + '::AddValidStringSetting', 'contract', 'proved for the real body')
    def m_avs(ex, st, a, ins):
        st.gh['valid'] = st.gh.get('valid', ()) + ((a[0].b, strval(ex, st, a[1]), strval(ex, st, a[2])),)
        return ret(st)

    @A.reg(ROS + '::AddOption', 'contract', 'proved for the real body')
    def m_ao(ex, st, a, ins):
        st.gh['added'] = st.gh.get('added', ()) + (ex.load(st, a[1], 'ptr').b,)
        return ret(st)

    @A.reg(['re:^std::vector<Ipopt::RegisteredOption::string_entry.*>::~?vector$', 're:^std::_Vector_base<'], 'model', 'std::vector')
    def m_vc(ex, st, a, ins):
        return ret(st)

    def adder(name, par, ty, eff, fn=None):
        """par: parameters after the descriptions: list of (name, kind)"""
        def s(v):
            p = v.obj(ROS, 'this')
            v.set(v.st, p, 'next_counter_', v.int('next'))
            v.nocat = z3.Bool('no_category')
            v.set(v.st, p, 'current_registering_category_', v.nullable(v.obj('Ipopt::RegisteredCategory', 'cat'), v.nocat))
            args = [p, v.string('name'), v.string('short')]
            v.P = {}
            for n, k in par:
                v.P[n] = {'s': z3.String, 'd': z3.Real, 'i': z3.Int, 'b': z3.Bool}[k](n)
                args.append(v.string(n) if k == 's' else v.P[n])
            v.adv = v.bool('advanced')
            return args + [v.string('long'), v.adv]

        def p(v, kd, st, val):
            v.ensure(st, z3.BoolVal(kd == 'ret'), 'returns normally')
            g = st.gh.get('added', ())
            v.ensure(st, z3.BoolVal(len(g) == 1), 'one option is registered')
            if len(g) != 1:
                return
            o = Ptr(g[0])
            for f, n in (('name_', 'name'), ('short_description_', 'short'), ('long_description_', 'long')):
                v.ensure(st, strval(v.ex, st, o.add(v.off(RO, f))) == z3.String(n), f + ' as given')
            want = {'type_': iv(ty), 'has_lower_': FALSE, 'has_upper_': FALSE, 'advanced_': v.adv}
            e = eff(v)
            valid = e.pop('valid', [])
            want.update(e)
            for f, x in want.items():
                if f == 'default_string_':
                    v.ensure(st, strval(v.ex, st, o.add(v.off(RO, f))) == x, 'the default is as given')
                    continue
                y = st.mem[o.b].cells.get(v.off(RO, f))
                if y is None:
                    v.ensure(st, FALSE, f + ' is initialized')
                    continue
                if z3.is_bool(x):
                    y = as_bool(y)
                v.ensure(st, y == x, f + ' is as given')
            gv = st.gh.get('valid', ())
            v.ensure(st, z3.BoolVal(len(gv) == len(valid) and all(q[0] == g[0] for q in gv)), 'number of settings')
            if len(gv) == len(valid):
                for q, (a, b) in zip(gv, valid):
                    v.ensure(st, z3.And(q[1] == a, q[2] == b), 'the settings are as given, in this order')
            v.frame(st, {('this', v.off(ROS, 'next_counter_'))})
        out.append(Job('RegisteredOptions::' + name, fn or ROS + '::' + name, s, p, models=A))
    T = z3.BoolVal(True)
    D = lambda v: {'default_number_': v.P['default']}
    DI = lambda v: {'default_number_': z3.ToReal(v.P['default'])}
    Lo = lambda v: {'has_lower_': T, 'lower_': v.P['lower'], 'lower_strict_': v.P['lstrict']}
    Up = lambda v: {'has_upper_': T, 'upper_': v.P['upper'], 'upper_strict_': v.P['ustrict']}
    LoI = lambda v: {'has_lower_': T, 'lower_': z3.ToReal(v.P['lower'])}
    UpI = lambda v: {'has_upper_': T, 'upper_': z3.ToReal(v.P['upper'])}
    both = lambda *fs: lambda v: {k: x for f in fs for k, x in f(v).items()}
    d = ('default', 'd')
    adder('AddNumberOption', [d], TNUM, D)
    adder('AddLowerBoundedNumberOption', [('lower', 'd'), ('lstrict', 'b'), d], TNUM, both(D, Lo))
    adder('AddUpperBoundedNumberOption', [('upper', 'd'), ('ustrict', 'b'), d], TNUM, both(D, Up))
    adder('AddBoundedNumberOption', [('lower', 'd'), ('lstrict', 'b'), ('upper', 'd'), ('ustrict', 'b'), d], TNUM, both(D, Lo, Up))
    d = ('default', 'i')
    adder('AddIntegerOption', [d], TINT, DI)
    adder('AddLowerBoundedIntegerOption', [('lower', 'i'), d], TINT, both(DI, LoI))
    adder('AddUpperBoundedIntegerOption', [('upper', 'i'), d], TINT, both(DI, UpI))
    adder('AddBoundedIntegerOption', [('lower', 'i'), ('upper', 'i'), d], TINT, both(DI, LoI, UpI))
    for n in range(1, 11):
        adder('AddStringOption%d' % n, [('default', 's')] + [(x + str(i), 's') for i in range(1, n + 1) for x in ('setting', 'description')], TSTR,
              lambda v, n=n: {'default_string_': v.P['default'], 'valid': [(v.P['setting%d' % i], v.P['description%d' % i]) for i in range(1, n + 1)]})
    adder('AddBoolOption', [('default', 'b')], TSTR, lambda v: {'default_string_': z3.If(v.P['default'], z3.StringVal('yes'), z3.StringVal('no')),
          'valid': [(z3.StringVal('yes'), z3.StringVal('')), (z3.StringVal('no'), z3.StringVal(''))]})

    # ---- settings of string options
    NS = z3.Int('settings')
    VS = z3.Function('setting', IntS, STR)
    X = z3.String('value')
    STARS = z3.StringVal('*')

    def s_vs(v):
        v.o = v.obj(RO, 'this')
        SE = RO + '::string_entry'
        S = max(mo + sz for n, mo, sz, t in v.mod.classes[SE]['m'])
        b = Block('entries', 'arr', cls=SE, S=S, n=NS, lazy=True)
        b.fields[v.mod.fieldoff(SE, 'value_')[0]] = VS(J)
        v.st.add(b)
        v.assume(NS >= 0)
        v.set(v.st, v.o, 'valid_strings_', Ptr('entries'))
        return [v.o, v.string('value')]

    q = z3.Int('$q')
    MATCH = lambda i: z3.Or(VS(i) == STARS, EQI(VS(i), X))
    INS = lambda i: z3.And(i >= 0, i < NS)
    W = MODELS.child()
    W.hide = [RO + '::IsValidStringSetting', RO + '::MapStringSetting']

    def p_ivs(v, kd, st, val):
        v.ensure(st, z3.BoolVal(kd == 'ret'), 'returns normally')
        j = v.skolem()
        r = as_bool(val)
        v.ensure(st, z3.Implies(z3.And(z3.Not(r), INS(j)), z3.Not(MATCH(j))), 'a refused text matches no registered setting')
        v.ensure(st, z3.Implies(r, z3.Not(z3.ForAll([q], z3.Implies(INS(q), z3.Not(MATCH(q))), patterns=[VS(q)]))), 'an accepted text matches a registered setting')
        v.frame(st, set())
    out.append(Job('RegisteredOption::IsValidStringSetting', RO + '::IsValidStringSetting', s_vs, p_ivs, models=W))

    def p_en(v, kd, st, val):
        j = v.skolem()
        M2 = lambda i: EQI(VS(i), X)
        if kd == 'throw':
            v.ensure(st, z3.Or(z3.Not(z3.ForAll([q], z3.Implies(INS(q), VS(q) != STARS), patterns=[VS(q)])), z3.Implies(INS(j), z3.Not(M2(j)))), 'throws only for a wildcard or a text that matches no setting')
            return
        v.ensure(st, z3.And(INS(val), M2(val)), 'the setting of this index matches')
        v.ensure(st, z3.Implies(z3.And(j >= 0, j < val), z3.Not(M2(j))), 'it is the first one')
        v.frame(st, set())
    out.append(Job('RegisteredOption::MapStringSettingToEnum', RO + '::MapStringSettingToEnum', s_vs, p_en, models=W))

    def s_ms(v):
        a = s_vs(v)
        b = Block('result', 'rec', cls='std::__cxx11::basic_string', lazy=True)
        v.st.add(b)
        return [Ptr('result')] + a
    def p_ms(v, kd, st, val):
        v.ensure(st, z3.BoolVal(kd == 'ret'), 'returns normally')
        r = strval(v.ex, st, Ptr('result'))
        j = v.skolem()
        none = z3.ForAll([q], z3.Implies(INS(q), z3.Not(MATCH(q))), patterns=[VS(q)])
        nobetween = lambda a, b: z3.ForAll([q], z3.Implies(z3.And(q >= a, q < b), z3.Not(MATCH(q))), patterns=[VS(q)])
        if z3.is_app(r) and r.decl().name().startswith('$F') and r.num_args() == 1:
            F = r.decl()
            v.induct(st, lambda n: z3.Implies(nobetween(0, n), F(n) == z3.StringVal('')), NS, 'nothing while no setting matches')
            v.induct(st, lambda n: z3.Implies(z3.And(j >= 0, j < n, MATCH(j), nobetween(j + 1, n)), F(n) == z3.If(VS(j) == STARS, X, VS(j))), NS, 'the last match is kept')
        last = lambda i: z3.And(INS(i), MATCH(i), z3.ForAll([q], z3.Implies(z3.And(q > i, q < NS), z3.Not(MATCH(q))), patterns=[VS(q)]))
        v.ensure(st, z3.Implies(none, r == z3.StringVal('')), 'nothing if no setting matches')
        v.ensure(st, z3.Implies(last(j), r == z3.If(VS(j) == STARS, X, VS(j))), 'the registered spelling of the matching setting, or the text itself for a wildcard')
        v.frame(st, {('result', 0)})
    out.append(Job('RegisteredOption::MapStringSetting', RO + '::MapStringSetting', s_ms, p_ms, models=W, budget=200))

    # ---- characters
    C = MODELS.child()
    C.hide = ['string_equal_insensitive', 'OptionsList::lowercase']

    def chars(ex, st, p):
        s = strval(ex, st, p)
        bid = 'chars:%s.%s.%d' % (p.b, p.c, s.hash())
        if bid not in st.mem:
            b = Block(bid, 'arr', S=1, n=z3.Length(s) + 1)
            b.fields[0] = CHR(s, J)
            st.add(b)
            st.assume(CHR(s, z3.Length(s)) == 0)
        return bid, s

    @C.reg([M.SB + '(begin|cbegin)$', M.SB + '(end|cend)$'], 'model', 'characters of a std::string')
    def m_cbegin(ex, st, a, ins):
        bid, s = chars(ex, st, a[0])
        return ret(st, Ptr(bid) if 'begin' in M.fkey(ex.mod.dem[ins['f']]) else Ptr(bid, 0, ((1, z3.Length(s)),)))

    @C.reg('toupper', 'model', 'C library')
    def m_up(ex, st, a, ins):
        return ret(st, TOUP(a[0]))

    @C.reg('tolower', 'model', 'C library')
    def m_low(ex, st, a, ins):
        return ret(st, TOLOW(a[0]))

    @C.reg(M.SB + r'operator\[\]$', 'model', 'characters of a std::string')
    def m_ci(ex, st, a, ins):
        bid, s = chars(ex, st, a[0])
        ex.require(st, z3.And(a[1] >= 0, a[1] <= z3.Length(s)), 'character in range')
        return ret(st, Ptr(bid, 0, ((1, a[1]),)))

    def s_eq(v):
        return [v.obj(RO, 'this'), v.string('a'), v.string('b')]

    def p_eq(v, kd, st, val):
        v.ensure(st, z3.BoolVal(kd == 'ret'), 'returns normally')
        a, b = z3.String('a'), z3.String('b')
        j = v.skolem()
        eqc = lambda i: TOUP(CHR(a, i)) == TOUP(CHR(b, i))
        r = as_bool(val)
        v.ensure(st, z3.Implies(r, z3.And(z3.Length(a) == z3.Length(b), z3.Implies(z3.And(j >= 0, j < z3.Length(a)), eqc(j)))), 'equal texts have the same characters apart from case')
        v.ensure(st, z3.Implies(z3.Not(r), z3.Or(z3.Length(a) != z3.Length(b), z3.Not(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < z3.Length(a)), eqc(q)), patterns=[CHR(a, q)])))), 'texts that differ have a character that differs')
        v.frame(st, set())
    out.append(Job('RegisteredOption::string_equal_insensitive', RO + '::string_equal_insensitive', s_eq, p_eq, models=C))

    def s_lw(v):
        p = v.obj(OL, 'this')
        v.assume(z3.Length(z3.String('tag')) < 2 ** 31)
        t = v.string('tag')
        # the characters of the argument, and of the buffer once the text has been assigned to it
        o = v.off(OL, 'lowercase_buffer_')
        old = strval(v.ex, v.st, p.add(o))
        chars(v.ex, v.st, t)
        setstr(v.ex, v.st, p.add(o), strval(v.ex, v.st, t))
        chars(v.ex, v.st, p.add(o))
        setstr(v.ex, v.st, p.add(o), old)
        return [p, t]

    def p_lw(v, kd, st, val):
        v.ensure(st, z3.BoolVal(kd == 'ret'), 'returns normally')
        o = v.off(OL, 'lowercase_buffer_')
        v.ensure(st, z3.BoolVal(isinstance(val, Ptr) and val.b == 'this' and val.c == o), 'the buffer is returned')
        s = z3.String('tag')
        bid, x = chars(v.ex, st, Ptr('this', o))
        j = v.skolem()
        v.ensure(st, z3.Length(x) == z3.Length(s), 'the length stays')
        v.ensure(st, z3.Implies(z3.And(j >= 0, j < z3.Length(s)), z3.substitute(st.mem[bid].fields[0], (J, j)) == TOLOW(CHR(s, j))), 'each character is the lower case one')
        v.frame(st, {('this', o), (bid, ('f', 0))})
    out.append(Job('OptionsList::lowercase', OL + '::lowercase', s_lw, p_lw, models=C))

    # ---- option files
    RS = MODELS.child()
    TOK = z3.Function('token', IntS, STR)
    HAS = z3.Function('has_token', IntS, BoolS)
    SETOK = z3.Function('set_succeeds', IntS, BoolS)

    @RS.reg(OL + '::readnexttoken', 'contract', 'the next token of the file, if there is one')
    def m_tok(ex, st, a, ins):
        n = st.mem['stream'].cells[0]
        st.wb('stream').cells[0] = z3.simplify(n + 1)
        setstr(ex, st, a[2], TOK(n))
        return ret(st, HAS(n))

    @RS.reg('re:^Ipopt::OptionsList::Set(String|Numeric|Integer)Value$', 'contract', 'proved for the real bodies')
    def m_rset(ex, st, a, ins):
        d = ex.mod.dem[ins['f']]
        n = st.mem['stream'].cells[0] - 2
        t = TOK(n + 1)
        ex.require(st, strval(ex, st, a[1]) == TOK(n), 'the option set is the one named')
        typ = z3.Int('opt.type_')
        noreg = z3.Bool('no_registry')
        if 'String' in d:
            ex.require(st, strval(ex, st, a[2]) == t, 'the text set is the one read')
            ex.require(st, z3.Or(noreg, typ == TSTR), 'the option is a string option')
        elif 'Numeric' in d:
            ex.require(st, a[2] == STRTOD(DE(t)), 'the number set is the one read')
            ex.require(st, typ == TNUM, 'the option is a numeric option')
            ex.require(st, PENDD(DE(t)) > 0, 'the text starts with a number')
        else:
            ex.require(st, a[2] == STRTOL(t), 'the integer set is the one read')
            ex.require(st, typ == TINT, 'the option is an integer option')
            ex.require(st, PENDL(t) > 0, 'the text starts with an integer')
        ex.require(st, as_bool(a[3]) == z3.Bool('allow_clobber'), 'the protection is as given')
        ex.require(st, z3.Not(as_bool(a[4])), 'the option is printed')
        st.wb('stream').cells[8] = z3.simplify(st.mem['stream'].cells[8] + 1)
        return ret(st, SETOK(n))

    def s_rs(v):
        p, t = base(v)
        b = Block('stream', 'rec')
        b.cells[0], b.cells[8] = iv(0), iv(0)
        v.st.add(b)
        v.assume(v.F['type_'] <= 2)         # registered options have a type
        return [p, v.obj('Ipopt::Journalist', 'jn'), Ptr('stream'), v.bool('allow_clobber')]

    def p_rs(v, kd, st, val):
        n, k = st.mem['stream'].cells[0], st.mem['stream'].cells[8]
        v.frame(st, {('stream', '*')})
        for t in sub(k):
            if z3.is_app(t) and t.decl().name().startswith('$F') and t.num_args() == 1:
                v.induct(st, lambda m, F=t.decl(): F(m) == m, t.arg(0), 'one option is set for each pair of tokens')
        if kd == 'throw':
            t = n - 2
            v.ensure(st, z3.Or(2 * k == n - 2, z3.And(2 * k == n, z3.Not(SETOK(t)))), 'every option before the offending one has been set')
            x, y = TOK(n - 1), DE(TOK(n - 1))
            st.assume(z3.And(z3.Length(y) == z3.Length(x), CHR(x, z3.Length(x)) == 0))
            bad = z3.Or(z3.Not(REGD(TOK(t))), z3.Not(SETOK(t)),
                        z3.And(v.F['type_'] == TNUM, z3.Not(z3.And(PENDD(y) > 0, PENDD(y) == z3.Length(x)))),
                        z3.And(v.F['type_'] == TINT, z3.Not(z3.And(PENDL(x) > 0, PENDL(x) == z3.Length(x), STRTOL(x) >= -2 ** 31, STRTOL(x) < 2 ** 31))))
            v.ensure(st, bad, 'throws only for unknown options, unreadable numbers and values that are refused')
            return
        r = as_bool(val)
        known = TRUE
        v.ensure(st, z3.Implies(z3.And(r, known), z3.And(n == 2 * k + 1, z3.Not(HAS(n - 1)))), 'true only at the end of the file, when every option read has been set')
        v.ensure(st, z3.Implies(z3.And(z3.Not(r), known), z3.And(n == 2 * k + 2, z3.Not(HAS(n - 1)))), 'false only if the value of the last option is missing')
    out.append(Job('OptionsList::ReadFromStream', OL + '::ReadFromStream', s_rs, p_rs, models=RS, budget=200))
    return out
