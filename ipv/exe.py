"""symbolic executor: turns IR functions into proof obligations"""
import z3, re, time, itertools
from engine import *
import engine
from engine import _uid

MAXPATHS = 4000


class Obl:
    __slots__ = ('label', 'fn', 'line', 'status', 'backend', 'model', 'goal', 'facts', 't', 'kind')

    def __init__(self, **kw):
        for s in Obl.__slots__:
            setattr(self, s, kw.get(s))


class Out:
    __slots__ = ('kind', 'st', 'env', 'val', 'frm', 'to')

    def __init__(self, kind, st, env=None, val=None, frm=None, to=None):
        self.kind, self.st, self.env, self.val, self.frm, self.to = kind, st, env, val, frm, to


class Exc:
    """in-flight exception: class name + pointer to the exception object"""
    __slots__ = ('ti', 'ptr')

    def __init__(self, ti, ptr):
        self.ti, self.ptr = ti, ptr


def as_int(v):
    if z3.is_bool(v):
        if z3.is_true(v):
            return iv(1)
        if z3.is_false(v):
            return iv(0)
        return z3.If(v, iv(1), iv(0))
    return v


def as_bool(v):
    if z3.is_bool(v):
        return v
    return z3.simplify(v != 0)


def sort_of(ty):
    if ty == 'double' or ty == 'float':
        return RealS
    if ty == 'i1':
        return BoolS
    if ty.startswith('i'):
        return IntS
    return None


def width(ty):
    return int(ty[1:])


SQRT = z3.Function('sqrt', RealS, RealS)
LOG = z3.Function('log', RealS, RealS)
POW = z3.Function('pow', RealS, RealS, RealS)
EXP = z3.Function('exp', RealS, RealS)
FPTOSI = z3.Function('fptosi', RealS, IntS)


def fabs(x):
    return z3.If(x >= 0, x, -x)


def divexact(e, S):
    """e / S for a byte count e that is a multiple of S"""
    e = z3.simplify(e)
    if z3.is_int_value(e):
        if e.as_long() % S:
            raise Unsupported('byte count %s not a multiple of %d' % (e, S))
        return iv(e.as_long() // S)
    if z3.is_app_of(e, z3.Z3_OP_MUL) and z3.is_int_value(e.arg(0)):
        c = e.arg(0).as_long()
        if c % S == 0:
            rest = e.children()[1:]
            r = rest[0] if len(rest) == 1 else z3.Product(rest)
            return z3.simplify((c // S) * r)
    if z3.is_app_of(e, z3.Z3_OP_ADD):
        return z3.simplify(z3.Sum([divexact(x, S) for x in e.children()]))
    if z3.is_app_of(e, z3.Z3_OP_ITE):
        return z3.If(e.arg(0), divexact(e.arg(1), S), divexact(e.arg(2), S))
    raise Unsupported('byte count %s not visibly a multiple of %d' % (e, S))


class Exec:
    def __init__(self, mod, models, rep=None):
        """mod: ir.Module; models: Models (contracts of callees and trusted functions)"""
        self.mod = mod
        self.models = models
        self.rep = rep or {}
        self.obls = []
        self.record = True
        self.prover = Prover()
        self.top = None
        self.inlined = set()
        self.used_models = set()
        self.depth = 0
        self.npaths = 0
        self.line = None
        self.fnstack = []
        self.reached = set()
        self._feas = {}
        self.folds_used = 0
        self.loops = 0
        self.nfeas = 0
        self.deadline = None

    # ------------------------------------------------------------ obligations
    def require(self, st, goal, label, kind='safety'):
        goal = z3.simplify(goal) if isz(goal) else z3.BoolVal(bool(goal))
        if z3.is_true(goal):
            if self.record:
                self.obls.append(Obl(label=label, fn=self.top, line=self.line, status='proved', backend='simplifier', kind=kind))
            return True
        if not self.record:
            st.assume(goal)
            return True
        t = time.time()
        r, m = self.prover.prove(st.pc, goal)
        o = Obl(label=label, fn=self.top, line=self.line, status=r, backend='z3', model=m, t=time.time() - t, kind=kind)
        if r != 'proved':
            o.goal, o.facts = goal, list(st.pc)
        self.obls.append(o)
        st.assume(goal)
        return r == 'proved'

    def feasible(self, st, cond):
        """may cond hold in st?"""
        c = z3.simplify(cond)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if self.deadline and time.time() > self.deadline:
            raise Unsupported('time budget of the function exceeded')
        self.nfeas += 1
        return self.prover.feasible(st.pc + [c])

    # ------------------------------------------------------------ values
    def operand(self, a, env, st, fn):
        k = a[0]
        if k == 'v':
            v = env[a[1]]
            if v is POISON:
                raise Unsupported('use of a value the loop summary cannot express')
            return v
        if k == 'i':
            if a[1] == 1:
                return TRUE if a[2] not in ('0',) else FALSE
            return iv(int(a[2]))
        if k == 'f':
            s = a[1]
            if s == 'inf':
                return INF
            if s == '-inf':
                return -INF
            if s == 'nan':
                return NAN
            return rv(float.fromhex(s))
        if k == 'n':
            return NULL
        if k == 'u':
            return UNDEF
        if k == 'g':
            return self.globptr(a[1], st, fn.mod)
        if k == 'gep':
            p = self.operand(a[1], env, st, fn)
            return p.add(a[2])
        if k == 'z':
            return UNDEF
        raise Unsupported('operand %s' % (a,))

    def globptr(self, name, st, tu):
        d = self.mod.tus[tu]
        if name in d['funcs'] or name in d['decls']:
            return FnV(name, tu)
        if name in d['aliases']:
            return self.globptr(d['aliases'][name], st, tu)
        g = d['globals'].get(name)
        if g is not None and 'i' not in g and name in self.mod.globals:
            g, tu = self.mod.globals[name]
        elif g is None:
            if name in self.mod.globals:
                g, tu = self.mod.globals[name]
            else:
                return FnV(name, tu)
        bid = 'g:' + (tu + ':' + name if name.startswith('.') else name)
        if bid not in st.mem:
            b = Block(bid, 'rec', tag='global')
            if g.get('c') and 'i' in g:
                init = g['i']
                b.init = (init, tu)
                if init[0] == 's':
                    b.ghost['cstr'] = init[1].rstrip('\0')
                elif init[0] == 'z':
                    b.ghost['cstr'] = ''
                self._fillinit(b, 0, init, st, tu)
            else:
                b.lazy = True
            st.mem[bid] = b
        return Ptr(bid)

    def _fillinit(self, b, off, c, st, tu):
        k = c[0]
        if k == 'a':
            for n, e in enumerate(c[2]):
                self._fillinit(b, off + n * c[1], e, st, tu)
        elif k == 'st':
            for o, e in c[1]:
                self._fillinit(b, off + o, e, st, tu)
        elif k == 's':
            pass
        elif k in 'zux' or k == 'cast':
            if k == 'z':
                b.ghost['zero'] = True
        elif k == 'g':
            b.cells[off] = ('lazyg', c[1], tu)
        else:
            b.cells[off] = self.operand(c, {}, st, type('F', (), {'mod': tu}))

    # ------------------------------------------------------------ memory
    def newblock(self, st, name, kind='rec', **kw):
        bid = '%s#%d' % (name, next(_uid))
        return st.add(Block(bid, kind, **kw))

    def holds(self, st, c):
        return self.prover.prove(st.pc, c, timeout=1000)[0] == 'proved'

    def chk(self, st, p, what):
        """pointer p may be dereferenced; returns its block"""
        if not isinstance(p, Ptr):
            raise Unsupported('%s through %r' % (what, p))
        if p.b is None:
            self.require(st, FALSE, 'null pointer dereference (%s)' % what)
            raise Infeasible()
        if p.nul is not None:
            self.require(st, z3.Not(p.nul), 'pointer may be null (%s)' % what)
        b = st.mem.get(p.b)
        if b is None:
            raise Unsupported('unknown block %s' % p.b)
        if not b.live:
            self.require(st, FALSE, 'access to released memory (%s)' % what)
            raise Infeasible()
        return b

    def elem(self, b, p, ty='double'):
        """element index and field offset for array block"""
        if b.S is None:
            w = {'double': 8, 'ptr': 8, 'i64': 8, 'i32': 4, 'i8': 1, 'i1': 1}[ty]
            for s, e in p.t:
                w = max(w, abs(s))
            b.n = divexact(b.n, w)
            b.S = w
        S = b.S
        ci, fo = divmod(p.c, S)
        idx = iv(ci)
        for s, e in p.t:
            if s % S:
                raise Unsupported('pointer scale %d in array of %d-byte elements' % (s, S))
            idx = idx + (s // S) * e
        return z3.simplify(idx), fo

    def symcell(self, st, b, off, ty):
        nm = '%s.%s' % (b.id, off)
        s = sort_of(ty)
        if s is None:
            if ty == 'ptr':
                tid = nm + '*'
                if tid not in st.mem:
                    st.mem[tid] = Block(tid, 'rec', cls=self.pointee(b, off), lazy=True, tag='lazy')
                return Ptr(tid)
            raise Unsupported('lazy load of type %s' % ty)
        return z3.Const(nm, s)

    def pointee(self, b, off):
        """class a pointer member at offset off of block b points to, from the debug information"""
        def rec(c, o):
            d = self.mod.classes.get(c)
            if not d or 'm' not in d:
                return None
            for n, mo, s, t in d['m']:
                if mo + o == off and (t.endswith('*') or t.startswith('Ipopt::SmartPtr<')):
                    t = t[:-1] if t.endswith('*') else t[len('Ipopt::SmartPtr<'):-1]
                    t = t.replace('const ', '').strip()
                    return t if 'm' in self.mod.classes.get(t, {}) else None
                if mo + o <= off < mo + o + s:
                    r = rec(t, o + mo)
                    if r:
                        return r
            for bb, bo, v in d['b']:
                r = rec(bb, o + bo)
                if r:
                    return r
            return None
        return rec(b.cls, 0) if b.cls else None

    def vptr(self, st, b, off):
        """value of the vtable pointer stored at offset off of an object of class b.cls, or None"""
        if b.cls is None:
            return None
        subs = self.vsubs(b.cls)
        if off not in subs:
            return None
        bid = 'vt:%s:%d' % (b.cls, off)
        if bid not in st.mem:
            st.mem[bid] = Block(bid, 'rec', tag=('vt', b.cls, off))
        return Ptr(bid)

    def vsubs(self, cls):
        key = ('vsubs', cls)
        if key in self.mod.vslots:
            return self.mod.vslots[key]
        out = set()

        def rec(c, o):
            d = self.mod.classes.get(c)
            if d is None or 'm' not in d:
                return
            for n, mo, s, t in d['m']:
                if n.startswith('_vptr$'):
                    out.add(o + mo)
            for bb, bo, v in d['b']:
                rec(bb, o + bo)
        rec(cls, 0)
        if not out:
            out.add(0)
        self.mod.vslots[key] = out
        return out

    def dbgvtable(self, cls):
        """slot -> function name of the primary vtable, from the class declarations in the debug information"""
        d = self.mod.classes.get(cls)
        if not d or 'm' not in d:
            return {}
        out = {}
        for b, o, v in d['b']:
            if o == 0:
                out.update(self.dbgvtable(b))
        for i, n, dm in d.get('v', ()):
            out[i] = n
            self.mod.dem.setdefault(n, dm)
        return out

    def vtable(self, cls, sub):
        """list of function names of the (sub)vtable of cls"""
        key = ('vt', cls, sub)
        if key in self.mod.vslots:
            return self.mod.vslots[key]
        c = self.rep.get(cls, cls)
        parts = c.split('::')

        def mangle(p):
            n, _, a = p.partition('<')
            return '%d%s' % (len(n), n) + ('I' + {'double': 'd', 'int': 'i', 'bool': 'b'}.get(a[:-1], '?') + 'E' if a else '')
        m = '_ZTV' + ('N' + ''.join(mangle(p) for p in parts) + 'E' if len(parts) > 1 else '%d%s' % (len(c), c))
        dbg = self.dbgvtable(cls)
        if m not in self.mod.globals:
            if not dbg or sub != 0:
                raise Unsupported('no vtable for class %s' % cls)
            self.mod.vslots[key] = ([dbg.get(i) for i in range(max(dbg) + 1)], None, c)
            return self.mod.vslots[key]
        init, tu = self.mod.globals[m]
        init = init['i']
        arrs = [e for _, e in init[1]]
        res = None
        for a in arrs:
            ents = a[2]
            top = ents[0]
            o = 0
            if top[0] == 'cast':
                o = -int(top[2][2])
            if o == sub:
                res = [(e[1] if e[0] == 'g' else None) for e in ents[2:]]
        if res is None:
            raise Unsupported('no sub-vtable %d for class %s' % (sub, cls))
        if sub == 0:
            res = [(dbg.get(i, n) if n == '__cxa_pure_virtual' else n) for i, n in enumerate(res)]
        self.mod.vslots[key] = (res, tu, c)
        return self.mod.vslots[key]

    def load(self, st, p, ty):
        if isinstance(p, FnV):
            raise Unsupported('load from function/external symbol %s' % p.name)
        b = self.chk(st, p, 'load')
        if b.tag and b.tag[0] == 'vt' and isinstance(b.tag, tuple):
            _, cls, sub = b.tag
            tab, tu, rep = self.vtable(cls, sub)
            n = p.c // 8
            if p.t or n >= len(tab):
                raise Unsupported('vtable access')
            name = tab[n]
            if cls in self.rep:
                dem = self.mod.dem.get(name, name)
                meth = dem.split('(')[0].split('::')[-1]
                return VMeth(cls, meth, dem)
            if name == '__cxa_pure_virtual' or name is None:
                raise Unsupported('pure virtual call on %s' % cls)
            return FnV(name, tu)
        if b.kind == 'rec':
            if p.t:
                raise Unsupported('variable offset into record block %s (%r)' % (b.id, p))
            v = b.cells.get(p.c)
            if v is None:
                if ty == 'ptr':
                    v = self.vptr(st, b, p.c)
                    if v is not None:
                        return v
                if b.ghost.get('zero'):
                    return NULL if ty == 'ptr' else (rv(0) if ty == 'double' else iv(0))
                if b.lazy or b.tag == 'global':
                    v = self.symcell(st, b, p.c, ty)
                else:
                    if ty == 'ptr':
                        raise Unsupported('load of uninitialised pointer %r' % p)
                    s = sort_of(ty)
                    if s is None:
                        return UNDEF
                    v = z3.Const('uninit:%s.%s' % (b.id, p.c), s)
                return v
            if isinstance(v, tuple) and v[0] == 'lazyg':
                v = self.globptr(v[1], st, v[2])
            return self.retype(v, ty)
        if b.S is None:
            b = st.wb(p.b)
        idx, fo = self.elem(b, p, ty)
        if b.tag != 'list':
            self.require(st, z3.And(idx >= 0, idx < b.n), 'index in range (load)')
        v = b.fields.get(fo)
        if v is None:
            if ty == 'ptr' and b.cls is not None:
                vp = self.vptr(st, b, fo)
                if vp is not None:
                    return vp
            v = self.symfield(st, b, fo, ty)
            # memoised by name: no need to store
        if isinstance(v, FamVal):
            return v.sel(idx)
        if isinstance(v, PtrMap):
            import stl
            if b.ghost.get('nullinit') and not v.st and v.old is None:
                return NULL
            return stl.psel(self, st, v, idx)
        return self.retype(z3.simplify(z3.substitute(v, (J, idx))), ty)

    def symfield(self, st, b, fo, ty):
        s = sort_of(ty)
        if s is None:
            raise Unsupported('contents of pointer array %s unknown' % b.id)
        nm = ('%s' if b.lazy else 'uninit:%s') % ('%s[]%d' % (b.id, fo) if fo else '%s[]' % b.id)
        return z3.Function(nm, IntS, s)(J)

    def retype(self, v, ty):
        if v is POISON:
            raise Unsupported('use of a value the loop summary cannot express')
        if isz(v):
            s = sort_of(ty)
            if s is None:
                if ty == 'ptr':
                    raise Unsupported('integer loaded as pointer')
                return v
            if s == RealS and v.sort() != RealS:
                raise Unsupported('type punning load %s as %s' % (v.sort(), ty))
            if s == IntS and v.sort() == RealS:
                raise Unsupported('type punning load %s as %s' % (v.sort(), ty))
            if s == IntS and v.sort() == BoolS:
                return v if ty in ('i8', 'i1') else as_int(v)
        return v

    def store(self, st, p, v, ty='?'):
        if isinstance(p, FnV):
            raise Unsupported('store to external symbol %s' % p.name)
        self.chk(st, p, 'store')
        b = st.wb(p.b)
        if v is UNDEF:
            v = st.fresh('undef', sort_of(ty) or IntS) if sort_of(ty) is not None else UNDEF
        if isinstance(b.tag, str) and b.tag == 'const':
            self.require(st, FALSE, 'store into constant object %s' % b.id)
        if b.kind == 'rec':
            if p.t:
                raise Unsupported('variable offset store into record block %s' % b.id)
            b.cells[p.c] = v
            return
        idx, fo = self.elem(b, p, ty)
        if b.tag != 'list':
            self.require(st, z3.And(idx >= 0, idx < b.n), 'index in range (store)')
        old = b.fields.get(fo)
        if isinstance(v, Ptr):
            if old is None:
                if v.b is not None and not v.t and v.nul is None:
                    b.fields[fo] = FamVal(Ptr(v.b, v.c, (), None))
                    b.fields[fo] = PtrMap(None, [(idx, v)])
                else:
                    b.fields[fo] = PtrMap(None, [(idx, v)])
                return
            b.fields[fo] = PtrMap(old, [(idx, v)])
            return
        if old is None:
            old = self.symfield(st, b, fo, ty)
        if isinstance(old, FamVal):
            raise Unsupported('scalar stored into pointer array')
        if old.sort() != v.sort():
            if old.sort() == IntS and v.sort() == BoolS:
                v = as_int(v)
            elif old.sort() == BoolS and v.sort() == IntS:
                v = as_bool(v)
            else:
                raise Unsupported('store of %s into array of %s' % (v.sort(), old.sort()))
        b.fields[fo] = z3.simplify(z3.If(J == idx, v, old))

    # ------------------------------------------------------------ running
    def run_function(self, fn, st, args):
        """-> list of (kind, st, val)"""
        env = {}
        for a, v in zip(fn.args, args):
            env[a['id']] = v
        self.depth += 1
        self.fnstack.append(fn)
        if self.depth > 40:
            raise Unsupported('inlining too deep at ' + fn.dem)
        try:
            outs = self.run(fn, [(st, env, None, 0)], None, None)
        finally:
            self.depth -= 1
            self.fnstack.pop()
        return [(o.kind, o.st, o.val) for o in outs]

    def run(self, fn, starts, region, header):
        """starts: list of (state, env, fromblock, block); returns Outs.
        Blocks are processed in reverse post order; region/header delimit a loop body."""
        outs = []
        work = []

        def goto(st, env, frm, to, first=False):
            if to == header and not first:
                outs.append(Out('latch', st, env, frm=frm, to=to))
                return
            if region is not None and to not in region:
                outs.append(Out('exit', st, env, frm=frm, to=to))
                return
            if to in fn.headers and to != header:
                for o in self.exec_loop(fn, fn.headers[to], st, env, frm):
                    if o.kind == 'exit':
                        goto(o.st, o.env, o.frm, o.to)
                    else:
                        outs.append(o)
                return
            if not (to == header and first):
                env = self.phis(fn, st, env, frm, to)
            work.append((st, env, frm, to))

        for st, env, frm, to in starts:
            goto(st, env, frm, to, True)
        while work:
            if len(work) > 1 and self.merge_on:
                # take a block of minimal rpo; merge all pending states at it
                mi = min(range(len(work)), key=lambda i: fn.rpo[work[i][3]])
                b = work[mi][3]
                same = [w for w in work if w[3] == b]
                work = [w for w in work if w[3] != b]
                merged = self.merge_states(same) if len(same) > 1 else same
                st, env, frm, b = merged[0]
                work.extend(merged[1:])
            else:
                st, env, frm, b = work.pop()
            self.npaths += 1
            if self.npaths > MAXPATHS * 10:
                raise Unsupported('too many paths')
            try:
                self.block(fn, st, env, frm, b, 0, goto, outs)
            except Infeasible:
                pass
        return outs

    merge_on = False

    def phis(self, fn, st, env, frm, to):
        blk = fn.blocks[to]
        if blk[0]['o'] not in ('phi', 'dbg'):
            return env
        new = {}
        for ins in blk:
            if ins['o'] == 'dbg':
                continue
            if ins['o'] != 'phi':
                break
            for src, a in ins['in']:
                if src == frm:
                    v = self.operand(a, env, st, fn)
                    if v is UNDEF and sort_of(ins['t']) is not None:
                        v = st.fresh('undef', sort_of(ins['t']))
                    new[ins['r']] = v
                    break
        if new:
            env = dict(env)
            env.update(new)
        return env

    def block(self, fn, st, env, frm, b, ip, goto, outs):
        env = dict(env)
        blk = fn.blocks[b]
        n = len(blk)
        self.reached.add((fn.name, b))
        while ip < n:
            ins = blk[ip]
            ip += 1
            o = ins['o']
            if o == 'dbg' or o == 'phi':
                continue
            self.line = (fn.file, ins.get('l')) if 'l' in ins else self.line
            if o == 'br':
                s = ins['s']
                if len(s) == 1:
                    goto(st, env, b, s[0])
                    return
                c = self.operand(ins['a'][0], env, st, fn)
                if c is UNDEF:
                    c = st.fresh('undefbr', BoolS)
                self.branch(st, env, b, [(as_bool(c), s[0]), (z3.Not(as_bool(c)), s[1])], goto)
                return
            if o == 'switch':
                c = as_int(self.operand(ins['a'][0], env, st, fn))
                alts = []
                rest = []
                by = {}
                for cv, tgt in ins['cases']:
                    val = iv(int(cv[2])) if cv[1] > 1 else (iv(1) if cv[2] != '0' else iv(0))
                    by.setdefault(tgt, []).append(c == val)
                    rest.append(c != val)
                for tgt, cs in by.items():
                    alts.append((z3.Or(cs), tgt))
                alts.append((z3.And(rest) if rest else TRUE, ins['def']))
                self.branch(st, env, b, alts, goto)
                return
            if o == 'ret':
                v = self.operand(ins['a'][0], env, st, fn) if ins['a'] else None
                outs.append(Out('ret', st, val=v))
                return
            if o == 'unreachable':
                # reachable 'unreachable' only after noreturn calls; those end the path in the call model
                return
            if o in ('call', 'invoke'):
                res = self.call(fn, st, env, ins)
                inv = o == 'invoke'
                if len(res) == 1 and res[0][0] == 'ret' and not inv:
                    _, st, v = res[0]
                    if 'r' in ins:
                        env[ins['r']] = v
                    continue
                for kind, s2, v in res:
                    e2 = dict(env) if len(res) > 1 else env
                    if kind == 'ret':
                        if 'r' in ins:
                            e2[ins['r']] = v
                        if inv:
                            goto(s2, e2, b, ins['nd'])
                        else:
                            try:
                                self.block(fn, s2, e2, frm, b, ip, goto, outs)
                            except Infeasible:
                                pass
                    else:
                        if inv and self.catches(fn, ins['ud'], v, s2):
                            e2['exc'] = v
                            goto(s2, e2, b, ins['ud'])
                        else:
                            outs.append(Out('throw', s2, val=v))
                return
            if o == 'resume':
                v = self.operand(ins['a'][0], env, st, fn)
                outs.append(Out('throw', st, val=v.v[0] if isinstance(v, Agg) else v))
                return
            if o == 'select':
                c = self.operand(ins['a'][0], env, st, fn)
                x = self.operand(ins['a'][1], env, st, fn)
                y = self.operand(ins['a'][2], env, st, fn)
                c = as_bool(c)
                cs = z3.simplify(c)
                if z3.is_true(cs):
                    env[ins['r']] = x
                elif z3.is_false(cs):
                    env[ins['r']] = y
                elif isz(x) and isz(y):
                    env[ins['r']] = self.ite(c, x, y)
                elif isinstance(x, Ptr) and isinstance(y, Ptr) and self.ptrite(c, x, y) is not None:
                    env[ins['r']] = self.ptrite(c, x, y)
                else:
                    for cond, v in ((c, x), (z3.Not(c), y)):
                        if self.feasible(st, cond):
                            s2 = st.fork()
                            s2.assume(z3.simplify(cond))
                            e2 = dict(env)
                            e2[ins['r']] = v
                            try:
                                self.block(fn, s2, e2, frm, b, ip, goto, outs)
                            except Infeasible:
                                pass
                    return
                continue
            if o == 'load':
                p = self.operand(ins['a'][0], env, st, fn)
                try:
                    env[ins['r']] = self.load(st, p, ins['t'])
                except ForkOn as f:
                    for cond, v in f.alts:
                        if self.feasible(st, cond):
                            s2 = st.fork()
                            s2.assume(z3.simplify(cond))
                            e2 = dict(env)
                            e2[ins['r']] = v
                            try:
                                self.block(fn, s2, e2, frm, b, ip, goto, outs)
                            except Infeasible:
                                pass
                    return
                continue
            if o == 'store':
                v = self.operand(ins['a'][0], env, st, fn)
                p = self.operand(ins['a'][1], env, st, fn)
                self.store(st, p, v, ins['st'])
                continue
            env[ins['r']] = self.pure(fn, st, env, ins)
        raise Unsupported('block without terminator')

    def branch(self, st, env, b, alts, goto):
        live = [(c, t) for c, t in alts if not z3.is_false(z3.simplify(c))]
        if len(live) > 1:
            live = [(c, t) for c, t in live if self.feasible(st, c)]
        for n, (c, t) in enumerate(live):
            s2 = st.fork() if n < len(live) - 1 else st
            s2.assume(z3.simplify(c))
            goto(s2, dict(env), b, t)

    def ite(self, c, x, y):
        if x.sort() != y.sort():
            if BoolS in (x.sort(), y.sort()):
                x, y = as_int(x), as_int(y)
            else:
                raise Unsupported('select of mixed sorts')
        return z3.simplify(z3.If(c, x, y))

    def ptrite(self, c, x, y):
        if x.b == y.b and x.nul is None and y.nul is None and len(x.t) == len(y.t) and all(a[0] == b[0] for a, b in zip(x.t, y.t)) and x.c == y.c:
            return Ptr(x.b, x.c, tuple((a[0], z3.simplify(z3.If(c, a[1], b[1]))) for a, b in zip(x.t, y.t)))
        if x.b is None and x.c == 0 and y.b is not None:
            return Ptr(y.b, y.c, y.t, z3.simplify(z3.Or(c, y.nul if y.nul is not None else FALSE)))
        if y.b is None and y.c == 0 and x.b is not None:
            return Ptr(x.b, x.c, x.t, z3.simplify(z3.Or(z3.Not(c), x.nul if x.nul is not None else FALSE)))
        if x.b == y.b and x.c == y.c and not x.t and not y.t:
            return Ptr(x.b, x.c, (), z3.simplify(z3.If(c, x.nul if x.nul is not None else FALSE, y.nul if y.nul is not None else FALSE)))
        return None

    # ------------------------------------------------------------ pure instructions
    def pure(self, fn, st, env, ins):
        o = ins['o']
        if o == 'getelementptr':
            if ins.get('bad'):
                raise Unsupported('getelementptr')
            p = self.operand(ins['a'][0], env, st, fn)
            if not isinstance(p, Ptr):
                if isinstance(p, FnV) and not ins['v']:
                    return p
                raise Unsupported('pointer arithmetic on %r' % (p,))
            terms = []
            for a, s in ins['v']:
                terms.append((s, as_int(self.operand(a, env, st, fn))))
            if p.b is None and (ins['c'] or terms):
                if not terms:
                    return Ptr(None, p.c + ins['c'])
                return Ptr(None, 1)
            return p.add(ins['c'], terms)
        if o == 'alloca':
            b = self.newblock(st, 'alloca')
            return Ptr(b.id)
        a = [self.operand(x, env, st, fn) for x in ins.get('a', ())]
        if o in ('extractvalue',):
            v = a[0]
            for i in ins['ix']:
                if not isinstance(v, Agg):
                    raise Unsupported('extractvalue of %r' % (v,))
                v = v.v[i]
            return v
        if o == 'insertvalue':
            agg = a[0]
            if not isinstance(agg, Agg):
                n = ins['t'].count(',') + 1
                agg = Agg([UNDEF] * n)
            else:
                agg = Agg(agg.v)
            if len(ins['ix']) != 1:
                raise Unsupported('nested insertvalue')
            agg.v[ins['ix'][0]] = a[1]
            return agg
        if o == 'landingpad':
            exc = env.get('exc')
            tid = 0
            for cat, cl in ins['cl']:
                if not cat:
                    continue
                if cl[0] == 'n':
                    tid = self.typeid('*')
                    break
                if self.exc_matches(exc.ti, cl[1]):
                    tid = self.typeid(cl[1])
                    break
            return Agg([exc, iv(tid)])
        if o == 'freeze':
            return a[0] if a[0] is not UNDEF else st.fresh('freeze', sort_of(ins['t']))
        t = ins['t']
        if any(x is UNDEF for x in a):
            if sort_of(t) is None:
                return UNDEF
            return st.fresh('undef', sort_of(t))
        if o == 'icmp':
            return self.icmp(st, ins['p'], a[0], a[1], ins['st'])
        if o == 'fcmp':
            return self.fcmp(ins['p'], a[0], a[1])
        if o == 'fadd':
            return z3.simplify(a[0] + a[1])
        if o == 'fsub':
            return z3.simplify(a[0] - a[1])
        if o == 'fmul':
            return z3.simplify(a[0] * a[1])
        if o == 'fdiv':
            return z3.simplify(a[0] / a[1])
        if o == 'fneg':
            return z3.simplify(-a[0])
        if o in ('sext', 'zext', 'trunc', 'bitcast', 'fpext', 'fptrunc', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'ptrtoint', 'inttoptr', 'addrspacecast'):
            return self.cast(st, o, a[0], ins['st'], t)
        if o in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'sdiv', 'udiv', 'srem', 'urem'):
            return self.arith(st, o, a[0], a[1], t)
        raise Unsupported('instruction %s' % o)

    def typeid(self, name):
        return self.models.typeid(name)

    def cast(self, st, o, v, sty, t):
        if o in ('bitcast', 'fpext', 'fptrunc', 'addrspacecast'):
            return v
        if o == 'ptrtoint' or o == 'inttoptr':
            return v
        if isinstance(v, (Ptr, FnV)):
            raise Unsupported('cast %s of pointer' % o)
        if o == 'sext':
            if z3.is_bool(v):
                return z3.If(v, iv(-1), iv(0))
            return v
        if o == 'zext':
            if z3.is_bool(v):
                return v if t == 'i8' else z3.simplify(as_int(v))
            if z3.is_int_value(v):
                n = v.as_long()
                return iv(n if n >= 0 else n + (1 << width(sty)))
            if width(sty) <= 16:
                return v
            return z3.simplify(z3.If(v >= 0, v, v + (1 << width(sty))))
        if o == 'trunc':
            if t == 'i1':
                return as_bool(v)
            if z3.is_bool(v):
                return v
            if z3.is_int_value(v):
                n = v.as_long() & ((1 << width(t)) - 1)
                if n >= 1 << (width(t) - 1):
                    n -= 1 << width(t)
                return iv(n)
            if getattr(self.models, 'exact_trunc', False):
                h = 1 << (width(t) - 1)
                return z3.simplify(z3.If(z3.And(v >= -h, v < h), v, (v + h) % (2 * h) - h))
            return v
        if o in ('sitofp', 'uitofp'):
            return z3.simplify(z3.ToReal(as_int(v)))
        if o in ('fptosi', 'fptoui'):
            if z3.is_rational_value(v):
                f = v.as_fraction()
                return iv(int(f))
            return FPTOSI(v)
        raise Unsupported(o)

    def arith(self, st, o, a, b, t):
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if o == 'sub' and isinstance(a, Ptr) and isinstance(b, Ptr) and a.b == b.b:
                return z3.simplify(a.offset() - b.offset())
            if o == 'sub' and isinstance(a, Ptr) and isinstance(b, Ptr):
                raise Unsupported('difference of pointers into different objects')
            raise Unsupported('integer arithmetic on pointer')
        if t == 'i1' or (z3.is_bool(a) and z3.is_bool(b) and o in ('and', 'or', 'xor')):
            a, b = as_bool(a), as_bool(b)
            if o in ('and', 'mul'):
                return z3.simplify(z3.And(a, b))
            if o == 'or':
                return z3.simplify(z3.Or(a, b))
            if o in ('xor', 'add', 'sub'):
                return z3.simplify(z3.Xor(a, b))
            raise Unsupported('i1 ' + o)
        if o in ('and', 'or', 'xor') and t == 'i8':
            # bitwise operations on bytes that hold bools
            if z3.is_bool(a) or z3.is_bool(b):
                x, y = as_bool(a), as_bool(b)
                return z3.simplify({'and': z3.And, 'or': z3.Or, 'xor': z3.Xor}[o](x, y))
        a, b = as_int(a), as_int(b)
        if o == 'add':
            return z3.simplify(a + b)
        if o == 'sub':
            return z3.simplify(a - b)
        if o == 'mul':
            return z3.simplify(a * b)
        bc = b.as_long() if z3.is_int_value(b) else None
        ac = a.as_long() if z3.is_int_value(a) else None
        if o == 'shl' and bc is not None:
            return z3.simplify(a * (1 << bc))
        if o in ('lshr', 'ashr') and bc is not None:
            return z3.simplify(a / (1 << bc))
        if o == 'and' and bc is not None and bc >= 0 and (bc & (bc + 1)) == 0:
            return z3.simplify(a % (bc + 1))
        if o == 'and' and bc is not None and bc < 0 and ((-bc) & (-bc - 1)) == 0:
            return z3.simplify(a - a % (-bc))
        if o == 'xor' and bc == -1:
            return z3.simplify(-a - 1)
        if ac is not None and bc is not None:
            if o == 'and':
                return iv(ac & bc)
            if o == 'or':
                return iv(ac | bc)
            if o == 'xor':
                return iv(ac ^ bc)
        if o in ('sdiv', 'srem'):
            if bc is None or bc == 0:
                self.require(st, b != 0, 'division by zero')
            if bc is not None and bc > 0:
                q = z3.If(a >= 0, a / b, -((-a) / b))
                try:
                    q2 = divexact(a, bc)
                    q = q2
                except Unsupported:
                    pass
            else:
                q = z3.If(z3.And(a >= 0, b > 0), a / b, z3.If(z3.And(a >= 0, b < 0), -(a / (-b)), z3.If(z3.And(a < 0, b > 0), -((-a) / b), (-a) / (-b))))
            return z3.simplify(q) if o == 'sdiv' else z3.simplify(a - b * q)
        if o == 'udiv':
            return z3.simplify(a / b)
        if o == 'urem':
            return z3.simplify(a % b)
        f = z3.Function('bv_' + o, IntS, IntS, IntS)
        return f(a, b)

    def fcmp(self, p, a, b):
        if p == 'true':
            return TRUE
        if p == 'false':
            return FALSE
        if p == 'uno':
            return FALSE
        if p == 'ord':
            return TRUE
        c = p[1:]
        r = {'eq': lambda: a == b, 'gt': lambda: a > b, 'ge': lambda: a >= b, 'lt': lambda: a < b, 'le': lambda: a <= b, 'ne': lambda: a != b}[c]()
        return z3.simplify(r)

    def icmp(self, st, p, a, b, ty):
        if isinstance(a, (Ptr, FnV, VMeth)) or isinstance(b, (Ptr, FnV, VMeth)):
            return self.pcmp(st, p, a, b)
        if z3.is_bool(a) and z3.is_bool(b):
            if p == 'eq':
                return z3.simplify(a == b)
            if p == 'ne':
                return z3.simplify(z3.Xor(a, b))
        if (z3.is_bool(a) or z3.is_bool(b)) and p in ('eq', 'ne'):
            x, y = (a, b) if z3.is_bool(a) else (b, a)
            if z3.is_int_value(y):
                n = y.as_long()
                r = x if n == 1 else (z3.Not(x) if n == 0 else FALSE)
                return z3.simplify(r if p == 'eq' else z3.Not(r))
        a, b = as_int(a), as_int(b)
        if p[0] == 'u':
            w = width(ty)

            def U(x):
                if z3.is_int_value(x):
                    n = x.as_long()
                    return iv(n if n >= 0 else n + (1 << w))
                return z3.If(x >= 0, x, x + (1 << w))
            a, b = U(a), U(b)
            p = 's' + p[1:]
        r = {'eq': lambda: a == b, 'ne': lambda: a != b, 'sgt': lambda: a > b, 'sge': lambda: a >= b, 'slt': lambda: a < b, 'sle': lambda: a <= b}[p]()
        return z3.simplify(r)

    def pcmp(self, st, p, a, b):
        if isinstance(a, FnV) or isinstance(b, FnV) or isinstance(a, VMeth) or isinstance(b, VMeth):
            if isinstance(a, FnV) and isinstance(b, FnV):
                r = TRUE if a.name == b.name else FALSE
            elif isinstance(a, Ptr) and a.b is None or isinstance(b, Ptr) and b.b is None:
                r = FALSE
            else:
                raise Unsupported('comparison of code pointers')
            return r if p == 'eq' else z3.Not(r)
        if isz(a) or isz(b):
            x = a if isz(a) else b
            if z3.is_int_value(x) and x.as_long() == 0:
                a, b = (NULL if isz(a) else a), (NULL if isz(b) else b)
            else:
                raise Unsupported('comparison of pointer and integer')
        an = TRUE if a.b is None else (a.nul if a.nul is not None else FALSE)
        bn = TRUE if b.b is None else (b.nul if b.nul is not None else FALSE)
        if a.b is None and b.b is None:
            off = TRUE if a.c == b.c else FALSE
        elif a.b is None or b.b is None:
            off = FALSE
        elif a.b == b.b:
            off = a.offset() == b.offset()
        else:
            off = self.distinct(st, a, b)
        if p in ('eq', 'ne'):
            if a.b is None or b.b is None:
                r = z3.And(an, bn) if not (a.b is None and b.b is None) else off
            else:
                r = z3.Or(z3.And(an, bn), z3.And(z3.Not(an), z3.Not(bn), off))
            return z3.simplify(r if p == 'eq' else z3.Not(r))
        if a.b is not None and a.b == b.b:
            x, y = a.offset(), b.offset()
            r = {'ugt': x > y, 'uge': x >= y, 'ult': x < y, 'ule': x <= y, 'sgt': x > y, 'sge': x >= y, 'slt': x < y, 'sle': x <= y}[p]
            return z3.simplify(r)
        raise Unsupported('ordering of pointers into different objects')

    def distinct(self, st, a, b):
        """are pointers into different blocks equal?  blocks are distinct objects, except lazily created ones"""
        ba, bb = st.mem.get(a.b), st.mem.get(b.b)
        if (ba is not None and ba.tag == 'lazy') or (bb is not None and bb.tag == 'lazy'):
            n = '|'.join(sorted([repr(a), repr(b)]))
            return z3.Bool('same:' + n)
        return FALSE

    # ------------------------------------------------------------ exceptions
    def exc_matches(self, ti, clause):
        return self.models.exc_matches(self.mod, ti, clause)

    def catches(self, fn, ud, exc, st):
        blk = fn.blocks[ud]
        lp = [i for i in blk if i['o'] == 'landingpad'][0]
        if lp['cleanup']:
            return True
        for cat, cl in lp['cl']:
            if not cat:
                return True
            if cl[0] == 'n' or self.exc_matches(exc.ti, cl[1]):
                return True
        return False

    # ------------------------------------------------------------ calls
    def call(self, fn, st, env, ins):
        args = [self.operand(a, env, st, fn) if a[0] != 'x' else None for a in ins['a']]
        if 'f' in ins:
            name, tu = ins['f'], fn.mod
        else:
            p = self.operand(ins['fp'], env, st, fn)
            if isinstance(p, VMeth):
                return self.models.virtual(self, st, p, args, ins)
            if not isinstance(p, FnV):
                if isinstance(p, Ptr) and p.b is not None:
                    blk = st.mem.get(p.b)
                    m = self.models.funptr(self, st, p, blk, args, ins)
                    if m is not None:
                        return m
                raise Unsupported('call through %r' % (p,))
            name, tu = p.name, p.tu
        return self.callname(st, name, tu, args, ins)

    def callname(self, st, name, tu, args, ins):
        dem = self.mod.dem.get(name, name)
        m = self.models.lookup(self, name, dem, st, args)
        if m is not None:
            self.used_models.add(m.title)
            if ins is None or ins.get('f') != name:
                ins = dict(ins or {}, f=name)
            return m.f(self, st, args, ins)
        f = self.mod.getfn(name, tu)
        if f is None and name.startswith('_ZN'):
            # complete object constructor/destructor emitted as an alias of the base object one
            for a, b in (('C1E', 'C2E'), ('D1E', 'D2E')):
                if a in name:
                    f = f or self.mod.getfn(name.replace(a, b), tu)
        if f is None:
            raise Unsupported('call of %s (no contract, no body)' % dem)
        self.inlined.add(dem)
        line = self.line
        res = self.run_function(f, st, args)
        self.line = line
        if len(res) > 1:
            res = self.merge_results(res, len(st.pc))
        return res

    # ------------------------------------------------------------ merging
    def merge_results(self, res, base):
        """merge 'ret' outcomes of an inlined call that share all memory"""
        rets = [r for r in res if r[0] == 'ret']
        if len(rets) < 2:
            return res
        others = [r for r in res if r[0] != 'ret']
        m = self.merge_list([(s, v) for _, s, v in rets])
        return others + [('ret', s, v) for s, v in m]

    def merge_list(self, items):
        """items: list of (state, value); greedily merge pairs"""
        out = [items[0]]
        for s, v in items[1:]:
            done = False
            for n, (s0, v0) in enumerate(out):
                m = self.merge2(s0, v0, s, v)
                if m is not None:
                    out[n] = m
                    done = True
                    break
            if not done:
                out.append((s, v))
        return out

    def merge2(self, s0, v0, s1, v1):
        if s0.loopctx != s1.loopctx or s0.gh != s1.gh:
            return None
        n = 0
        m = min(len(s0.pc), len(s1.pc))
        while n < m and s0.pc[n] is s1.pc[n]:
            n += 1
        d0, d1 = s0.pc[n:], s1.pc[n:]
        if any(has_quant(x) for x in d0 + d1):
            return None
        c0 = z3.simplify(z3.And(d0)) if d0 else TRUE
        c1 = z3.simplify(z3.And(d1)) if d1 else TRUE
        # c0 selects state 0; both were feasible and exclusive
        cond = c0

        def mv(a, b):
            if a is b:
                return a
            if isz(a) and isz(b):
                if a.eq(b):
                    return a
                if a.sort() != b.sort():
                    if BoolS in (a.sort(), b.sort()) and IntS in (a.sort(), b.sort()):
                        a, b = as_int(a), as_int(b)
                    else:
                        return None
                return z3.simplify(z3.If(cond, a, b))
            if isinstance(a, Ptr) and isinstance(b, Ptr):
                if a.key() == b.key():
                    return a
                return self.ptrite(cond, a, b)
            if isinstance(a, FamVal) and isinstance(b, FamVal) and a.p.key() == b.p.key():
                return a
            if isinstance(a, (str, int, tuple, frozenset)) and a == b:
                return a
            return None
        if v0 is None and v1 is None:
            v = None
        else:
            v = mv(v0, v1)
            if v is None:
                return None
        r = State()
        r.loopctx = s0.loopctx
        r.trace = s0.trace
        r.gh = dict(s0.gh)
        r.pc = list(s0.pc[:n])
        for bid in set(s0.mem) | set(s1.mem):
            a, b = s0.mem.get(bid), s1.mem.get(bid)
            if a is b:
                r.mem[bid] = a
                continue
            if a is None or b is None:
                r.mem[bid] = a or b
                continue
            if a.live != b.live or a.kind != b.kind:
                return None
            c = a.copy()
            for dn in ('cells', 'fields', 'ghost'):
                da, db = getattr(a, dn), getattr(b, dn)
                dc = getattr(c, dn)
                for k in set(da) | set(db):
                    x, y = da.get(k), db.get(k)
                    if x is None or y is None:
                        if dn == 'ghost':
                            return None
                        z = x if x is not None else y
                        if not isz(z):
                            return None
                        if dn == 'fields':
                            o = self.symfield(s0, a, k, 'double' if z.sort() == RealS else ('i1' if z.sort() == BoolS else 'i32'))
                        else:
                            if not a.lazy:
                                # uninitialised on one side: arbitrary value there
                                o = z3.Const('uninit:%s.%s' % (a.id, k), z.sort())
                            else:
                                o = z3.Const('%s.%s' % (a.id, k), z.sort())
                        x = o if x is None else x
                        y = o if y is None else y
                    z = mv(x, y)
                    if z is None:
                        return None
                    dc[k] = z
            if a.n is not b.n and not (a.n is None or b.n is None):
                z = mv(a.n, b.n)
                if z is None:
                    return None
                c.n = z
            r.mem[bid] = c
            r.own.add(bid)
        disj = z3.simplify(z3.Or(c0, c1))
        r.assume(disj)
        return r, v

    def merge_states(self, works):
        """works: list of (st, env, frm, block)"""
        out = []
        for w in works:
            done = False
            for n, w0 in enumerate(out):
                st0, env0 = w0[0], w0[1]
                keys = [k for k in env0 if k in w[1]]
                vals0, vals1, ks = [], [], []
                ok = True
                m = self.merge2(st0, None, w[0], None)
                if m is None:
                    continue
                st = m[0]
                nn = 0
                mm = min(len(st0.pc), len(w[0].pc))
                while nn < mm and st0.pc[nn] is w[0].pc[nn]:
                    nn += 1
                cond = z3.simplify(z3.And(st0.pc[nn:])) if st0.pc[nn:] else TRUE
                env = {}
                for k in keys:
                    a, b = env0[k], w[1][k]
                    if a is b:
                        env[k] = a
                    elif isz(a) and isz(b):
                        if a.eq(b):
                            env[k] = a
                        elif a.sort() == b.sort():
                            env[k] = z3.simplify(z3.If(cond, a, b))
                        else:
                            env[k] = z3.simplify(z3.If(cond, as_int(a), as_int(b)))
                    elif isinstance(a, Ptr) and isinstance(b, Ptr):
                        if a.key() == b.key():
                            env[k] = a
                        else:
                            z = self.ptrite(cond, a, b)
                            if z is None:
                                ok = False
                                break
                            env[k] = z
                    elif isinstance(a, Agg) and isinstance(b, Agg):
                        pass
                    else:
                        ok = False
                        break
                if ok:
                    out[n] = (st, env, w0[2], w0[3])
                    done = True
                    break
            if not done:
                out.append(w)
        return out


class ForkOn(Exception):
    def __init__(self, alts):
        self.alts = alts


class PtrMap:
    """array of pointers with explicit stores over an older content"""
    __slots__ = ('old', 'st')

    def __init__(self, old, st):
        self.old, self.st = old, st
