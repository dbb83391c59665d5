"""loops: exact characterisation of the state after k iterations"""
import z3, itertools, time, re
import engine
from engine import *
from engine import _uid
from exe import Exec, Out, as_int, as_bool, PtrMap




def replace_app(t, decl, f, memo=None):
    """replace applications of decl in t by f(args)"""
    memo = {}
    keep = []

    def rec(x):
        i = x.get_id()
        if i in memo:
            return memo[i]
        if z3.is_quantifier(x) or not z3.is_app(x):
            r = x
        else:
            ch = [rec(c) for c in x.children()]
            if x.decl().eq(decl):
                r = f(ch)
            elif not ch:
                r = x
            elif all(a.eq(b) for a, b in zip(ch, x.children())):
                r = x
            else:
                r = rebuild(x, ch)
        memo[i] = r
        keep.append(x)
        return r
    return rec(t)


def rebuild(x, ch):
    k = x.decl().kind()
    if k == z3.Z3_OP_ADD:
        return z3.Sum(ch)
    if k == z3.Z3_OP_MUL:
        return z3.Product(ch)
    if k == z3.Z3_OP_AND:
        return z3.And(ch)
    if k == z3.Z3_OP_OR:
        return z3.Or(ch)
    return x.decl()(*ch)


def has_decl(t, names):
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            st.append(x.body())
            continue
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name() in names:
                return True
            st.extend(x.children())
    return False


def decls_in(t, names):
    out = set()
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            st.append(x.body())
            continue
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name() in names:
                out.add(x.decl().name())
            st.extend(x.children())
    return out


class Var:
    """one location modified by a loop"""

    def __init__(self, key, init):
        self.key, self.init = key, init
        self.pb = None       # base of a pointer that moves by varying amounts (the variable is then its index)
        self.res = None      # resolved header value at iteration k (z3 term, Ptr, FamVal or POISON)
        self.H = None
        self.hv = None
        self.how = None
        self.V = ()


class LoopExec(Exec):

    def exec_loop(self, fn, L, st, env, frm):
        h = L['h']
        inv = self.invariant_for(fn, L)
        if inv is not None:
            self.loops += 1
            return self.inv_loop(fn, L, st, env, frm, inv)
        r = self.try_unroll(fn, L, st, env, frm)
        if r is not None:
            return r
        self.loops += 1
        return self.abstract_loop(fn, L, st, env, frm)

    def try_unroll(self, fn, L, st, env, frm):
        nob = len(self.obls)
        h = L['h']
        st1 = st.fork()
        env1 = self.phis(fn, st1, env, frm, h)
        outs = []
        try:
            for it in range(40):
                res = self.run(fn, [(st1, env1, frm, h)], L['set'], h)
                lat = [o for o in res if o.kind == 'latch']
                if not lat:
                    return outs + res
                if len(lat) > 1 or len(res) > 1:
                    break
                o = lat[0]
                st1 = o.st
                env1 = self.phis(fn, st1, o.env, o.frm, h)
        except Unsupported:
            if it == 0:
                pass
        del self.obls[nob:]
        return None

    # ----------------------------------------------------------------
    def invariant_for(self, fn, L):
        for pat, f in (getattr(self, 'invs', None) or {}).items():
            if re.search(pat, fn.dem):
                sel = getattr(f, 'sel', None)     # the loop that calls this function
                if sel is None or any(sel in self.mod.dem.get(i.get('f') or '', '') for b in L['set'] for i in fn.blocks[b] if i['o'] in ('call', 'invoke')):
                    return f
        return None

    def inv_loop(self, fn, L, st0, env0, frm, inv):
        """loop cut at its head by an invariant: entry and latch are obligations, modified locations are arbitrary.

        inv(v, st, st0) -> dict(must=[(label, formula)], terms=[t], preds=[p]); candidates phi == t, phi <=> p, phi => p, p => phi
        (and the same for negated phis) are added as far as they are inductive, so the invariant does not name local variables."""
        h = L['h']
        phis = [i for i in fn.blocks[h] if i['o'] == 'phi']
        env_in = self.phis(fn, st0, env0, frm, h)
        uid = next(_uid)
        mods = {}          # location -> fresh value

        def mkfresh(init, nm):
            if isz(init):
                return z3.Const('$L%d.%s' % (uid, nm), init.sort())
            return None
        phv = {}
        ptrphi = {}
        for p in phis:
            x = env_in[p['r']]
            f = mkfresh(x, p['r'])
            if f is None:
                if not isinstance(x, Ptr):
                    raise Unsupported('loop variable of this kind with an invariant')
                f = x
                ptrphi[p['r']] = True
            phv[p['r']] = f

        def put(st):
            for key, val in mods.items():
                self.set_loc(st, {}, key, val)

        def head():
            st = st0.fork()
            env = dict(env_in)
            env.update(phv)
            put(st)
            return st, env

        def latchenv(o):
            e = {}
            for p in phis:
                for src, a in p['in']:
                    if src == o.frm:
                        e[p['r']] = self.operand(a, o.env, o.st, fn)
            return e

        # 1. modified locations
        for rnd in range(12):
            st, env = head()
            save, self.record = self.record, False
            nob = len(self.obls)
            disc, self._discover = getattr(self, '_discover', False), True     # no invariants of nested loops are looked for
            try:
                outs = self.run(fn, [(st.fork(), env, frm, h)], L['set'], h)
            finally:
                self.record, self._discover = save, disc
                del self.obls[nob:]
            new = False
            for o in outs:
                if o.kind != 'latch':
                    continue
                if o.st.gh != st.gh:
                    raise Unsupported('global ghost state changes in a loop')
                le = latchenv(o)
                for r in list(ptrphi):
                    x, y = le.get(r), phv[r]
                    if not (isinstance(x, Ptr) and x.key() == y.key()):
                        phv[r] = POISON
                        del ptrphi[r]
                        new = True
                for bid, b0 in st.mem.items():
                    b1 = o.st.mem.get(bid)
                    if b1 is b0 or b1 is None:
                        continue
                    if b0.live != b1.live:
                        raise Unsupported('memory released in a loop')
                    if (b0.n is not b1.n and not b0.n.eq(b1.n)) or b0.S != b1.S:
                        raise Unsupported('array resized in a loop')
                    for t, d0, d1 in (('c', b0.cells, b1.cells), ('f', b0.fields, b1.fields), ('g', b0.ghost, b1.ghost)):
                        for kk, x in d1.items():
                            key = (t, bid, kk)
                            y = d0.get(kk)
                            if key in mods or y is x or (isz(x) and isz(y) and x.eq(y)):
                                continue
                            if isinstance(x, Ptr) and isinstance(y, Ptr) and x.key() == y.key():
                                continue
                            init = y if y is not None else self.default_loc(st0, key, x)
                            if isz(init) and t == 'c' or t == 'g' and isz(init):
                                f = mkfresh(init, '%s.%s' % (bid, kk))
                            elif isz(init) and t == 'f':
                                f = z3.Function('$L%d.%s.%s' % (uid, bid, kk), IntS, init.sort())(J)
                            else:
                                f = POISON
                            mods[key] = f
                            if y is None and isz(init):
                                self.set_loc(st0, {}, key, init)
                            new = True
            if not new:
                break
        else:
            raise Unsupported('loop modification set does not stabilise')

        # 2. candidates over loop variables
        def cands(st, ph, first=False):
            d = inv(self.vv, st, st0)
            out = {}
            def b(x):
                if z3.is_bool(x):
                    return x
                return x != 0
            for r, x in ph.items():
                if not isz(x):
                    continue
                for n, t in enumerate(d.get('terms', ())):
                    if t.sort() == x.sort():
                        out['%s=%d' % (r, n)] = x == t
                if x.sort() == IntS:
                    out['%s>=0' % r] = x >= 0
                    out['%s<=1' % r] = x <= 1
                if x.sort() != RealS:
                    for n, q in enumerate(d.get('preds', ())):
                        out['%s=>p%d' % (r, n)] = z3.Implies(b(x), q)
                        out['p%d=>%s' % (n, r)] = z3.Implies(q, b(x))
                        out['!%s=>p%d' % (r, n)] = z3.Implies(z3.Not(b(x)), q)
                        out['p%d=>!%s' % (n, r)] = z3.Implies(q, z3.Not(b(x)))
            for n, q in enumerate(d.get('preds', ())):
                out['p%d' % n] = q
            bools = [(r, b(x)) for r, x in ph.items() if isz(x) and x.sort() != RealS]
            if d.get('pairs'):
                bb = [(r, b(x)) for r, x in ph.items() if isz(x) and x.sort() != RealS]
                for i1, (r, x) in enumerate(bb):
                    for r2, y in bb[i1 + 1:]:
                        out['!(%s&%s)' % (r, r2)] = z3.Or(z3.Not(x), z3.Not(y))
                for r, x in bb:
                    for i2, (r2, y) in enumerate(bb):
                        for r3, w in bb[i2:]:
                            if r not in (r2, r3):
                                for n, q in enumerate(d.get('preds', ())):
                                    if n in d['pairs']:
                                        out['%s=>%s|%s|p%d' % (r, r2, r3, n)] = z3.Implies(x, z3.Or(y, w, q))
            for r, x in ph.items():
                if isz(x):
                    for n, t in enumerate(d.get('terms', ())):
                        if t.sort() == x.sort():
                            for r2, y in bools:
                                if r2 != r:
                                    out['%s|%s=%d' % (r2, r, n)] = z3.Or(y, x == t)
                                    out['!%s|%s=%d' % (r2, r, n)] = z3.Or(z3.Not(y), x == t)
            return out, d.get('must', [])

        C0, must0 = cands(st0, {p['r']: env_in[p['r']] for p in phis})
        def provable(pc, fs):
            """those of the formulas fs (by name) that follow from pc; one model refutes many"""
            fs = {n: z3.simplify(f) for n, f in fs.items()}
            fs = {n: f for n, f in fs.items() if not z3.is_true(f)}
            ok = set()
            if engine.find_folds(list(fs.values()) + [f for f in pc if not engine.has_quant(f)]):
                return {n for n, f in fs.items() if self.prover.prove(pc, f, timeout=1000)[0] == 'proved'}
            s = z3.Solver()
            s.set('timeout', 1000)
            cs = list(pc) + list(fs.values())
            s.add(*pc)
            s.add(*engine.fun_axioms(cs))
            left = dict(fs)
            while left:
                s.push()
                s.add(z3.Or(*[z3.Not(f) for f in left.values()]))
                r = s.check()
                if r == z3.unsat:
                    return set(left)
                if r == z3.sat:
                    m = s.model()
                    gone = [n for n, f in left.items() if z3.is_false(m.eval(f, model_completion=True))]
                else:
                    gone = []
                s.pop()
                if not gone:
                    return {n for n, f in left.items() if self.prover.prove(pc, f, timeout=1000)[0] == 'proved'}
                for n in gone:
                    del left[n]
            return ok

        cur = set()
        bad = self.__dict__.setdefault('_noninductive', {}).setdefault((fn.name, h), set())
        todo = {n: f for n, f in C0.items() if n not in bad}
        if getattr(self, '_discover', False):
            todo = {}
        cur = provable(st0.pc, todo) | {n for n, f in todo.items() if z3.is_true(z3.simplify(f))}
        for rnd in range(20):
            if not cur:
                break
            st, env = head()
            C, must = cands(st, phv)
            cur = {n for n in cur if n in C}
            for n in cur:
                st.assume(C[n])
            for lab, f in must:
                st.assume(f)
            save, self.record = self.record, False
            nob = len(self.obls)
            try:
                outs = self.run(fn, [(st, env, frm, h)], L['set'], h)
            finally:
                self.record = save
                del self.obls[nob:]
            drop = set()
            for o in outs:
                if o.kind != 'latch':
                    continue
                C2, _ = cands(o.st, latchenv(o))
                drop |= {n for n in cur if n not in C2}
                todo = {n: C2[n] for n in cur - drop}
                yes = provable(o.st.pc, todo)
                drop |= {n for n, f in todo.items() if n not in yes and not z3.is_true(z3.simplify(f))}
            if not drop:
                break
            cur -= drop
            bad |= drop
        else:
            raise Unsupported('no inductive strengthening found')
        # 3. obligations
        for lab, f in must0:
            self.require(st0, f, 'loop invariant on entry: ' + lab, kind='invariant')
        st, env = head()
        C, must = cands(st, phv)
        for n in cur:
            st.assume(C[n])
        for lab, f in must:
            st.assume(f)
        outs = self.run(fn, [(st, env, frm, h)], L['set'], h)
        res = []
        for o in outs:
            if o.kind != 'latch':
                res.append(o)
                continue
            C2, must2 = cands(o.st, latchenv(o))
            for lab, f in must2:
                self.require(o.st, f, 'loop invariant maintained: ' + lab, kind='invariant')
        return res

    # ----------------------------------------------------------------
    def mkH(self, v, st, sort):
        """placeholder for the value of v at the loop head"""
        ctx = list(st.loopctx)     # includes k
        V = list(v.V)
        f = z3.Function('H!%d' % next(_uid), *([x.sort() for x in ctx + V] + [sort]))
        v.H = f
        v.hv = f(*(ctx + V)) if ctx + V else f()
        return v.hv

    def set_loc(self, st, env, key, val):
        t = key[0]
        if t == 'p':
            env[key[1]] = val
        else:
            b = st.wb(key[1])
            d = {'c': b.cells, 'f': b.fields, 'g': b.ghost}[t]
            d[key[2]] = val

    def get_loc(self, st, key):
        b = st.mem[key[1]]
        return {'c': b.cells, 'f': b.fields, 'g': b.ghost}[key[0]].get(key[2])

    def default_loc(self, st, key, like):
        b = st.mem[key[1]]
        if key[0] == 'c':
            if not isz(like):
                return None
            nm = ('%s.%s' if (b.lazy or b.tag == 'global') else 'uninit:%s.%s') % (b.id, key[2])
            return z3.Const(nm, like.sort())
        if key[0] == 'f':
            if not isz(like):
                return None
            ty = {'Real': 'double', 'Bool': 'i1', 'Int': 'i32'}[str(like.sort())]
            return self.symfield(st, b, key[2], ty)
        if key[2] == 'rel[]':
            return FALSE
        return None

    def abstract_loop(self, fn, L, st0, env0, frm):
        h = L['h']
        k = z3.Int('$k%d' % next(_uid))
        kid = k.decl().name()
        line0 = self.line
        phis = [i for i in fn.blocks[h] if i['o'] == 'phi']
        env_in = self.phis(fn, st0, env0, frm, h)
        vars = {}
        order = []
        retyped = [False]

        def addvar(key, init):
            v = Var(key, init)
            if isz(init):
                fv = free_vars(init)
                if key[0] == 'f':
                    v.V = (J,)
                elif key[0] == 'g':
                    isfam = st0.mem[key[1]].tag == 'fam'
                    v.V = tuple(x for x, nm in ((I_, '$I'), (J, '$J')) if nm in self.models.ghostvars(st0.mem[key[1]], key[2]))
            vars[key] = v
            order.append(key)
            return v

        for p in phis:
            addvar(('p', p['r']), env_in[p['r']])

        def header_state():
            st = st0.fork()
            st.loopctx = st0.loopctx + (k,)
            st.assume(k >= 0)
            env = dict(env_in)
            for key in order:
                v = vars[key]
                if v.pb is not None:
                    x = v.res if v.res is not None else v.hv if v.hv is not None else self.mkH(v, st, IntS)
                    val = v.pb.add(0, [(v.pS, x)]) if isz(x) else x
                elif v.res is not None:
                    val = v.res
                elif isz(v.init):
                    val = v.hv if v.hv is not None else self.mkH(v, st, v.init.sort())
                elif isinstance(v.init, Ptr):
                    if v.how == 'phiptr':
                        val = v.hv
                    elif v.how is None:
                        # assume a moving pointer into the same block; checked below
                        ph = z3.Function('H!%d' % next(_uid), *([IntS] * len(st.loopctx) + [IntS]))
                        v.H = ph
                        blk = st0.mem.get(v.init.b)
                        sc = blk.S if blk is not None and blk.kind == 'arr' and blk.S else 1
                        v.hv = Ptr(v.init.b, v.init.c % sc, ((sc, ph(*st.loopctx)),))
                        v.how = 'phiptr'
                        val = v.hv
                else:
                    val = POISON
                self.set_loc(st, env, key, val)
            return st, env

        def run_body(record, extra=()):
            st, env = header_state()
            for e in extra:
                st.assume(e)
            base = len(st.pc)
            save = self.record
            self.record = save and record
            nob = len(self.obls)
            try:
                outs = self.run(fn, [(st.fork(), env, frm, h)], L['set'], h)
            finally:
                self.record = save
                if not record:
                    del self.obls[nob:]
            return st, env, base, outs

        def latchpost(o, key, fnv=None):
            v = vars[key]
            x = latchpost0(o, key)
            if v.pb is None:
                return x
            if not isinstance(x, Ptr) or x.b != v.pb.b or x.nul is not None or any(s % v.pS for s, i in x.t + v.pb.t) or (x.c - v.pb.c) % v.pS:
                return POISON
            ix = lambda q: z3.Sum([iv(0)] + [(s // v.pS) * i for s, i in q.t])
            return z3.simplify(ix(x) - ix(v.pb) + (x.c - v.pb.c) // v.pS)

        def latchpost0(o, key):
            if key[0] == 'p':
                ph = [p for p in phis if p['r'] == key[1]][0]
                for src, a in ph['in']:
                    if src == o.frm:
                        return self.operand(a, o.env, o.st, fn)
                raise Unsupported('phi')
            v = self.get_loc(o.st, key)
            return v

        def find_mods(sth, outs):
            new = []
            for o in outs:
                if o.kind != 'latch':
                    continue
                if o.st.gh != sth.gh:
                    raise Unsupported('global ghost state changes in a loop')
                for bid, b0 in sth.mem.items():
                    b1 = o.st.mem.get(bid)
                    if b1 is b0 or b1 is None:
                        continue
                    if b0.live != b1.live:
                        raise Unsupported('memory released in a loop')
                    if b0.S is None and b1.S is not None:
                        w = st0.wb(bid)
                        w.S, w.n = b1.S, b1.n
                        retyped[0] = True
                        continue
                    if b0.n is not b1.n and not b0.n.eq(b1.n):
                        raise Unsupported('array resized in a loop')
                    for t, d0, d1 in (('c', b0.cells, b1.cells), ('f', b0.fields, b1.fields), ('g', b0.ghost, b1.ghost)):
                        for kk, x in d1.items():
                            key = (t, bid, kk)
                            if key in vars:
                                continue
                            y = d0.get(kk)
                            if y is x or (isz(x) and isz(y) and x.eq(y)):
                                continue
                            if isinstance(x, Ptr) and isinstance(y, Ptr) and x.key() == y.key():
                                continue
                            new.append((key, y, x))
            return new

        def Hnames():
            return {v.H.name(): key for key, v in vars.items() if v.res is None and v.H is not None}

        def combined(outs, base, key):
            """value of key after one more iteration, in terms of header values"""
            lat = [o for o in outs if o.kind == 'latch']
            sels, common = selectors(lat, base)
            vals = [latchpost(o, key) for o in lat]
            if any(v is None for v in vals):
                return None
            if all(isz(v) for v in vals):
                srt = vars[key].init.sort() if isz(vars[key].init) else vals[0].sort()
                vv = []
                for v in vals:
                    if v.sort() != srt:
                        if srt == IntS and z3.is_bool(v):
                            v = as_int(v)
                        elif srt == BoolS and v.sort() == IntS:
                            v = as_bool(v)
                        else:
                            return None
                    vv.append(v)
                r = vv[-1]
                for s, v in list(zip(sels, vv))[-2::-1]:
                    r = z3.If(s, v, r)
                return z3.simplify(r)
            return vals

        def selectors(lat, base):
            ds = []
            for o in lat:
                at = {}
                for c in o.st.pc[base:]:
                    if has_quant(c):
                        continue
                    for a in conj(c):
                        at[a.get_id()] = a
                ds.append(at)
            common = dict(ds[0])
            for d in ds[1:]:
                common = {i: a for i, a in common.items() if i in d}
            sels = [z3.And([a for i, a in d.items() if i not in common] or [TRUE]) for d in ds]
            return [z3.simplify(s) for s in sels], list(common.values())

        # ---- 1. discover the modified locations
        for rnd in range(12):
            sth, envh, base, outs = run_body(False)
            if not any(o.kind == 'latch' for o in outs):
                # the loop body never returns to the head: run from the initial state instead
                st1 = st0.fork()
                return self.run(fn, [(st1, dict(env_in), frm, h)], L['set'], h)
            retyped[0] = False
            new = find_mods(sth, outs)
            changed = retyped[0]
            for key, y, x in new:
                if key in vars:
                    continue
                init = y
                if init is None:
                    if isz(x):
                        init = self.default_loc(st0, key, x)
                    else:
                        init = POISON
                if isinstance(init, PtrMap) or isinstance(x, PtrMap):
                    init = POISON
                if isinstance(init, FamVal) or (not isz(init) and not isinstance(init, Ptr)):
                    v = addvar(key, POISON)
                    v.res = POISON
                else:
                    addvar(key, init)
                changed = True
            # induction variables
            names = Hnames()
            for key in order:
                v = vars[key]
                if v.res is not None:
                    continue
                lat = [o for o in outs if o.kind == 'latch']
                vals = [latchpost(o, key) for o in lat]
                if isinstance(v.init, Ptr):
                    if v.hv is None:
                        continue
                    if any(not isinstance(x, Ptr) or x.b != v.init.b or x.nul is not None for x in vals):
                        if all(isinstance(x, Ptr) and x.key() == v.hv.key() for x in vals):
                            v.res = v.init
                        else:
                            v.res = POISON
                        changed = True
                        continue
                    ds = [z3.simplify(x.offset() - v.hv.offset()) for x in vals]
                    if all(d.eq(ds[0]) for d in ds) and z3.is_int_value(ds[0]):
                        v.res = v.init.add(0, [(ds[0].as_long(), k)]) if ds[0].as_long() else v.init
                        v.how = 'iv'
                    else:
                        inv = all(not has_decl(d, set(names) | {kid}) for d in ds)
                        if inv and all(d.eq(ds[0]) for d in ds):
                            c, e = linfac(ds[0])
                            v.res = v.init.add(0, [(c, e * k)])
                            v.how = 'iv'
                        else:
                            # pointer moving by a state-dependent amount: index becomes a scalar variable
                            sc = v.hv.t[0][0]
                            v.pb, v.pS, v.init, v.how, v.hv, v.H = v.init, sc, iv(0), None, None, None
                    changed = True
                    continue
                if not isz(v.init) or v.V or v.hv is None or v.init.sort() != IntS:
                    continue
                if any(not isz(x) for x in vals):
                    v.res = POISON
                    changed = True
                    continue
                ds = [z3.simplify(as_int(x) - v.hv) for x in vals]
                if all(d.eq(ds[0]) for d in ds) and not has_decl(ds[0], set(names) | {kid}):
                    v.res = z3.simplify(v.init + ds[0] * k) if not z3.is_int_value(ds[0]) or ds[0].as_long() else v.init
                    v.how = 'iv'
                    changed = True
            if not changed:
                break
        else:
            raise Unsupported('loop modification set does not stabilise')

        # ---- 2. resolve arrays and scalars
        failed = set()
        for rnd in range(30):
            unres = [key for key in order if vars[key].res is None and key not in failed]
            if not unres:
                break
            sth, envh, base, outs = run_body(False)
            names = Hnames()
            progress = False
            posts = {}
            for key in unres:
                posts[key] = combined(outs, base, key)
            deps = {}
            for key in unres:
                p = posts[key]
                if p is None or not isz(p):
                    vars[key].res = POISON
                    progress = True
                    continue
                deps[key] = {names[n] for n in decls_in(p, set(names))}
            if progress:
                continue
            # unchanged after all
            for key in unres:
                if posts[key].eq(z3.simplify(vars[key].hv)):
                    vars[key].res = vars[key].init
                    vars[key].how = 'const'
                    progress = True
            if progress:
                continue
            for key in unres:
                v = vars[key]
                if not v.V or (deps[key] - {key}):
                    continue
                E = self.closed_form(sth, v, posts[key], k)
                if E is not None:
                    v.res, v.how = E, 'closed'
                    progress = True
                    continue
                E = self.cell_fold(sth, v, posts[key], k)
                if E is not None:
                    v.res, v.how = E, 'cellfold'
                    progress = True
                else:
                    failed.add(key)
                    progress = True
            if progress:
                continue
            # arrays that depend on each other
            ar = [key for key in unres if vars[key].V]
            for comp in sccs(ar, deps):
                if len(comp) < 2 or len(comp) > 4 or set().union(*[deps[x] for x in comp]) - set(comp):
                    continue
                grp = [vars[x] for x in comp]
                Es = [self.closed_form(sth, vars[x], posts[x], k, grp) for x in comp]
                if any(e is None for e in Es):
                    continue
                for x, e in zip(comp, Es):
                    p2 = posts[x]
                    for o, eo in zip(grp, Es):
                        p2 = replace_app(p2, o.H, lambda args, o=o, eo=eo: z3.substitute(eo, *list(zip(o.V, args[len(args) - len(o.V):]))))
                    r, _ = self.prover.prove(list(sth.pc) + [k >= 0], p2 == z3.substitute(e, (k, k + 1)), timeout=2000)
                    if r != 'proved':
                        break
                else:
                    for x, e in zip(comp, Es):
                        vars[x].res, vars[x].how = e, 'closed'
                    progress = True
            if progress:
                continue
            # scalar groups: strongly connected components without unresolved outside dependencies
            sc = [key for key in unres if not vars[key].V]
            comps = sccs(sc, deps)
            for comp in comps:
                out = set().union(*[deps[x] for x in comp]) - set(comp)
                if out:
                    continue
                if len(comp) > 6:
                    failed.update(comp)
                    progress = True
                    break
                accs = [z3.Const('$acc%d' % next(_uid), vars[x].init.sort()) for x in comp]
                sub = [(vars[x].hv, a) for x, a in zip(comp, accs)]
                steps = [z3.substitute(posts[x], *sub) for x in comp]
                f, args = make_fold(k, accs, [vars[x].init for x in comp], steps)
                for n, x in enumerate(comp):
                    vars[x].res = f.app(n, args, k)
                    vars[x].how = 'fold'
                self.folds_used += 1
                progress = True
            if not progress:
                failed.update(unres)
        for key in failed:
            vars[key].how = 'havoc'

        # ---- 3. facts about completed iterations
        sth, envh, base, outs = run_body(False)
        lat = [o for o in outs if o.kind == 'latch']
        extra = []
        if lat:
            sels, common = selectors(lat, base)
            lp = list(common)
            so = z3.simplify(z3.Or(sels)) if sels else TRUE
            if not z3.is_true(so):
                lp.append(so)
            km1 = z3.simplify(k - 1)
            heavy = []
            for c in lp:
                # k != E for all completed iterations and E >= 0 imply k <= E
                for a in conj(c):
                    e = neq_bound(a, k)
                    if e is not None and not has_decl(e, {v.H.name() for v in vars.values() if v.H is not None}):
                        r, _ = self.prover.prove(list(sth.pc), e >= 0, timeout=2000)
                        if r == 'proved':
                            extra.append(k <= e)
                if kid not in free_vars(c):
                    extra.append(z3.Implies(k >= 1, c))
                    continue
                ci = z3.simplify(z3.substitute(c, (k, km1)))
                extra.append(z3.Implies(k >= 1, ci))
                if not linear_in(c, k):
                    heavy.append(c)
            # what inner loops establish for all their iterations
            common = None
            for o in lat:
                d = {c.get_id(): c for c in o.st.pc[base:] if has_quant(c)}
                common = d if common is None else {i: c for i, c in common.items() if i in d}
            hs = {v.H.name() for v in vars.values() if v.H is not None}
            for c in (common or {}).values():
                if kid in free_vars(c) and not has_decl(c, hs):
                    kq = z3.Int('$q%d' % next(_uid))
                    extra.append(flat_forall(kq, z3.And(kq >= 0, kq < k), z3.substitute(c, (k, kq))))
            if heavy:
                kq = z3.Int('$q%d' % next(_uid))
                body = z3.substitute(z3.And(heavy), (k, kq))
                extra.append(z3.ForAll([kq], z3.Implies(z3.And(kq >= 0, kq < k), body)))
        self.loop_hints(fn, L, sth, vars, k, extra)

        # ---- 4. final run: record obligations, check closed forms, collect exits
        for attempt in range(3):
            nob = len(self.obls)
            sth, envh, base, outs = run_body(True, extra)
            bad = []
            if self.record or True:
                for key in order:
                    v = vars[key]
                    if v.how != 'closed':
                        continue
                    for o in outs:
                        if o.kind != 'latch':
                            continue
                        p = latchpost(o, key)
                        e1 = z3.substitute(v.res, (k, k + 1))
                        r, _ = self.prover.prove(o.st.pc, p == e1)
                        if r != 'proved':
                            bad.append(key)
                            break
            if not bad:
                break
            del self.obls[nob:]
            for key in bad:
                v = vars[key]
                v.res = None
                v.how = 'havoc'
                v.hv = None
        else:
            raise Unsupported('loop summary not inductive')
        res = []
        for o in outs:
            if o.kind == 'latch':
                continue
            o.st.loopctx = st0.loopctx
            self.close_exit(fn, st0, o, k, base)
            res.append(o)
        if len(res) > 1:
            res = [o for o in res if not self.dead_exit(o)]
        self.line = line0
        return res

    def dead_exit(self, o):
        """is this way out of the loop excluded by what is known of all iterations?"""
        if not any(has_quant(c) for c in o.st.pc):
            return False
        r, _ = engine._check(list(o.st.pc), 500)
        return r == z3.unsat

    def loop_hints(self, fn, L, st, vars, k, extra):
        pass

    def close_exit(self, fn, st0, o, k, base):
        """replace the ghost counter by a closed form of the exit iteration if one follows"""
        st = o.st
        cands = []
        for c in st.pc[len(st0.pc):]:
            for a in conj(c):
                e = solve_for(a, k)
                if e is not None and not any(e.eq(x) for x in cands):
                    cands.append(e)
        K = None
        cands = [(e, True) for e in cands if not engine.find_folds([e])] + [(e, False) for e in cands]
        for e, light in cands:
            for form in (e, z3.If(e > 0, e, iv(0))):
                r, _ = self.prover.prove([c for c in st.pc], k == form, timeout=1500, light=light)
                if r == 'proved':
                    K = z3.simplify(form)
                    break
            if K is not None:
                break
        if K is None:
            if not st0.loopctx:
                return
            K = st0.fresh('K', IntS)
        sub = (k, K)
        nm = k.decl().name()

        def s(v):
            if isz(v):
                return z3.simplify(z3.substitute(v, sub)) if nm in free_vars(v) else v
            if isinstance(v, Ptr):
                if any(nm in free_vars(e) for _, e in v.t) or (v.nul is not None and nm in free_vars(v.nul)):
                    q = Ptr(v.b, v.c, (), None if v.nul is None else z3.simplify(z3.substitute(v.nul, sub)))
                    return q.add(0, tuple((x, z3.substitute(e, sub)) for x, e in v.t))
                return v
            if isinstance(v, FamVal):
                return FamVal(s(v.p))
            if isinstance(v, Agg):
                return Agg([s(x) for x in v.v])
            return v
        st.pc = [s(c) for c in st.pc]
        for bid in list(st.mem):
            if st.mem[bid] is st0.mem.get(bid):
                continue
            b = st.wb(bid)
            for d in (b.cells, b.fields, b.ghost):
                for kk, v in d.items():
                    d[kk] = s(v)
        if o.env is not None:
            o.env = {kk: s(v) for kk, v in o.env.items()}
        if o.val is not None:
            o.val = s(o.val)

    # ----------------------------------------------------------------
    def closed_form(self, sth, v, post, k, group=None):
        """closed form of an array of which iteration k changes one cell; with group, only a candidate (the caller checks all of them together)"""
        Vn = {x.decl().name(): x for x in v.V}
        eqs = []
        seen = set()
        stk = [post]
        while stk:
            x = stk.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_quantifier(x):
                return None
            if z3.is_eq(x) and x.arg(0).sort() == IntS:
                fv = free_vars(x)
                if any(n in fv for n in Vn):
                    eqs.append(x)
            stk.extend(x.children())
        if not eqs:
            return None
        kinv = None
        var = None
        for e in eqs:
            got = None
            for n, x in Vn.items():
                if n not in free_vars(e):
                    continue
                ki = lin_solve(e.arg(0) - e.arg(1), k, x)
                if ki is not None:
                    got = (x, ki)
                    break
            if got is None:
                continue
            if kinv is None:
                var, kinv = got
            elif not (got[0].eq(var) and z3.simplify(got[1] - kinv).eq(iv(0))):
                return None
        if kinv is None:
            return None
        own = v.H

        def tobase(args):
            # H(ctx..., V...) -> init at V args
            va = args[len(args) - len(v.V):]
            return z3.substitute(v.init, *list(zip(v.V, va)))
        T = replace_app(post, own, tobase)
        for o in group or ():
            if o is not v:
                T = replace_app(T, o.H, lambda args, o=o: z3.substitute(o.init, *list(zip(o.V, args[len(args) - len(o.V):]))))
        T = z3.simplify(z3.substitute(T, (k, kinv)))
        # the guard must be false elsewhere: post outside the written cell is the old value
        E = z3.simplify(z3.If(z3.And(kinv >= 0, kinv < k), T, v.init))
        if group:
            return E
        # pre-check inductiveness cheaply: apply post to E
        p2 = replace_app(post, own, lambda args: z3.substitute(E, *list(zip(v.V, args[len(args) - len(v.V):]))))
        e1 = z3.substitute(E, (k, k + 1))
        r, _ = self.prover.prove(list(sth.pc) + [k >= 0], p2 == e1, timeout=2000)
        if r == 'proved':
            return E
        return None

    def cell_fold(self, sth, v, post, k):
        acc = z3.Const('$acc%d' % next(_uid), v.init.sort())
        same = replace_app(post, v.H, lambda args: v.hv)
        r, _ = self.prover.prove(list(sth.pc), post == same, timeout=3000)
        if r != 'proved':
            return None
        step = z3.simplify(replace_app(post, v.H, lambda args: acc))
        guard = TRUE
        # only the cells satisfying a condition that does not depend on the iteration are changed
        for at in index_eqs(step, {x.decl().name() for x in v.V}, {k.decl().name(), acc.decl().name()}):
            sF = z3.simplify(z3.substitute(step, (at, FALSE)))
            if sF.eq(acc):
                guard = z3.And(guard, at)
                step = z3.simplify(z3.substitute(step, (at, TRUE)))
        f, args = make_fold(k, [acc], [v.init], [step])
        self.folds_used += 1
        r = f.app(0, args, k)
        return r if z3.is_true(guard) else z3.If(z3.simplify(guard), r, v.init)


def flat_forall(kq, rng, c):
    """for all kq in range: c, with an outermost quantifier of c pulled out"""
    if z3.is_quantifier(c) and c.is_forall():
        vs = [z3.Const('$q%d' % next(_uid), c.var_sort(i)) for i in range(c.num_vars())]
        body = z3.substitute_vars(c.body(), *reversed(vs))
        return z3.ForAll([kq] + vs, z3.Implies(rng, body))
    return z3.ForAll([kq], z3.Implies(rng, c))


def all_decls(t):
    seen, out, st = set(), set(), [t]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            out.add(x.decl().name())
            st.extend(x.children())
        elif z3.is_quantifier(x):
            st.append(x.body())
    return out


def index_eqs(t, vs, avoid):
    """equalities in t between an index variable and something that is the same in all iterations"""
    seen, out, st = set(), [], [t]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if z3.is_eq(x) and x.arg(0).sort() == IntS:
                d = all_decls(x)
                if d & vs and not d & avoid:
                    out.append(x)
            st.extend(x.children())
    return out


def conj(c):
    if z3.is_and(c):
        r = []
        for x in c.children():
            r += conj(x)
        return r
    if z3.is_not(c) and z3.is_or(c.arg(0)):
        r = []
        for x in c.arg(0).children():
            r += conj(z3.simplify(z3.Not(x)))
        return r
    return [c]


def linfac(e):
    """e = c * rest with integer c"""
    if z3.is_app_of(e, z3.Z3_OP_MUL) and z3.is_int_value(e.arg(0)):
        ch = e.children()[1:]
        return e.arg(0).as_long(), (ch[0] if len(ch) == 1 else z3.Product(ch))
    return 1, e


def _coef(d, x):
    d1 = z3.simplify(z3.substitute(d, (x, iv(1))))
    d0 = z3.simplify(z3.substitute(d, (x, iv(0))))
    c = z3.simplify(d1 - d0)
    if not z3.is_int_value(c):
        return None, None
    if not z3.simplify(d - (c * x + d0), som=True).eq(iv(0)):
        # verify linearity
        s = z3.simplify(d - c * x - d0, som=True)
        if not s.eq(iv(0)):
            return None, None
    return c.as_long(), d0


def lin_solve(d, k, x):
    """d(k,x) == 0 solved for k when d is linear with unit coefficients"""
    a, r = _coef(d, x)
    if a not in (1, -1):
        return None
    c, r2 = _coef(r, k)
    if c not in (1, -1):
        return None
    # a*x + c*k + r2 == 0  ->  k = -(a*x + r2)/c
    return z3.simplify(-(a * x + r2) * c)


def linear_in(c, k):
    """is the atom a linear comparison in k without k under uninterpreted functions?"""
    nm = k.decl().name()
    st = [c]
    while st:
        x = st.pop()
        if nm not in free_vars(x):
            continue
        if x.eq(k):
            continue
        kd = x.decl().kind()
        if kd in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT, z3.Z3_OP_NOT, z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS):
            st.extend(x.children())
            continue
        if kd == z3.Z3_OP_MUL:
            if all(z3.is_int_value(y) or y.eq(k) for y in x.children()):
                continue
        return False
    return True


def neq_bound(a, k):
    if not z3.is_not(a) or not z3.is_eq(a.arg(0)) or a.arg(0).arg(0).sort() != IntS:
        return None
    x = a.arg(0)
    c, r = _coef(x.arg(0) - x.arg(1), k)
    if not c or k.decl().name() in free_vars(r):
        return None
    if c not in (1, -1):
        r = z3.simplify(r, som=True)
        q = divlin(r, c)
        if q is None:
            return None
        return z3.simplify(-q)
    return z3.simplify(-r * c)


def divlin(r, c):
    """r/c for a linear term with coefficients divisible by c"""
    if z3.is_int_value(r):
        return iv(r.as_long() // c) if r.as_long() % c == 0 else None
    if z3.is_add(r):
        xs = [divlin(x, c) for x in r.children()]
        return None if any(x is None for x in xs) else sum(xs[1:], xs[0])
    if z3.is_mul(r) and r.num_args() == 2 and z3.is_int_value(r.arg(0)) and r.arg(0).as_long() % c == 0:
        return (r.arg(0).as_long() // c) * r.arg(1)
    return None


def solve_for(a, k):
    """from a (negated) comparison extract e such that a constrains k against e"""
    neg = False
    while z3.is_not(a):
        a = a.arg(0)
        neg = not neg
    if not z3.is_app(a) or a.num_args() != 2 or a.arg(0).sort() != IntS:
        return None
    kd = a.decl().kind()
    if kd not in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT, z3.Z3_OP_EQ):
        return None
    if k.decl().name() not in free_vars(a):
        return None
    d = a.arg(0) - a.arg(1)
    c, r = _coef(d, k)
    if c not in (1, -1):
        return None
    if k.decl().name() in free_vars(r):
        return None
    e = z3.simplify(-r * c)
    # boundary: c*k + r (op) 0
    if kd == z3.Z3_OP_LE and neg:        # c*k + r > 0
        e = z3.simplify(e + c)
    elif kd == z3.Z3_OP_GE and neg:      # c*k + r < 0
        e = z3.simplify(e - c)
    elif kd == z3.Z3_OP_LT and not neg:
        e = z3.simplify(e - c)
    elif kd == z3.Z3_OP_GT and not neg:
        e = z3.simplify(e + c)
    return e


def sccs(nodes, deps):
    idx = {}
    low = {}
    st = []
    on = set()
    out = []
    c = [0]

    def rec(v):
        idx[v] = low[v] = c[0]
        c[0] += 1
        st.append(v)
        on.add(v)
        for w in deps.get(v, ()):
            if w not in nodes:
                continue
            if w not in idx:
                rec(w)
                low[v] = min(low[v], low[w])
            elif w in on:
                low[v] = min(low[v], idx[w])
        if low[v] == idx[v]:
            comp = []
            while True:
                w = st.pop()
                on.discard(w)
                comp.append(w)
                if w == v:
                    break
            out.append(comp)
    for v in nodes:
        if v not in idx:
            rec(v)
    return out
