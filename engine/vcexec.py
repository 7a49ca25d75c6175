"""Instruction semantics, calls, exceptions, library models."""
import time
import z3
from vcgen import (Unsup, PathEnd, NeedDef, LoopRestart, Ptr, NULL, UNDEF, is_c, width, tsize, Z, ZB, sgn, simp, lin, unlin, add64, norm64, mul,
                   inrange, bneg, M64, FA, Obj, Frame, State, FVal, OPAQUE_PREFIX, OPAQUE_EXCEPT, STD_BASES, short, fa_hasdef)


class Done(Exception):
    pass


BINOPS = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr'}
FOPS = {'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}


def ft(v):
    return v.t if isinstance(v, FVal) else z3.FPVal(v, z3.Float64())


class ExecMixin(object):
    # ------------------------------------------------------------ driver
    def verify(self, entry):
        """run one entry; returns result dict"""
        t0 = time.time()
        self.deadline = t0 + self.wall
        restarts = 0
        while True:
            self.obl = {}
            self.covers = {}
            self.inputs = []
            self.nfresh = 0
            self.noid = 0
            self.gmap = {}
            self.gpristine = {}
            self.probe = None
            self.ufs = {}
            self.namecnt = {}
            self.reset_solver()
            self.paths = 0
            self.ended = 0
            self.steps = 0
            self.keep = []
            err = None
            st = State()
            fn = self.m.fns[entry]
            self.push_frame(st, fn, [], None)
            self.work = [st]
            try:
                self.run_all()
            except LoopRestart as r:
                self.invloops.add(r.key)
                restarts += 1
                if restarts > 40:
                    err = 'too many loop restarts'
                else:
                    continue
            except Unsup as u:
                err = 'unsupported: ' + str(u)
                if self.work_state is not None:
                    err += ' @ ' + ' < '.join(self.where(self.work_state)[:4])
            except z3.Z3Exception as e:
                err = 'z3: ' + str(e)
                if self.work_state is not None:
                    err += ' @ ' + ' < '.join(self.where(self.work_state)[:4])
            break
        return {'entry': entry, 'obligations': list(self.obl.values()), 'covers': self.covers, 'paths': self.paths, 'ended': self.ended,
                'error': err, 'time': time.time() - t0, 'steps': self.steps, 'restarts': restarts}

    def push_frame(self, st, fn, args, site, onret=None, va=None):
        fr = Frame()
        fr.fn, fr.b, fr.i, fr.prev, fr.site, fr.onret = fn, 0, 0, None, site, onret
        fr.regs = dict(enumerate(args))
        fr.loopcnt, fr.loopfork, fr.inv, fr.allocas = {}, {}, {}, []
        fr.va = va
        self.nfresh += 1
        fr.uid = self.nfresh
        st.frames.append(fr)
        if len(st.frames) > 220:
            raise Unsup('recursion too deep')
        n = fn['name']
        self.fns_executed[n] = self.fns_executed.get(n, 0) + 1
        return fr

    def run_all(self):
        while self.work:
            st = self.work.pop()
            self.run_state(st)

    def run_state(self, st):
        self.work_state = st
        try:
            while True:
                self.steps += 1
                if self.steps > self.maxsteps:
                    raise Unsup('step limit')
                fr = st.frames[-1]
                ins = fr.fn['blocks'][fr.b][fr.i]
                try:
                    self.step(st, fr, ins)
                except NeedDef as nd:
                    key, fa = nd.key
                    cand = self.m.fns[nd.fn]
                    idx = nd.idx
                    self.keep.append((idx, fa))

                    def onret(s, v, key=key, idx=idx, fa=fa):
                        if fa.n < 8 and not isinstance(v, Ptr):
                            v = v & ((1 << (8 * fa.n)) - 1) if is_c(v) else z3.Extract(8 * fa.n - 1, 0, v)
                        s.defmemo[key] = (v, idx, fa)
                    self.push_frame(st, cand, [idx, nd.ctx], 'def', onret)
        except PathEnd:
            self.ended += 1
        except Done:
            pass

    # ------------------------------------------------------------ control
    def goto(self, st, fr, b):
        src = fr.b
        fr.prev = src
        lm = fr.fn['loopmap']
        # leaving loops: forget their counters
        if fr.loopcnt:
            for h in list(fr.loopcnt):
                if b not in lm[h]:
                    del fr.loopcnt[h]
                    fr.loopfork.pop(h, None)
                    fr.loopfork.pop(('f', h), None)
        if fr.inv:
            for h in list(fr.inv):
                if b not in lm[h]:
                    tok = fr.inv.pop(h)
                    if tok.probe is not None and tok.probe is self.probe:
                        raise PathEnd('probe exit')
        if b in lm:
            self.loop_header(st, fr, src, b)   # may end the path or cut the loop
            fr = st.frames[-1]
        else:
            self.enter_block(st, fr, b)

    def enter_block(self, st, fr, b):
        blk = fr.fn['blocks'][b]
        vals = []
        i = 0
        for ins in blk:
            if ins['o'] != 'phi':
                break
            for pb, v in ins['in']:
                if pb == fr.prev:
                    vals.append((ins['d'], self.val(st, fr, v)))
                    break
            else:
                raise Unsup('phi without incoming')
            i += 1
        for d, v in vals:
            fr.regs[d] = v
        fr.b = b
        fr.i = i

    def step(self, st, fr, ins):
        op = ins['o']
        if op in BINOPS:
            if isinstance(ins['t'], dict):
                raise Unsup('vector op')
            a, b = self.val(st, fr, ins['a'][0]), self.val(st, fr, ins['a'][1])
            w = width(ins['t'])
            fr.regs[ins['d']] = self.binop(st, op, a, b, w, ins)
            fr.i += 1
            return
        h = getattr(self, 'i_' + op, None)
        if h is None:
            if op in FOPS:
                return self.fop(st, fr, ins, op)
            raise Unsup('instruction ' + op)
        h(st, fr, ins)

    def i_br(self, st, fr, ins):
        if not ins['a']:
            return self.goto(st, fr, ins['s'][0])
        c = self.val(st, fr, ins['a'][0])
        if not isinstance(c, bool):
            hs = [h for h, blks in fr.fn['loopmap'].items() if fr.b in blks and (ins['s'][0] not in blks or ins['s'][1] not in blks)]
            f0 = st.forks
            for h in hs:            # counted in both branches of a case split
                fr.loopfork[h] = fr.loopfork.get(h, 0) + 1
            c = self.decide(st, c)
            if st.forks == f0:
                for h in hs:
                    fr.loopfork[h] -= 1
        self.goto(st, fr, ins['s'][0] if c else ins['s'][1])

    def i_switch(self, st, fr, ins):
        v = self.val(st, fr, ins['a'][0])
        for cv, b in ins['cs']:
            k = self.const(st, cv)
            if is_c(v):
                if v == k:
                    return self.goto(st, fr, b)
            elif isinstance(v, (bool, z3.BoolRef)):
                if self.decide(st, v if k else bneg(v)):
                    return self.goto(st, fr, b)
            elif self.decide(st, v == k):
                return self.goto(st, fr, b)
        self.goto(st, fr, ins['df'])

    def i_unreachable(self, st, fr, ins):
        self.fail(st, 'control.unreachable-code-not-reached')

    def i_ret(self, st, fr, ins):
        v = self.val(st, fr, ins['a'][0]) if ins['a'] else None
        self.do_ret(st, v)

    def do_ret(self, st, v):
        fr = st.frames.pop()
        if self.probe is not None and len(st.frames) < self.probe.depth:
            raise PathEnd('probe return')
        for oid in fr.allocas:
            if oid in st.objs:
                st.own(oid).live = False
        if not st.frames:
            self.paths += 1
            self.end_state(st)
            raise Done()
        if fr.onret is not None:
            fr.onret(st, v)
            if fr.site == 'def':
                return
        c = st.frames[-1]
        ins = c.fn['blocks'][c.b][c.i]
        self.finish_call(st, c, ins, v)

    def end_state(self, st):
        if self.probe:
            return

    def finish_call(self, st, fr, ins, v):
        if ins['t'] != 'v':
            fr.regs[ins['d']] = v
        if ins['o'] == 'invoke':
            self.goto(st, fr, ins['n'])
        else:
            fr.i += 1

    # ------------------------------------------------------------ data instructions
    def i_phi(self, st, fr, ins):
        raise Unsup('stray phi')

    def i_alloca(self, st, fr, ins):
        n = self.val(st, fr, ins['a'][0])
        size = ins['z'] * n if is_c(n) else mul(z3.ZeroExt(64 - n.size(), n) if n.size() < 64 else n, ins['z'])
        o = self.new_obj(st, 'local%d' % ins['d'], size)
        fr.allocas.append(o.id)
        fr.regs[ins['d']] = Ptr(o.id, 0)
        fr.i += 1

    def i_load(self, st, fr, ins):
        p = self.val(st, fr, ins['a'][0])
        if isinstance(ins['t'], dict):
            t = ins['t']
            if 's' in t:
                v = tuple(self.load(st, Ptr(p.o, add64(p.off, fo)), ftt) for fo, ftt in t['s'])
            else:
                raise Unsup('aggregate load')
        elif ins['t'] == 'ld':
            raise Unsup('long double')
        else:
            v = self.load(st, p, ins['t'])
        fr.regs[ins['d']] = v
        fr.i += 1

    def i_store(self, st, fr, ins):
        v = self.val(st, fr, ins['a'][0])
        p = self.val(st, fr, ins['a'][1])
        if ins['ot'] == 'ld':
            raise Unsup('long double')
        self.store(st, p, v, ins['ot'])
        fr.i += 1

    def i_getelementptr(self, st, fr, ins):
        p = self.val(st, fr, ins['a'][0])
        if ins.get('bad'):
            raise Unsup('gep')
        off = p.off if isinstance(p, Ptr) else None
        if off is None:
            raise Unsup('gep on non-pointer')
        off = add64(off, ins['c'] & M64)
        for v, w, sc in ins['x']:
            x = self.val(st, fr, v)
            if isinstance(x, Ptr):
                x = self.p2i(st, x)
            if w < 64:
                x = sgn(x, w) & M64 if is_c(x) else z3.SignExt(64 - w, x)
            if is_c(x):
                x = x * sc & M64
            else:
                x = mul(x, sc & M64)
            off = add64(off, x)
        fr.regs[ins['d']] = Ptr(p.o, norm64(off))
        fr.i += 1

    def i_icmp(self, st, fr, ins):
        a, b = self.val(st, fr, ins['a'][0]), self.val(st, fr, ins['a'][1])
        fr.regs[ins['d']] = self.icmp(st, ins['p'], a, b, width(ins['ot']))
        fr.i += 1

    def i_select(self, st, fr, ins):
        c = self.val(st, fr, ins['a'][0])
        a, b = ins['a'][1], ins['a'][2]
        t = ins['t']
        if isinstance(c, bool):
            r = self.val(st, fr, a if c else b)
        else:
            x, y = self.val(st, fr, a), self.val(st, fr, b)
            if isinstance(t, str) and t[0] == 'i' and not isinstance(x, Ptr) and not isinstance(y, Ptr):
                w = width(t)
                r = simp(z3.If(c, ZB(x), ZB(y))) if w == 1 else simp(z3.If(c, Z(x, w), Z(y, w)))
            else:
                r = x if self.decide(st, c) else y
        fr.regs[ins['d']] = r
        fr.i += 1

    def cast(self, st, fr, ins, f):
        v = self.val(st, fr, ins['a'][0])
        fr.regs[ins['d']] = f(v, ins['ot'], ins['t'])
        fr.i += 1

    def i_trunc(self, st, fr, ins):
        def f(v, a, b):
            if isinstance(v, Ptr):
                v = self.p2i(st, v)
            w = width(b)
            if w == 1:
                return bool(v & 1) if is_c(v) else simp(z3.Extract(0, 0, v) == 1)
            return v & ((1 << w) - 1) if is_c(v) else simp(z3.Extract(w - 1, 0, v))
        self.cast(st, fr, ins, f)

    def i_zext(self, st, fr, ins):
        def f(v, a, b):
            wa, wb = width(a), width(b)
            if wa == 1:
                if isinstance(v, bool):
                    return int(v)
                return z3.If(v, z3.BitVecVal(1, wb), z3.BitVecVal(0, wb))
            return v if is_c(v) else z3.ZeroExt(wb - wa, v)
        self.cast(st, fr, ins, f)

    def i_sext(self, st, fr, ins):
        def f(v, a, b):
            wa, wb = width(a), width(b)
            if wa == 1:
                if isinstance(v, bool):
                    return (1 << wb) - 1 if v else 0
                return z3.If(v, z3.BitVecVal((1 << wb) - 1, wb), z3.BitVecVal(0, wb))
            return sgn(v, wa) & ((1 << wb) - 1) if is_c(v) else z3.SignExt(wb - wa, v)
        self.cast(st, fr, ins, f)

    def i_ptrtoint(self, st, fr, ins):
        self.cast(st, fr, ins, lambda v, a, b: self.p2i(st, v))

    def i_inttoptr(self, st, fr, ins):
        self.cast(st, fr, ins, lambda v, a, b: self.i2p(st, v))

    def i_bitcast(self, st, fr, ins):
        def f(v, a, b):
            if a == b:
                return v
            return self.conv(st, v, tsize(a), b)
        self.cast(st, fr, ins, f)

    def i_freeze(self, st, fr, ins):
        fr.regs[ins['d']] = self.val(st, fr, ins['a'][0])
        fr.i += 1

    def i_extractvalue(self, st, fr, ins):
        v = self.val(st, fr, ins['a'][0])
        for i in ins['ix']:
            v = v[i]
        fr.regs[ins['d']] = v
        fr.i += 1

    def i_insertvalue(self, st, fr, ins):
        v = self.val(st, fr, ins['a'][0])
        e = self.val(st, fr, ins['a'][1])

        def put(v, ix):
            if not ix:
                return e
            l = list(v)
            l[ix[0]] = put(l[ix[0]], ix[1:])
            return tuple(l)
        fr.regs[ins['d']] = put(v, ins['ix'])
        fr.i += 1

    def i_fence(self, st, fr, ins):
        fr.i += 1

    def i_atomicrmw(self, st, fr, ins):
        p = self.val(st, fr, ins['a'][0])
        v = self.val(st, fr, ins['a'][1])
        old = self.load(st, p, ins['t'])
        w = width(ins['t'])
        if ins['rm'] == 'xchg':
            n = v
        else:
            n = self.binop(st, {'add': 'add', 'sub': 'sub', 'or': 'or', 'and': 'and', 'xor': 'xor'}[ins['rm']], old, v, w)
        self.store(st, p, n, ins['t'])
        fr.regs[ins['d']] = old
        fr.i += 1

    def i_cmpxchg(self, st, fr, ins):
        p, e, n = [self.val(st, fr, a) for a in ins['a'][:3]]
        t = ins['t']['s'][0][1]
        old = self.load(st, p, t)
        if self.decide(st, self.icmp(st, 'eq', old, e, width(t))):
            self.store(st, p, n, t)
            fr.regs[ins['d']] = (old, True)
        else:
            fr.regs[ins['d']] = (old, False)
        fr.i += 1

    # floating point ------------------------------------------------
    def fop(self, st, fr, ins, op):
        a, b = self.val(st, fr, ins['a'][0]), self.val(st, fr, ins['a'][1])
        if isinstance(a, float) and isinstance(b, float):
            try:
                r = {'fadd': lambda: a + b, 'fsub': lambda: a - b, 'fmul': lambda: a * b, 'fdiv': lambda: a / b}[op]()
            except ZeroDivisionError:
                r = float('inf') if a > 0 else float('-inf') if a < 0 else float('nan')
        else:
            rm = z3.RNE()
            x, y = ft(a), ft(b)
            r = FVal({'fadd': lambda: z3.fpAdd(rm, x, y), 'fsub': lambda: z3.fpSub(rm, x, y), 'fmul': lambda: z3.fpMul(rm, x, y),
                      'fdiv': lambda: z3.fpDiv(rm, x, y)}[op]())
        fr.regs[ins['d']] = r
        fr.i += 1

    def i_fneg(self, st, fr, ins):
        a = self.val(st, fr, ins['a'][0])
        fr.regs[ins['d']] = -a if isinstance(a, float) else FVal(z3.fpNeg(a.t))
        fr.i += 1

    def i_fcmp(self, st, fr, ins):
        a, b = self.val(st, fr, ins['a'][0]), self.val(st, fr, ins['a'][1])
        p = ins['p']
        if isinstance(a, float) and isinstance(b, float):
            nan = a != a or b != b
            base = {'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}
            if p == 'ord':
                r = not nan
            elif p == 'uno':
                r = nan
            elif p[0] == 'o':
                r = (not nan) and base[p[1:]]
            else:
                r = nan or base[p[1:]]
        else:
            x, y = ft(a), ft(b)
            nan = z3.Or(z3.fpIsNaN(x), z3.fpIsNaN(y))
            base = {'eq': z3.fpEQ(x, y), 'ne': z3.fpNEQ(x, y), 'lt': z3.fpLT(x, y), 'le': z3.fpLEQ(x, y), 'gt': z3.fpGT(x, y), 'ge': z3.fpGEQ(x, y)}
            if p == 'ord':
                r = z3.Not(nan)
            elif p == 'uno':
                r = nan
            elif p[0] == 'o':
                r = z3.And(z3.Not(nan), base[p[1:]])
            else:
                r = z3.Or(nan, base[p[1:]])
            r = simp(r)
        fr.regs[ins['d']] = r
        fr.i += 1

    def i_uitofp(self, st, fr, ins):
        def f(v, a, b):
            if is_c(v):
                return float(v)
            if isinstance(v, bool):
                return float(v)
            if isinstance(v, z3.BoolRef):
                return 1.0 if self.decide(st, v) else 0.0
            return FVal(z3.fpToFP(z3.RNE(), v, z3.Float64())) if False else FVal(z3.fpUnsignedToFP(z3.RNE(), v, z3.Float64()))
        self.cast(st, fr, ins, f)

    def i_sitofp(self, st, fr, ins):
        def f(v, a, b):
            if is_c(v):
                return float(sgn(v, width(a)))
            return FVal(z3.fpSignedToFP(z3.RNE(), v, z3.Float64()))
        self.cast(st, fr, ins, f)

    def i_fptoui(self, st, fr, ins):
        def f(v, a, b):
            w = width(b)
            if isinstance(v, float):
                return int(v) & ((1 << w) - 1)
            return z3.fpToUBV(z3.RTZ(), v.t, z3.BitVecSort(w))
        self.cast(st, fr, ins, f)

    def i_fptosi(self, st, fr, ins):
        def f(v, a, b):
            w = width(b)
            if isinstance(v, float):
                return int(v) & ((1 << w) - 1)
            return z3.fpToSBV(z3.RTZ(), v.t, z3.BitVecSort(w))
        self.cast(st, fr, ins, f)

    def i_fpext(self, st, fr, ins):
        self.cast(st, fr, ins, lambda v, a, b: v)

    def i_fptrunc(self, st, fr, ins):
        self.cast(st, fr, ins, lambda v, a, b: v if isinstance(v, float) else self._uns('fptrunc'))

    def _uns(self, m):
        raise Unsup(m)

    # ------------------------------------------------------------ exceptions
    def throw(self, st, p, ti):
        """unwind: the current frame's pending instruction is the throwing call"""
        st.exc = {'p': p, 'ti': ti}
        while st.frames:
            fr = st.frames[-1]
            ins = fr.fn['blocks'][fr.b][fr.i]
            if fr.site == 'def':
                raise Unsup('exception inside specification function')
            if ins['o'] == 'invoke':
                b = ins['u']
                fr.prev = fr.b
                lp = None
                for x in fr.fn['blocks'][b]:
                    if x['o'] == 'landingpad':
                        lp = x
                        break
                sel = self.lp_match(st, lp, ti)
                if sel is not None:
                    self.pending_sel = sel
                    st.exc['sel'] = sel
                    return self.goto(st, fr, b)
            fr2 = st.frames.pop()
            if self.probe is not None and len(st.frames) < self.probe.depth:
                raise PathEnd('probe unwind')
            for oid in fr2.allocas:
                if oid in st.objs:
                    st.own(oid).live = False
        if not self.probe:
            rec = 'exceptions.none-escapes'
            st.frames.append(fr2)
            self.fail(st, rec)
        raise PathEnd('uncaught')

    def ti_id(self, n):
        return self.ti_ids.setdefault(n, len(self.ti_ids) + 1)

    def ti_isa(self, t, base):
        if t == base:
            return True
        g = self.m.globals.get(t)
        if g is not None and g[3] is not None and g[3][0] == 'agg':
            els = g[3][2]
            for e in els[2:]:
                if e[0] == 'g' and e[1].startswith('_ZTI') and self.ti_isa(e[1], base):
                    return True
            return False
        b = STD_BASES.get(t)
        return bool(b) and self.ti_isa(b, base)

    def lp_match(self, st, lp, ti):
        for iscatch, c in lp['c']:
            if iscatch:
                if c[0] == 'n':
                    return 9999
                if self.ti_isa(ti, c[1]):
                    return self.ti_id(c[1])
            else:
                # exception specification filter (noexcept functions use terminate handlers instead)
                return 0x7fffffff
        return 0 if lp['cl'] else None

    def i_landingpad(self, st, fr, ins):
        fr.regs[ins['d']] = (st.exc['p'], st.exc['sel'])
        fr.i += 1

    def i_resume(self, st, fr, ins):
        v = self.val(st, fr, ins['a'][0])
        ti = self.exc_ti(st, v[0])
        # unwind from the caller
        fr2 = st.frames.pop()
        if self.probe is not None and len(st.frames) < self.probe.depth:
            raise PathEnd('probe unwind')
        for oid in fr2.allocas:
            if oid in st.objs:
                st.own(oid).live = False
        if not st.frames:
            st.frames.append(fr2)
            self.fail(st, 'exceptions.none-escapes')
        self.throw(st, v[0], ti)

    def exc_ti(self, st, p):
        return st.objs[p.o].fn

    def throw_new(self, st, ti, size=16):
        o = self.new_obj(st, 'exception', size)
        o.fn = ti
        self.throw(st, Ptr(o.id, 0), ti)

    # ------------------------------------------------------------ calls
    def i_invoke(self, st, fr, ins):
        self.call(st, fr, ins)

    def i_call(self, st, fr, ins):
        self.call(st, fr, ins)

    def cstr(self, st, p):
        o = st.objs[p.o]
        s = b''
        i = p.off
        while True:
            c = o.cells.get(i)
            if c is None or not is_c(c[1]):
                return s.decode('latin1') + '?'
            if c[0] != 1:
                return '?'
            if c[1] == 0:
                return s.decode('latin1')
            s += bytes([c[1]])
            i += 1

    def replaced(self, name):
        r = self._repl_cache.get(name)
        if r is None:
            r = ''
            dem = self.m.dem.get(name, name)
            for sub, stub in self.replace:
                if (sub[1:] in (name, dem)) if sub[0] == '=' else (sub == name or (sub in dem)):
                    r = stub
                    break
            self._repl_cache[name] = r
        return r

    def is_opaque(self, name):
        for p in self.extra_opaque:
            if name.startswith(p) or (p in self.m.dem.get(name, '')):
                return True
        for p in OPAQUE_EXCEPT:
            if name.startswith(p):
                return False
        for p in OPAQUE_PREFIX:
            if name.startswith(p):
                return True
        return False

    def call(self, st, fr, ins):
        f = ins['f']
        if f[0] == 'asm':
            fr.i += 1
            return
        if f[0] == 'g':
            name = f[1]
        else:
            p = self.val(st, fr, f)
            if p.o == 0:
                self.fail(st, 'memory.no-null-dereference')
            o = st.objs.get(p.o)
            if o is None:               # function first named on another path
                o = self.gpristine[p.o]
            if o.kind != 'fn':
                raise Unsup('indirect call through %s' % o.name)
            name = o.fn
        if name.startswith('llvm.'):
            return self.intrinsic(st, fr, ins, name)
        args = [self.val(st, fr, a) for a in ins['a'] if a[0] != 'm']
        r = self.replaced(name)
        if r and fr.fn['name'] != r and not any(x.fn['name'] == r for x in st.frames):
            name = r
            if r in self.m.fns:
                fn = self.m.fns[r]
                self.push_frame(st, fn, args[:fn['nargs']], ins)
                return
        m = getattr(self, 'x_' + name, None)
        if m is not None:
            return m(st, fr, ins, args)
        if self.is_opaque(name):
            return self.opaque(st, fr, ins, name, args)
        fn = self.m.fns.get(name)
        if fn is not None:
            for i, bv in enumerate(ins['bv']):
                if bv:
                    o = self.new_obj(st, 'byval', bv)
                    self.memcpy(st, Ptr(o.id, 0), args[i], bv)
                    args[i] = Ptr(o.id, 0)
            self.push_frame(st, fn, args, ins)
            return
        for pre, h in self.XPREFIX:
            if name.startswith(pre):
                return h(self, st, fr, ins, args, name)
        raise Unsup('external function %s (%s)' % (name, self.m.dem.get(name, name)[:200]))

    def opaque(self, st, fr, ins, name, args):
        d = self.m.dem.get(name, name)[:120]
        self.opaque_used[d] = self.opaque_used.get(d, 0) + 1
        t = ins['t']
        if t == 'v':
            v = None
        elif t == 'p':
            v = args[0] if args and isinstance(args[0], Ptr) and ('lsE' in name or 'lsI' in name or 'operator<<' in d) else self.wild(st, 'opaque')
        else:
            v = self.undef(st, t)
        self.finish_call(st, fr, ins, v)

    # contract language ------------------------------------------------
    def named(self, nm):
        k = self.namecnt.get(nm, 0)
        self.namecnt[nm] = k + 1
        return nm

    def inp(self, st, fr, ins, args, w):
        nm = self.cstr(st, args[0])
        self.nfresh += 1
        t = z3.BitVec('%s!%d' % (nm, self.nfresh), w)
        self.inputs.append((nm, t))
        self.finish_call(st, fr, ins, t)

    def x_v_u64(self, st, fr, ins, args):
        self.inp(st, fr, ins, args, 64)

    def x_v_u32(self, st, fr, ins, args):
        self.inp(st, fr, ins, args, 32)

    def x_v_u16(self, st, fr, ins, args):
        self.inp(st, fr, ins, args, 16)

    def x_v_u8(self, st, fr, ins, args):
        self.inp(st, fr, ins, args, 8)

    def x_v_f64(self, st, fr, ins, args):
        nm = self.cstr(st, args[0])
        self.nfresh += 1
        t = z3.FP('%s!%d' % (nm, self.nfresh), z3.Float64())
        self.inputs.append((nm, t))
        self.finish_call(st, fr, ins, FVal(t))

    def x_v_bool(self, st, fr, ins, args):
        nm = self.cstr(st, args[0])
        self.nfresh += 1
        t = z3.Bool('%s!%d' % (nm, self.nfresh))
        self.inputs.append((nm, t))
        self.finish_call(st, fr, ins, t)

    def x_v_assume(self, st, fr, ins, args):
        c = args[0]
        if is_c(c):
            c = bool(c)
        elif isinstance(c, z3.BitVecRef):
            c = c != 0
        self.assume(st, c)
        self.finish_call(st, fr, ins, None)

    def x_v_assert(self, st, fr, ins, args):
        c = args[0]
        if isinstance(c, z3.BitVecRef):
            c = c != 0
        self.oblige(st, c, self.cstr(st, args[1]))
        self.finish_call(st, fr, ins, None)

    def x_v_cover(self, st, fr, ins, args):
        nm = self.cstr(st, args[0])
        if not self.probe:
            if not self.covers.get(nm):
                self.covers[nm] = self.sat(st) != 'unsat'
        self.finish_call(st, fr, ins, None)

    def uf(self, nm, n):
        k = (nm, n)
        if k not in self.ufs:
            self.ufs[k] = z3.Function('uf_%s_%d' % (nm, n), *([z3.BitVecSort(64)] * (n + 1)))
        return self.ufs[k]

    def x_v_uf(self, st, fr, ins, args):
        self.finish_call(st, fr, ins, self.uf(self.cstr(st, args[0]), 1)(Z(args[1], 64)))

    def x_v_uf2(self, st, fr, ins, args):
        self.finish_call(st, fr, ins, self.uf(self.cstr(st, args[0]), 2)(Z(args[1], 64), Z(args[2], 64)))

    def x_v_uf3(self, st, fr, ins, args):
        self.finish_call(st, fr, ins, self.uf(self.cstr(st, args[0]), 3)(Z(args[1], 64), Z(args[2], 64), Z(args[3], 64)))

    def x_v_raw(self, st, fr, ins, args):
        o = self.new_obj(st, self.cstr(st, args[0]), args[1], lazy=True)
        self.finish_call(st, fr, ins, Ptr(o.id, 0))

    def x_v_array(self, st, fr, ins, args):
        if not is_c(args[2]):
            raise Unsup('symbolic stride')
        o = self.new_obj(st, self.cstr(st, args[0]), None, kind='arr', lazy=True, stride=args[2], count=args[1])
        o.heap = True
        self.finish_call(st, fr, ins, Ptr(o.id, 0))

    def x_v_nodes(self, st, fr, ins, args):
        if not is_c(args[2]):
            raise Unsup('symbolic stride')
        o = self.new_obj(st, self.cstr(st, args[0]), None, kind='arr', lazy='nodes', stride=args[2], count=args[1])
        o.heap = True
        self.finish_call(st, fr, ins, Ptr(o.id, 0))

    def x_v_elem_ptr(self, st, fr, ins, args):
        self.elem_def(st, args[0], args[1], 8, args[2], args[3], True)
        self.finish_call(st, fr, ins, None)

    def x_v_elem_int(self, st, fr, ins, args):
        self.elem_def(st, args[0], args[1], args[2], args[3], args[4], False)
        self.finish_call(st, fr, ins, None)

    def x_v_elem_dom(self, st, fr, ins, args):
        o = st.own(args[0].o)
        d = st.objs[args[2].o]
        if not d.stride or not is_c(d.count) or d.count > 1 << 32 or not (is_c(args[2].off) and args[2].off == 0):
            raise Unsup('v_elem_dom')
        self.nfresh += 1
        o.doms = dict(o.doms or {})
        o.doms[(args[1], 8)] = args[2].o
        o.fields[(args[1], 8)] = FA('base', 8, key=z3.Function('dom!%d' % self.nfresh, z3.BitVecSort(64), z3.BitVecSort(64)), isptr=True, dom=args[2].o)
        self.finish_call(st, fr, ins, None)

    def elem_def(self, st, arr, off, n, fn, ctx, isptr):
        o = st.own(arr.o)
        fo = st.objs[fn.o]
        o.fields[(off, n)] = FA('def', n, key=None, fn=fo.fn, ctx=ctx, isptr=isptr)
        self.keep.append(o.fields[(off, n)])

    def x_v_cand_val(self, st, fr, ins, args):
        st.cands.append(('val', args[0]))
        self.finish_call(st, fr, ins, None)

    def x_v_cand_index(self, st, fr, ins, args):
        st.cands.append(('idx', args[0], args[1]))
        self.finish_call(st, fr, ins, None)

    def x_v_cand(self, st, fr, ins, args):
        st.cands.append(('b', args[0]))
        self.finish_call(st, fr, ins, None)

    def x_v_inv(self, st, fr, ins, args):
        st.cands.append(('fn', st.objs[args[0].o].fn, args[1], args[2] if is_c(args[2]) else 0))
        self.finish_call(st, fr, ins, None)

    def x_v_invq(self, st, fr, ins, args):
        # args: fn, ctx, lo, hi, instance array (up to 4 values)
        J = self.fresh('forall', 64)
        st.cands.append(('fn', st.objs[args[0].o].fn, args[1], 3, args[2], args[3], J, [args[4], args[5]]))
        self.finish_call(st, fr, ins, None)

    def x_v_inv2(self, st, fr, ins, args):
        st.cands.append(('fn', st.objs[args[0].o].fn, args[1], 4))
        self.finish_call(st, fr, ins, None)

    def x_v_invp2(self, st, fr, ins, args):
        st.cands.append(('fn', st.objs[args[0].o].fn, args[1], 5))
        self.finish_call(st, fr, ins, None)

    def x_v_invpi(self, st, fr, ins, args):
        st.cands.append(('fn', st.objs[args[0].o].fn, args[1], 6))
        self.finish_call(st, fr, ins, None)

    def x_v_invp(self, st, fr, ins, args):
        st.cands.append(('fn', st.objs[args[0].o].fn, args[1], 2))
        self.finish_call(st, fr, ins, None)

    def x_v_note(self, st, fr, ins, args):
        st.notes.append((self.cstr(st, args[0]), args[1]))
        self.finish_call(st, fr, ins, None)

    def x_v_same_obj(self, st, fr, ins, args):
        self.finish_call(st, fr, ins, args[0].o == args[1].o)

    def x_v_is_live(self, st, fr, ins, args):
        p = args[0]
        if p.o == 0:
            return self.finish_call(st, fr, ins, False)
        o = st.objs[p.o]
        r = o.live
        if o.dead:
            idx, f = self.split(o, p.off)
            r = simp(z3.And([Z(d, 64) != Z(idx, 64) for d in o.dead]))
        self.finish_call(st, fr, ins, r)

    def x_v_fresh_objs(self, st, fr, ins, args):
        self.finish_call(st, fr, ins, st.nalloc & M64)

    # allocation -------------------------------------------------------
    def alloc(self, st, size, nm):
        st.nalloc += 1
        return self.new_obj(st, nm, norm64(simp(size)) if not is_c(size) else size, heap=True)

    def m_new(self, st, fr, ins, args, name):
        o = self.alloc(st, args[0], 'heap@' + short(ins.get('l', '?')))
        self.finish_call(st, fr, ins, Ptr(o.id, 0))

    def m_delete(self, st, fr, ins, args, name):
        p = args[0]
        if p.o == 0:
            return self.finish_call(st, fr, ins, None)
        o = st.objs[p.o]
        if o.kind == 'opaque':
            if self.decide(st, o.nullb):
                return self.finish_call(st, fr, ins, None)
            st.own(p.o).live = False
            return self.finish_call(st, fr, ins, None)
        if o.kind == 'arr' or o.kind == 'flat':
            off = simp(p.off)
            if o.kind == 'arr' and o.lazy == 'nodes':
                # every element models one heap node of its own
                idx, f = self.split(o, p.off)
                if f != 0:
                    self.fail(st, 'memory.free-of-block-start')
                for d in o.dead:
                    self.oblige(st, (d != idx) if is_c(d) and is_c(idx) else Z(d, 64) != Z(idx, 64), 'memory.no-double-free')
                self.oblige(st, idx < o.count if is_c(idx) and is_c(o.count) else z3.ULT(Z(idx, 64), Z(o.count, 64)), 'memory.in-bounds')
                oo = st.own(p.o)
                oo.dead = oo.dead + (idx,)
                st.nalloc -= 1
                return self.finish_call(st, fr, ins, None)
            if is_c(off):
                if off != 0:
                    self.fail(st, 'memory.free-of-block-start')
            else:
                self.oblige(st, off == 0, 'memory.free-of-block-start')
            if not o.live:
                self.fail(st, 'memory.no-double-free')
            st.nalloc -= 1
            st.own(p.o).live = False
        self.finish_call(st, fr, ins, None)

    def x_free(self, st, fr, ins, args):
        self.m_delete(st, fr, ins, args, 'free')

    def x_malloc(self, st, fr, ins, args):
        self.m_new(st, fr, ins, args, 'malloc')

    def x_calloc(self, st, fr, ins, args):
        sz = self.binop(st, 'mul', args[0], args[1], 64)
        o = self.alloc(st, sz, 'calloc')
        self.memset(st, Ptr(o.id, 0), 0, sz)
        self.finish_call(st, fr, ins, Ptr(o.id, 0))

    def x_memcpy(self, st, fr, ins, args):
        self.memcpy(st, args[0], args[1], args[2])
        self.finish_call(st, fr, ins, args[0])

    x_memmove = x_memcpy

    def x_memset(self, st, fr, ins, args):
        b = args[1]
        self.memset(st, args[0], b & 255 if is_c(b) else z3.Extract(7, 0, b), args[2])
        self.finish_call(st, fr, ins, args[0])

    def x_memcmp(self, st, fr, ins, args):
        n = args[2]
        if not is_c(n) or n > 64:
            raise Unsup('memcmp')
        r = 0
        res = None
        for i in range(n):
            a = self.load(st, Ptr(args[0].o, add64(args[0].off, i)), 'i8')
            b = self.load(st, Ptr(args[1].o, add64(args[1].off, i)), 'i8')
            if self.decide(st, self.icmp(st, 'ne', a, b, 8)):
                res = 0xffffffff if self.decide(st, self.icmp(st, 'ult', a, b, 8)) else 1
                break
        self.finish_call(st, fr, ins, r if res is None else res)

    x_bcmp = x_memcmp

    def x_strlen(self, st, fr, ins, args):
        if args[0].o and st.objs[args[0].o].kind == 'opaque':
            return self.finish_call(st, fr, ins, self.fresh('strlen', 64))
        self.finish_call(st, fr, ins, len(self.cstr(st, args[0])))

    # C++ runtime --------------------------------------------------------
    def x___cxa_allocate_exception(self, st, fr, ins, args):
        o = self.new_obj(st, 'exception', args[0])
        self.finish_call(st, fr, ins, Ptr(o.id, 0))

    def x___cxa_free_exception(self, st, fr, ins, args):
        self.finish_call(st, fr, ins, None)

    def x___cxa_throw(self, st, fr, ins, args):
        ti = st.objs[args[1].o].name
        st.own(args[0].o).fn = ti
        self.throw(st, args[0], ti)

    def x___cxa_begin_catch(self, st, fr, ins, args):
        st.caught.append(args[0])
        self.finish_call(st, fr, ins, args[0])

    def x___cxa_end_catch(self, st, fr, ins, args):
        if st.caught:
            st.caught.pop()
        self.finish_call(st, fr, ins, None)

    def x___cxa_rethrow(self, st, fr, ins, args):
        p = st.caught.pop()
        self.throw(st, p, self.exc_ti(st, p))

    def x___cxa_get_exception_ptr(self, st, fr, ins, args):
        self.finish_call(st, fr, ins, args[0])

    def x___cxa_guard_acquire(self, st, fr, ins, args):
        v = self.load(st, args[0], 'i8')
        if is_c(v) and v:
            return self.finish_call(st, fr, ins, 0)
        self.finish_call(st, fr, ins, 1)

    def x___cxa_guard_release(self, st, fr, ins, args):
        self.store(st, args[0], 1, 'i8')
        self.finish_call(st, fr, ins, None)

    def x___cxa_guard_abort(self, st, fr, ins, args):
        self.finish_call(st, fr, ins, None)

    def x___cxa_atexit(self, st, fr, ins, args):
        self.finish_call(st, fr, ins, 0)

    def x___clang_call_terminate(self, st, fr, ins, args):
        self.fail(st, 'exceptions.no-terminate')

    def x__ZSt9terminatev(self, st, fr, ins, args):
        self.fail(st, 'exceptions.no-terminate')

    def x_abort(self, st, fr, ins, args):
        self.fail(st, 'control.no-abort')

    def x___assert_fail(self, st, fr, ins, args):
        self.fail(st, 'control.no-assert-failure')

    def x___glibcxx_assert_fail(self, st, fr, ins, args):
        self.fail(st, 'control.no-assert-failure')

    def x__ZSt21__glibcxx_assert_failPKciS0_S0_(self, st, fr, ins, args):
        self.fail(st, 'control.no-assert-failure')

    def x___cxa_pure_virtual(self, st, fr, ins, args):
        self.fail(st, 'control.no-pure-virtual-call')

    def x_exit(self, st, fr, ins, args):
        raise PathEnd('exit')

    def m_stdthrow(self, st, fr, ins, args, name):
        for k, ti in (('out_of_range', '_ZTISt12out_of_range'), ('length_error', '_ZTISt12length_error'), ('logic_error', '_ZTISt11logic_error'),
                      ('bad_alloc', '_ZTISt9bad_alloc'), ('bad_array_new', '_ZTISt9bad_alloc'), ('invalid_argument', '_ZTISt16invalid_argument'),
                      ('runtime_error', '_ZTISt13runtime_error'), ('bad_function_call', '_ZTISt17bad_function_call'), ('bad_weak_ptr', '_ZTISt12bad_weak_ptr'),
                      ('bad_cast', '_ZTISt8bad_cast'), ('overflow_error', '_ZTISt13runtime_error'), ('domain_error', '_ZTISt12domain_error')):
            if k in name:
                return self.throw_new(st, ti)
        raise Unsup(name)

    # std::list hooks (libstdc++.so)
    def x__ZNSt8__detail15_List_node_base7_M_hookEPS0_(self, st, fr, ins, args):
        n, pos = args
        prev = self.load(st, Ptr(pos.o, add64(pos.off, 8)), 'p')
        # decide all accesses before mutating
        self.access(st, prev, 8, 'store')
        self.access(st, n, 16, 'store')
        self.store(st, n, pos, 'p')
        self.store(st, Ptr(n.o, add64(n.off, 8)), prev, 'p')
        self.store(st, prev, n, 'p')
        self.store(st, Ptr(pos.o, add64(pos.off, 8)), n, 'p')
        self.finish_call(st, fr, ins, None)

    def x__ZNSt8__detail15_List_node_base9_M_unhookEv(self, st, fr, ins, args):
        n = args[0]
        nx = self.load(st, n, 'p')
        pv = self.load(st, Ptr(n.o, add64(n.off, 8)), 'p')
        self.access(st, nx, 8, 'store')
        self.access(st, pv, 8, 'store')
        self.store(st, pv, nx, 'p')
        self.store(st, Ptr(nx.o, add64(nx.off, 8)), pv, 'p')
        self.finish_call(st, fr, ins, None)

    def x__ZNSt8__detail15_List_node_base11_M_transferEPS0_S1_(self, st, fr, ins, args):
        pos, first, last = args

        def nx(p):
            return p

        def pv(p):
            return Ptr(p.o, add64(p.off, 8))
        if self.decide(st, self.pcmp(st, 'ne', pos, last)):
            lp = self.load(st, pv(last), 'p')
            fp = self.load(st, pv(first), 'p')
            pp = self.load(st, pv(pos), 'p')
            for q in (lp, fp, pp, first, last, pos):
                self.access(st, q, 8, 'store')
            self.store(st, nx(lp), pos, 'p')
            self.store(st, nx(fp), last, 'p')
            self.store(st, nx(pp), first, 'p')
            self.store(st, pv(pos), lp, 'p')
            self.store(st, pv(last), fp, 'p')
            self.store(st, pv(first), pp, 'p')
        self.finish_call(st, fr, ins, None)

    def m_noop(self, st, fr, ins, args, name):
        t = ins['t']
        self.finish_call(st, fr, ins, None if t == 'v' else (0 if t != 'p' else self.wild(st, 'lib')))

    def x_pow(self, st, fr, ins, args):
        if all(isinstance(a, float) for a in args):
            return self.finish_call(st, fr, ins, args[0] ** args[1])
        raise Unsup('pow')

    XPREFIX = [
        ('_Znwm', m_new), ('_Znam', m_new), ('_ZdlPv', m_delete), ('_ZdaPv', m_delete),
        ('_ZSt20__throw', m_stdthrow), ('_ZSt17__throw', m_stdthrow), ('_ZSt24__throw', m_stdthrow), ('_ZSt19__throw', m_stdthrow),
        ('_ZSt28__throw', m_stdthrow), ('_ZSt25__throw', m_stdthrow), ('_ZSt16__throw', m_stdthrow), ('_ZSt21__throw', m_stdthrow),
        ('_ZSt18__throw', m_stdthrow), ('_ZSt22__throw', m_stdthrow), ('_ZSt23__throw', m_stdthrow), ('_ZSt26__throw', m_stdthrow), ('_ZSt27__throw', m_stdthrow), ('_ZSt29__throw', m_stdthrow),
        ('pthread_mutex', m_noop), ('__gthread', m_noop),
    ]

    # ------------------------------------------------------------ intrinsics
    def intrinsic(self, st, fr, ins, name):
        n = name[5:]
        A = [self.val(st, fr, a) for a in ins['a'] if a[0] != 'm']
        r = None
        if n.startswith(('lifetime', 'dbg', 'assume', 'experimental.noalias', 'invariant', 'stackrestore', 'prefetch', 'donothing', 'va_', 'instrprof')):
            if n.startswith('lifetime') and isinstance(A[-1], Ptr) and A[-1].o and is_c(A[-1].off) and A[-1].off == 0:
                # the local variable's contents are indeterminate outside its lifetime
                o = st.objs[A[-1].o]
                if not o.stride and not o.lazy and o.id in fr.allocas:
                    st.own(o.id).cells = {}
                    if st.log is not None:
                        for k in [k for k in st.log if k[0] == 'c' and k[1] == o.id]:
                            del st.log[k]
        elif n.startswith('stacksave'):
            r = NULL
        elif n.startswith(('memcpy', 'memmove')):
            self.memcpy(st, A[0], A[1], A[2])
        elif n.startswith('memset'):
            self.memset(st, A[0], A[1], A[2])
        elif n.startswith('expect'):
            r = A[0]
        elif n.startswith('trap') or n.startswith('ubsantrap'):
            self.fail(st, 'control.no-trap')
        elif n.startswith('eh.typeid.for'):
            r = self.ti_id(st.objs[A[0].o].name)
        elif n.startswith('objectsize'):
            r = M64
        elif n.startswith('is.constant'):
            r = False
        elif n.startswith('ptrmask') or n.startswith('launder') or n.startswith('strip'):
            r = A[0]
        elif n.startswith('threadlocal.address'):
            r = A[0]
        else:
            t = ins['t']
            if n.startswith(('umul.with', 'uadd.with', 'usub.with', 'smul.with', 'sadd.with', 'ssub.with')):
                w = width(t['s'][0][1])
                a, b = Z(A[0], w), Z(A[1], w)
                op = n[1:4]
                s = n[0] == 's'
                k = 2 * w if op == 'mul' else w + 1
                ext = (z3.SignExt if s else z3.ZeroExt)
                ea, eb = ext(k - w, a), ext(k - w, b)
                full = {'mul': ea * eb, 'add': ea + eb, 'sub': ea - eb}[op]
                res = z3.Extract(w - 1, 0, full)
                r = (simp(res), simp(ext(k - w, res) != full))
            else:
                if t in ('d', 'f'):
                    if n.startswith('fabs') and isinstance(A[0], float):
                        r = abs(A[0])
                    elif n.startswith('fmuladd') and all(isinstance(x, float) for x in A):
                        r = A[0] * A[1] + A[2]
                    elif n.startswith('fmuladd'):
                        r = FVal(z3.fpAdd(z3.RNE(), z3.fpMul(z3.RNE(), ft(A[0]), ft(A[1])), ft(A[2])))
                    elif n.startswith('fabs'):
                        r = FVal(z3.fpAbs(ft(A[0])))
                    elif n.startswith(('floor', 'ceil', 'trunc', 'rint', 'nearbyint', 'round')):
                        rm = z3.RTN() if n.startswith('floor') else z3.RTP() if n.startswith('ceil') else z3.RTZ() if n.startswith('trunc') else z3.RNE()
                        if isinstance(A[0], float):
                            import math
                            r = float(math.floor(A[0]) if n.startswith('floor') else math.ceil(A[0]) if n.startswith('ceil') else math.trunc(A[0]) if n.startswith('trunc') else round(A[0]))
                        else:
                            r = FVal(z3.fpRoundToIntegral(rm, A[0].t))
                    else:
                        raise Unsup('intrinsic ' + n)
                else:
                    w = width(t)
                    r = self.int_intrinsic(st, n, A, w)
        self.finish_call(st, fr, ins, r)

    def int_intrinsic(self, st, n, A, w):
        m = (1 << w) - 1
        a = Z(A[0], w)
        if n.startswith(('umin', 'umax', 'smin', 'smax')):
            b = Z(A[1], w)
            c = {'umin': z3.ULT, 'umax': z3.UGT, 'smin': lambda x, y: x < y, 'smax': lambda x, y: x > y}[n[:4]](a, b)
            return simp(z3.If(c, a, b))
        if n.startswith('abs'):
            return simp(z3.If(a < 0, -a, a))
        if n.startswith('bswap'):
            k = w // 8
            return simp(z3.Concat(*[z3.Extract(8 * i + 7, 8 * i, a) for i in range(k)]))
        if n.startswith('ctpop'):
            s = z3.BitVecVal(0, w)
            for i in range(w):
                s = s + z3.ZeroExt(w - 1, z3.Extract(i, i, a))
            return simp(s)
        if n.startswith(('ctlz', 'cttz')):
            if not is_c(A[0]) and A[1] is True:
                self.oblige(st, a != 0, 'arithmetic.count-zeros-of-nonzero')
            elif is_c(A[0]) and A[0] == 0 and A[1] is True:
                self.oblige(st, False, 'arithmetic.count-zeros-of-nonzero')
            r = z3.BitVecVal(w, w)
            rng = range(w) if n.startswith('ctlz') else range(w - 1, -1, -1)
            for i in rng:
                r = z3.If(z3.Extract(i, i, a) == 1, z3.BitVecVal(w - 1 - i if n.startswith('ctlz') else i, w), r)
            return simp(r)
        if n.startswith(('fshl', 'fshr')):
            b = Z(A[1], w)
            s = A[2]
            if is_c(s):
                s %= w
                full = z3.Concat(a, b)
                if n.startswith('fshl'):
                    return simp(z3.Extract(2 * w - 1 - s, w - s, full))
                return simp(z3.Extract(s + w - 1, s, full))
            full = z3.Concat(a, b)
            sz = z3.ZeroExt(w, z3.URem(s, z3.BitVecVal(w, w)))
            if n.startswith('fshl'):
                return simp(z3.Extract(2 * w - 1, w, full << sz))
            return simp(z3.Extract(w - 1, 0, z3.LShR(full, sz)))
        if n.startswith(('usub.sat', 'uadd.sat')):
            b = Z(A[1], w)
            if n.startswith('usub'):
                return simp(z3.If(z3.ULT(a, b), z3.BitVecVal(0, w), a - b))
            return simp(z3.If(z3.ULT(a + b, a), z3.BitVecVal(m, w), a + b))
        if n.startswith('bitreverse'):
            return simp(z3.Concat(*[z3.Extract(i, i, a) for i in range(w)]))
        raise Unsup('intrinsic ' + n)
