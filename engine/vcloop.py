"""Loops: bounded ones are executed; all others are cut by proved inductive invariants."""
import itertools
import os
import sys
import z3
from vcgen import (Unsup, PathEnd, NeedDef, LoopRestart, Ptr, NULL, is_c, width, tsize, Z, ZB, sgn, simp, lin, unlin, add64, norm64, mul,
                   inrange, bneg, M64, FA, Obj, FVal, short, logw, fa_isptr)


DBG = os.environ.get('VCDBG')


class Token(object):
    def __init__(self, probe):
        self.probe = probe


class Probe(object):
    def __init__(self, depth):
        self.depth = depth
        self.backs = []
        self.cmps = []


class LV(object):
    """loop variable: a phi or a modified memory cell"""

    def __init__(self, kind, key, t, init):
        self.kind, self.key, self.t, self.init = kind, key, t, init
        self.dom = []

    def __repr__(self):
        return 'LV(%s,%s,%s)' % (self.kind, self.key, self.t)


class InvF(object):
    """contract-function invariant: axioms about the initial ghost state used, and the formula"""

    def __init__(self, ax, f, more=None):
        self.ax, self.f, self.more = ax, f, more     # more: further instances of a quantified invariant (assumed form only)


def pf(e):
    return z3.Implies(e.ax, e.f) if isinstance(e, InvF) else e


def af(e):
    if not isinstance(e, InvF):
        return e
    return z3.And([e.ax, e.f] + [af(x) for x in (e.more() if e.more else [])])


class LoopMixin(object):
    def eval_fn(self, st, fnname, args):
        """run a contract predicate on state st; -> InvF"""
        s = st.clone()
        s.log = None
        n0 = len(s.pc)
        s.assumed = []
        fn = self.m.fns[fnname]
        res = []

        def onret(q, v):
            br = []
            am = dict(q.assumed)
            axl = []
            for i in range(n0, len(q.pc)):
                if i not in am:
                    br.append(q.pc[i])
                else:
                    axl.append(z3.Implies(z3.And([ZB(x) for x in br]), ZB(am[i])) if br else ZB(am[i]))
            v = (v != 0) if isinstance(v, z3.BitVecRef) else bool(v) if is_c(v) else v
            res.append((br, axl, v))
            raise PathEnd('eval')
        saved_work, saved_probe, saved_ended = self.work, self.probe, self.ended
        self.work = [s]
        self.probe = Probe(len(s.frames))
        try:
            self.push_frame(s, fn, args, 'def', onret)
            self.run_all()
        finally:
            self.work, self.probe, self.ended = saved_work, saved_probe, saved_ended
        axs = [x for br, am, v in res for x in am]
        fs = [z3.And([ZB(x) for x in br] + [ZB(v)]) for br, am, v in res]
        return InvF(z3.And(axs) if axs else z3.BoolVal(True), z3.Or(fs) if fs else z3.BoolVal(False))

    def eval_forall(self, mst, fn, ctx, v, lo, hi, J, insts):
        """for all j in [lo,hi): fn(ctx, v, j).  Proved for the otherwise unconstrained constant J;
        assumed for J, for the loop variable and for the instances the contract names."""
        def inst(j):
            e = self.eval_fn(mst, fn, [ctx, v, j])
            g = z3.And(Z(lo, 64) <= Z(j, 64), Z(j, 64) < Z(hi, 64))
            return InvF(z3.Implies(g, e.ax), z3.Implies(g, e.f))
        e = inst(J)
        e.more = lambda: [inst(j) for j in [v] + list(insts)]
        return e

    def loop_header(self, st, fr, src, b):
        lm = fr.fn['loopmap'][b]
        key = (fr.fn['name'], b)
        if src in lm:
            tok = fr.inv.get(b)
            if tok is not None:
                if tok.probe is not None and tok.probe is self.probe:
                    phis = {}
                    for ins in fr.fn['blocks'][b]:
                        if ins['o'] != 'phi':
                            break
                        for pb, v in ins['in']:
                            if pb == src:
                                phis[ins['d']] = self.val(st, fr, v)
                    self.probe.backs.append((st, phis))
                raise PathEnd('back edge of cut loop')
            fr.loopcnt[b] = fr.loopcnt.get(b, 0) + 1
            lf, nf = fr.loopfork.get(('f', b), (st.forks, 0))
            if st.forks != lf:
                nf += 1          # an iteration with a case split of any kind
            fr.loopfork[('f', b)] = (st.forks, nf)
            hint = any(c[0] == 'fn' for c in st.cands)
            if self.bmc is not None:
                if max(fr.loopfork.get(b, 0), nf if nf > 60 else 0) > self.bmc:
                    raise PathEnd('bounded mode')
            elif fr.loopfork.get(b, 0) > (1 if hint else self.max_unroll) or nf > (2 if hint else 12):
                raise LoopRestart(key)
            if fr.loopcnt[b] > 20000:
                raise Unsup('loop bound exceeded')
            return self.enter_block(st, fr, b)
        if key in self.invloops:
            return self.cut_loop(st, fr, src, b)
        fr.loopcnt[b] = 0
        fr.loopfork[b] = 0
        fr.loopfork.pop(('f', b), None)
        self.enter_block(st, fr, b)

    # ------------------------------------------------------------ helpers
    def dom_of(self, st, v):
        """domain element of a pointer value"""
        if v.o == 0:
            return ('null',)
        o = st.objs[v.o]
        if o.kind == 'arr':
            i, f = self.split(o, v.off)
            return ('arr', v.o, f)
        off = simp(v.off)
        if not is_c(off):
            if o.kind == 'flat' and not is_c(o.size) and o.stride is None:
                raise Unsup('loop pointer into block of unknown element size')
            raise Unsup('symbolic loop pointer into ' + o.name)
        return ('flat', v.o, off)

    def idx_of(self, st, v):
        o = st.objs[v.o]
        return self.split(o, v.off)[0]

    def paths_of(self, st, fn):
        """run fn on st, following every case split made by decide(); True iff all return True"""
        saved = self.work
        self.work = [st]
        ok = True
        try:
            while self.work and ok:
                s = self.work.pop()
                try:
                    ok = fn(s)
                except PathEnd:
                    pass
        finally:
            self.work = saved
        return ok

    def filter_valid(self, st, cs):
        """indices of candidate formulas valid in st"""
        alive = []
        hard = set()

        def valid1(i, c):
            r = self.sat(st, z3.Not(c))
            if r == 'unknown' and i in hard:
                r = self.ext_check(st, z3.Not(c))
            return r == 'unsat'
        for i, c in cs:
            if isinstance(c, InvF):
                hard.add(i)
            c = pf(c)
            c = simp(c) if not isinstance(c, bool) else c
            if c is True or c is False:
                if c:
                    alive.append((i, True))
                continue
            alive.append((i, c))
        done = [i for i, c in alive if c is True]
        alive = [(i, c) for i, c in alive if c is not True]
        guard = 0
        while alive:
            guard += 1
            q = z3.Not(z3.And([c for _, c in alive])) if len(alive) > 1 else z3.Not(alive[0][1])
            r = self.sat(st, q)
            if r == 'unsat':
                break
            if r == 'unknown' or guard > 200:
                alive = [(i, c) for i, c in alive if valid1(i, c)]
                break
            m = self.model
            n2 = [(i, c) for i, c in alive if z3.is_true(m.eval(c, model_completion=True))]
            if len(n2) == len(alive):
                alive = [(i, c) for i, c in alive if valid1(i, c)]
                break
            alive = n2
        return set(done) | set(i for i, _ in alive)

    # ------------------------------------------------------------ the cut
    def cut_loop(self, st, fr, src, b):
        fn = fr.fn
        blks = fn['loopmap'][b]
        depth = len(st.frames)
        lvs = []
        for ins in fn['blocks'][b]:
            if ins['o'] != 'phi':
                break
            for pb, v in ins['in']:
                if pb == src:
                    lvs.append(LV('phi', ins['d'], ins['t'], self.val(st, fr, v)))
        for lv in lvs:
            if lv.t == 'p':
                lv.dom = [self.dom_of(st, lv.init)]
        # make sure arrays of unknown shape reachable here stay put
        fields = {}     # (oid,f,n) -> pattern or None
        bounds = {}     # width -> {id: term}
        memo = self.loopmemo.get((fn['name'], b)) if self.lean else None
        predrop = set()
        if memo:
            # what the previous analysis of this loop found out: more is forgotten at the head, fewer candidates are tried
            for key, t, doms in memo[0]:
                oid, off, n = key
                if oid in st.objs and st.objs[oid].live and all(d[0] == 'null' or d[1] in st.objs for d in doms):
                    c0 = st.objs[oid].cells.get(off)
                    if not c0 or c0[0] != n or isinstance(c0[1], Ptr) != (t == 'p'):
                        continue
                    lv = LV('cell', key, t, c0[1])
                    if t == 'p':
                        d0 = self.dom_of(st, c0[1])
                        lv.dom = [d0] + [d for d in doms if d != d0]
                    lvs.append(lv)
            for k in memo[1]:
                if k[0] in st.objs and (k[1], k[2]) in st.objs[k[0]].fields:
                    fields[k] = None
            pass
        dropped = set(predrop)
        nprobe = 0
        facts_seen = None
        saved_probe, saved_work = self.probe, self.work
        fields_tried = set()
        while True:
            nprobe += 1
            if nprobe > 60:
                raise Unsup('loop invariant inference did not converge')
            doms = [lv.dom if lv.t == 'p' else [None] for lv in lvs]
            combos = list(itertools.product(*doms))
            if len(combos) > 12:
                raise Unsup('too many pointer shapes in loop')
            self.probe = pr = Probe(depth)
            if DBG:
                print('PROBE', b, nprobe, len(fields), [(lv, lv.dom) for lv in lvs], list(fields), len(dropped), file=sys.stderr)
            heads = []
            redo = False
            try:
                for combo in combos:
                    h, vals = self.make_head(st, fr, b, lvs, combo, fields)
                    heads.append((h, vals, combo))
                    cs = self.candidates(st, lvs, vals, bounds, h)
                    if facts_seen is None:
                        pass
                    # entry filter
                    init_ok = getattr(self, '_init_ok', None)
                    live = [(k, e) for k, e in cs if k not in dropped]
                    # check on entry
                    ivals = [self.init_val(st, lv, dm) for lv, dm in zip(lvs, combo)]
                    if all(iv is not None for iv in ivals):
                        ics = dict(self.candidates(st, lvs, ivals, bounds, st))
                        good = self.filter_valid(st, [(k, ics[k]) for k, _ in live if k in ics])
                        for k, _ in live:
                            if k not in good:
                                dropped.add(k)
                                if DBG and 'pfn' in k or DBG and 'fn' in k:
                                    print('NOTINIT', b, k, file=sys.stderr)
                                    if DBG == '2':
                                        print(self.sat(st, z3.Not(pf(ics[k]))), self.model, file=sys.stderr)
                        live = [(k, e) for k, e in live if k not in dropped]
                    h2 = h.clone()
                    h2.log = {}
                    infeasible = False
                    for k, e in live:
                        e = simp(af(e))
                        if e is False:
                            infeasible = True
                        elif e is not True:
                            h2.pc.append(e)
                    if infeasible or self.sat(h2) == 'unsat':
                        continue
                    h2.frames[-1].inv[b] = Token(pr)
                    h2.tag = (vals, combo)
                    nb = len(pr.backs)
                    self.work = [h2]
                    self.run_all()
                    for i in range(nb, len(pr.backs)):
                        pr.backs[i] = pr.backs[i] + (vals, combo)
            finally:
                self.probe, self.work = saved_probe, saved_work
            # ---- new bounds
            headsyms = set()
            for h, vals, combo in heads:
                for v in vals:
                    for t in self.terms(v):
                        if not is_c(t):
                            headsyms.add(t.get_id())
            nbnd = 0
            if nprobe <= 3:
                for a, c, w in pr.cmps:
                    for x, y in ((a, c), (c, a)):
                        if is_c(y) or not self.mentions(y, headsyms, st):
                            if not is_c(x) and self.mentions(x, headsyms, st):
                                bd = bounds.setdefault(w, {})
                                kk = ('c', y) if is_c(y) else y.get_id()
                                if kk not in bd and len(bd) < 12:
                                    bd[kk] = y
                                    nbnd += 1
            if nbnd:
                redo = True
            # ---- new modified cells / fields / pointer targets
            newcell = False
            for back in pr.backs:
                bst, phis, vals, combo = back
                # cells first: array patterns are derived once all the loop variables are known
                for k in sorted(bst.log, key=lambda k: k[0] != 'c'):
                    if k[0] != 'c' and newcell:
                        break
                    if k[0] == 'c':
                        _, oid, off, n = k
                        if oid not in st.objs or not st.objs[oid].live:
                            continue
                        if any(lv.kind == 'cell' and lv.key == (oid, off, n) for lv in lvs):
                            continue
                        o = st.objs[oid]
                        ov = [lv for lv in lvs if lv.kind == 'cell' and lv.key[0] == oid and lv.key[1] < off + n and lv.key[1] + lv.key[2] > off]
                        if ov:
                            raise Unsup('overlapping loop cells')
                        cell = bst.objs[oid].cells.get(off)
                        v = cell[1] if cell and cell[0] == n else None
                        c0 = o.cells.get(off)
                        if c0 and c0[0] == n and not isinstance(c0[1], (Ptr, float)) and (v is None or not isinstance(v, (Ptr, float, FVal))):
                            lv = LV('cell', (oid, off, n), 'i%d' % (8 * n), c0[1])
                        elif isinstance(v, Ptr):
                            iv = self.flat_load(st, oid, off, n, 'p')
                            lv = LV('cell', (oid, off, n), 'p', iv)
                            lv.dom = [self.dom_of(st, iv)]
                        elif isinstance(v, (float, FVal)):
                            lv = LV('cell', (oid, off, n), 'd', self.flat_load(st, oid, off, n, 'd'))
                        else:
                            lv = LV('cell', (oid, off, n), 'i%d' % (8 * n), self.flat_load(st, oid, off, n, 'i%d' % (8 * n)))
                        lvs.append(lv)
                        redo = newcell = True
                    else:
                        _, oid, f, n = k
                        if oid not in st.objs:
                            continue
                        if (oid, f, n) not in fields:
                            if (f, n) not in st.objs[oid].fields:
                                self.field(st, st.objs[oid], f, n, isinstance((bst.log[k][0] or (0, 0))[1], Ptr))
                            fields[(oid, f, n)] = self.derive_pattern(st, bst, lvs, vals, phis, oid, f, n, bst.log[k])
                            if DBG:
                                print('FIELD', oid, f, n, st.objs[oid].name, fields[(oid, f, n)], file=sys.stderr)
                            redo = True
                for oid, o in bst.objs.items():
                    if oid in st.objs and (st.objs[oid].live and not o.live or len(o.dead) != len(st.objs[oid].dead)):
                        raise Unsup('loop frees an outer object')
                for lv in lvs:
                    if lv.t == 'p':
                        v = self.back_val(bst, phis, lv)
                        if v is None:
                            continue
                        if v.o and v.o not in st.objs:
                            if v.o in self.gpristine:
                                st.objs[v.o] = self.gpristine[v.o].copy()
                                st.owned.add(v.o)
                            else:
                                raise Unsup('loop-carried pointer to object allocated in the loop')
                        d = self.dom_of(bst, v)
                        if d not in lv.dom:
                            lv.dom.append(d)
                            redo = True
            if redo:
                dropped = set(predrop)
                continue
            # ---- preservation
            patdrop = False
            for bst, phis, vals, combo in pr.backs:
                bvals = []
                for lv in lvs:
                    v = self.back_val(bst, phis, lv)
                    bvals.append(v)
                cs = dict(self.candidates(st, lvs, bvals, bounds, bst))
                live = [(k, cs[k]) for k in cs if k not in dropped]
                good = self.filter_valid(bst, live)
                for k, _ in live:
                    if k not in good:
                        dropped.add(k)
                        if DBG:
                            print('NOTPRES', b, k, len(combo), file=sys.stderr)
                            if DBG == '2' and 'fn' in k and self.sat(bst, z3.Not(pf(cs[k]))) == 'sat':
                                print(self.sat(bst, z3.Not(pf(cs[k]))), [(d, self.model[d]) for d in self.model.decls()], [(lv, v) for lv, v in zip(lvs, bvals)], file=sys.stderr)
                        redo = True
                for fk, pat in list(fields.items()):
                    if pat is None:
                        continue
                    if not self.pattern_preserved(st, bst, lvs, bvals, fk, pat):
                        if DBG:
                            print('DROP', b, fk, pat['desc'], st.objs[fk[0]].name, file=sys.stderr)
                        fields[fk] = None
                        redo = patdrop = True
            if redo:
                if patdrop and self.lean:
                    dropped = set(predrop)
                continue
            break
        # ---- fixpoint: continue from the heads
        if self.lean:
            self.loopmemo[(fn['name'], b)] = ([(lv.key, lv.t, lv.dom) for lv in lvs if lv.kind == 'cell' and (lv.t == 'p' or lv.t[0] == 'i')],
                                              [k for k, v in fields.items() if v is None], set(k for k in dropped if 'fn' in k and len(k) == 2))
        loc = '?'
        for bb in sorted(blks):
            for ins in fn['blocks'][bb]:
                if 'l' in ins and not ins['l'].endswith(':0'):
                    loc = short(ins['l'])
                    break
            if loc != '?':
                break
        name = 'loop-invariant@' + loc
        kept = [k for k, _ in self.candidates(st, lvs, heads[0][1], bounds, heads[0][0]) if k not in dropped]
        self.loops_proved['%s @ %s' % (self.m.dem.get(fn['name'], fn['name'])[:120], loc)] = sorted(str(k) for k in kept)[:40] + ['field %s: %s' % (k, p['desc'] if p else 'havoc') for k, p in fields.items()]
        if self.probe is None:
            rec = self.obl.setdefault(name, {'name': name, 'proved': 0, 'failed': 0, 'unknown': 0, 'time': 0.0, 'solvers': {}})
            rec['proved'] += len(kept) + len([1 for p in fields.values() if p])
            rec['solvers']['z3'] = rec['solvers'].get('z3', 0) + 1
        outs = []
        for h, vals, combo in heads:
            h2 = h.clone()
            bad = False
            for k, e in self.candidates(st, lvs, vals, bounds, h):
                if k in dropped:
                    continue
                e = simp(af(e))
                if e is False:
                    bad = True
                elif e is not True:
                    h2.pc.append(e)
            if bad or self.sat(h2) == 'unsat':
                continue
            h2.frames[-1].inv[b] = Token(None)
            h2.abstracted = True
            if st.log is not None:
                h2.log = dict(st.log)
                for lv in lvs:
                    if lv.kind == 'cell':
                        h2.log[('c',) + lv.key] = True
                for fk in fields:
                    logw(h2, ('f',) + fk, None)
            outs.append(h2)
        if not outs:
            raise PathEnd('no feasible loop head')
        for o in outs[1:]:
            self.work.append(o)
        st.__dict__.update(outs[0].__dict__)

    def terms(self, v):
        if isinstance(v, Ptr):
            return [v.off]
        if isinstance(v, tuple):
            return [v[1]] if len(v) > 1 else []
        if isinstance(v, FVal):
            return [v.t]
        return [v]

    def mentions(self, t, syms, st=None):
        if is_c(t) or isinstance(t, bool):
            return False
        seen = set()
        stack = [t]
        hs = self._headnames
        while stack:
            x = stack.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                if x.decl().name() in hs:
                    return True
            elif z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name() in hs:
                return True
            stack.extend(x.children())
        return False

    _headnames = set()

    def init_val(self, st, lv, dm):
        if lv.t != 'p':
            return lv.init
        if self.dom_of(st, lv.init) != dm:
            return None
        return lv.init

    def back_val(self, bst, phis, lv):
        if lv.kind == 'phi':
            return phis[lv.key]
        oid, off, n = lv.key
        return self.flat_load(bst, oid, off, n, lv.t)

    def make_head(self, st, fr, b, lvs, combo, fields):
        h = st.clone()
        hf = h.frames[-1]
        vals = []
        names = set()
        for lv, dm in zip(lvs, combo):
            if lv.t == 'p':
                if dm[0] == 'null':
                    v = NULL
                elif dm[0] == 'flat':
                    v = Ptr(dm[1], dm[2])
                else:
                    k = self.fresh('lk', 64)
                    names.add(k.decl().name())
                    o = h.objs[dm[1]]
                    v = Ptr(dm[1], norm64(mul(k, o.stride) + z3.BitVecVal(dm[2], 64)))
            elif lv.t in ('d', 'f'):
                self.nfresh += 1
                t = z3.FP('lf!%d' % self.nfresh, z3.Float64())
                names.add(t.decl().name())
                v = FVal(t)
            elif isinstance(lv.t, dict):
                raise Unsup('aggregate phi')
            elif lv.t == 'i1':
                v = self.freshb('lb')
                names.add(v.decl().name())
            else:
                v = self.fresh('lv', width(lv.t))
                names.add(v.decl().name())
            vals.append(v)
            if lv.kind == 'phi':
                hf.regs[lv.key] = v
            else:
                oid, off, n = lv.key
                lg = h.log
                h.log = None
                self.flat_store(h, oid, off, n, v if not isinstance(v, z3.BoolRef) else z3.If(v, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8)))
                h.log = lg
        for fk, pat in fields.items():
            # a pattern over a pointer variable that can also point elsewhere is no pattern
            if pat is not None and '@' in pat['nm'] and len(lvs[int(pat['nm'].split('@')[0])].dom) > 1:
                fields[fk] = None
        for (oid, f, n), pat in fields.items():
            o = h.own(oid)
            old = st.objs[oid].fields[(f, n)]
            if pat is None:
                self.nfresh += 1
                nm = 'lf!%d' % self.nfresh
                names.add(nm)
                o.fields[(f, n)] = FA('base', n, key=z3.Function(nm, z3.BitVecSort(64), z3.BitVecSort(8 * n)), isptr=fa_isptr(old), dom=(o.doms or {}).get((f, n)))
            else:
                o.fields[(f, n)] = self.pattern_field(st, lvs, vals, old, pat, n)
        # registers set in the loop body but not phis stay as they are (dominance makes stale reads impossible)
        self._headnames = self._headnames | names
        blk = hf.fn['blocks'][b]
        i = 0
        while blk[i]['o'] == 'phi':
            i += 1
        hf.b = b
        hf.i = i
        return h, vals

    # ------------------------------------------------------------ candidates
    def cand_vars(self, lvs, vals):
        """scalar views of the loop variables: (name, width, term, initterm)"""
        out = []
        for n, (lv, v) in enumerate(zip(lvs, vals)):
            out.append((n, lv, v))
        return out

    def scalars(self, st, lvs, vals):
        r = []
        for n, (lv, v) in enumerate(zip(lvs, vals)):
            if lv.t == 'p':
                if v.o and st.objs.get(v.o) is not None and st.objs[v.o].kind == 'arr':
                    try:
                        r.append(('%d@%d' % (n, v.o), 64, self.idx_of(st, v), self.idx_of(st, lv.init) if lv.init.o == v.o else None))
                    except Unsup:
                        pass
            elif lv.t in ('d', 'f') or isinstance(lv.t, dict):
                continue
            else:
                r.append((str(n), width(lv.t), v, lv.init))
        return r

    def candidates(self, st, lvs, vals, bounds, mst=None):
        out = []
        sc = self.scalars(st, lvs, vals)
        C = lambda k, e: out.append((k, e))
        for ci, cnd in enumerate(st.cands):
            if cnd[0] != 'fn':
                continue
            if cnd[3] == 0:
                C(('fn', ci), self.eval_fn(mst, cnd[1], [cnd[2], 0]))
                continue
            if cnd[3] == 3:
                _, q, ctx, _, lo, hi, J, insts = cnd
                for nm, w, v, i in sc:
                    if w in (32, 64) and not isinstance(v, (Ptr, float, FVal)):
                        C((nm, 'fn', ci), self.eval_forall(mst, q, ctx, self.ext64(v, w) if w == 64 else simp(z3.SignExt(32, Z(v, 32))) if not is_c(v) else ((v ^ 0x80000000) - 0x80000000) & ((1 << 64) - 1), lo, hi, J, insts))
                continue
            if cnd[3] == 4:
                iv = [(nm, w, v) for nm, w, v, i in sc if w in (8, 16, 32, 64) and not isinstance(v, (Ptr, float, FVal))]
                for na, wa, va in iv:
                    for nb, wb, vb in iv:
                        if na != nb:
                            C((na + '/' + nb, 'fn', ci), self.eval_fn(mst, cnd[1], [cnd[2], self.ext64(va, wa), self.ext64(vb, wb)]))
                continue
            if cnd[3] == 2:
                for n, (lv, v) in enumerate(zip(lvs, vals)):
                    if lv.t == 'p' and isinstance(v, Ptr):
                        C((n, 'pfn', ci), self.eval_fn(mst, cnd[1], [cnd[2], v]))
                continue
            if cnd[3] == 5:
                pv = [(n, v) for n, (lv, v) in enumerate(zip(lvs, vals)) if lv.t == 'p' and isinstance(v, Ptr)]
                for na, va in pv:
                    for nb, vb in pv:
                        if na != nb:
                            C(('%d/%d' % (na, nb), 'pfn', ci), self.eval_fn(mst, cnd[1], [cnd[2], va, vb]))
                continue
            if cnd[3] == 6:
                for n, (lv, v) in enumerate(zip(lvs, vals)):
                    if lv.t == 'p' and isinstance(v, Ptr):
                        for nm, w, x, i in sc:
                            if w in (32, 64) and not isinstance(x, (Ptr, float, FVal)):
                                C(('%d/%s' % (n, nm), 'pfn', ci), self.eval_fn(mst, cnd[1], [cnd[2], v, self.ext64(x, w)]))
                continue
            for nm, w, v, i in sc:
                if w in (32, 64) and not isinstance(v, (Ptr, float, FVal)):
                    C((nm, 'fn', ci), self.eval_fn(mst, cnd[1], [cnd[2], self.ext64(v, w)]))
        for nm, w, v, i in sc:
            if w == 1:
                if i is not None:
                    C((nm, 'eqinit'), simp(ZB(v) == ZB(i)))
                C((nm, 'true'), v)
                C((nm, 'false'), bneg(v))
                continue
            if isinstance(v, (Ptr, float, FVal)):
                continue
            zv = Z(v, w)
            if self.lean and lvs[int(nm.split('@')[0])].kind == 'cell':
                continue
            if i is not None and not isinstance(i, (Ptr, float, FVal)):
                zi = Z(i, w)
                C((nm, '==init'), zv == zi)
                C((nm, '>=init'), z3.UGE(zv, zi))
                C((nm, '<=init'), z3.ULE(zv, zi))
                if w in (32, 64) and not self.lean:
                    C((nm, 's>=init'), zv >= zi)
                    C((nm, 's<=init'), zv <= zi)
            bl = list(bounds.get(w, {}).items())
            for cnd in st.cands:
                if cnd[0] == 'val':
                    x = cnd[1]
                    if w < 64:
                        x = x & ((1 << w) - 1) if is_c(x) else simp(z3.Extract(w - 1, 0, x))
                    bl.append((('cv', x if is_c(x) else x.get_id()), x))
            if w == 64:
                # 32-bit bounds zero-extended are interesting for 64-bit variables and vice versa
                for k, x in bounds.get(32, {}).items():
                    bl.append((('z', k), x if is_c(x) else z3.ZeroExt(32, x)))
            for k, x in bl:
                zx = Z(x, w)
                C((nm, '<=', k), z3.ULE(zv, zx))
                C((nm, '<', k), z3.ULT(zv, zx))
                if self.lean:
                    continue
                C((nm, '>=', k), z3.UGE(zv, zx))
                C((nm, '>', k), z3.UGT(zv, zx))
                C((nm, '!=', k), zv != zx)
                if w in (32, 64):
                    C((nm, 's<=', k), zv <= zx)
                    C((nm, 's<', k), zv < zx)
                    C((nm, 's>=', k), zv >= zx)
                    C((nm, 's>', k), zv > zx)
            if w in (32, 64) and i is not None:
                e = self.ext64(v, w)
                e0 = self.ext64(i, w)
                for ci, cnd in enumerate(st.cands):
                    if cnd[0] == 'idx':
                        g, p = Z(cnd[1], 64), ZB(cnd[2] if not is_c(cnd[2]) else bool(cnd[2]))
                        C((nm, 'idxup', ci), z3.Implies(inrange(e0, g, e), p))
                        C((nm, 'idxdn', ci), z3.Implies(inrange(e, g, e0), p))
                        C((nm, 'idxdn1', ci), z3.Implies(z3.And(z3.ULT(Z(e, 64), g), z3.ULE(g, Z(e0, 64))), p))
                        C((nm, 'idxnot', ci), z3.Implies(p, z3.ULE(Z(e, 64), g)))
                        C((nm, 'idxnotd', ci), z3.Implies(p, z3.UGE(Z(e, 64), g)))
        for a in range(0 if self.lean else len(sc)):
            for c in range(len(sc)):
                if a == c:
                    continue
                na, wa, va, ia = sc[a]
                nc, wc, vc, ic = sc[c]
                if wa == 1 or wc == 1:
                    continue
                if any(isinstance(x, (Ptr, float, FVal)) for x in (va, vc)):
                    continue
                if ia is None or ic is None:
                    if wa == wc and a < c:
                        C((na, nc, '<='), z3.ULE(Z(va, wa), Z(vc, wc)))
                        C((na, nc, '>='), z3.UGE(Z(va, wa), Z(vc, wc)))
                        C((na, nc, '=='), Z(va, wa) == Z(vc, wc))
                    continue
                if wa == wc:
                    if a < c:
                        C((na, nc, 'same-step'), Z(va, wa) - Z(ia, wa) == Z(vc, wc) - Z(ic, wc))
                        C((na, nc, 'opp-step'), Z(va, wa) - Z(ia, wa) == Z(ic, wc) - Z(vc, wc))
                        C((na, nc, '<='), z3.ULE(Z(va, wa), Z(vc, wc)))
                        C((na, nc, '>='), z3.UGE(Z(va, wa), Z(vc, wc)))
                    for fi, cnd in enumerate(st.cands):
                        if cnd[0] == 'rel' and wa == cnd[3]:
                            C((na, nc, 'rel', fi), cnd[1](Z(va, wa), Z(vc, wc)))
                elif wa == 32 and wc == 64:
                    C((na, nc, 'same-step64'), z3.ZeroExt(32, Z(va, 32)) - z3.ZeroExt(32, Z(ia, 32)) == Z(vc, 64) - Z(ic, 64))
                    C((na, nc, 'opp-step64'), z3.ZeroExt(32, Z(va, 32)) - z3.ZeroExt(32, Z(ia, 32)) == Z(ic, 64) - Z(vc, 64))
        return out

    def ext64(self, v, w):
        if w == 64:
            return v
        return v if is_c(v) else z3.ZeroExt(64 - w, v)

    # ------------------------------------------------------------ array-content patterns
    def derive_pattern(self, st, bst, lvs, vals, phis, oid, f, n, log):
        """guess  F = [written range: value as a function of the index | rest unchanged]"""
        if len(log) != 1 or log[0] is None:
            return None
        widx, wval = log[0]
        sc = self.scalars(st, lvs, vals)
        bvals = [self.back_val(bst, phis, lv) for lv in lvs]
        bsc = {x[0]: x for x in self.scalars(bst, lvs, bvals)}
        for nm, w, v, i in sc:
            if w not in (32, 64) or i is None or is_c(v):
                continue
            e = self.ext64(v, w)
            d = norm64(add64(widx, mul(e, M64)))     # widx - v
            if self.mentions_any(d, [x[2] for x in sc]):
                continue
            if nm not in bsc:
                continue
            step = simp(Z(bsc[nm][2], w) - Z(v, w))
            if not is_c(step):
                continue
            step = sgn(step, w)
            if step not in (1, -1):
                continue
            # other scalars in lock step
            others = []
            for nm2, w2, v2, i2 in sc:
                if nm2 == nm or i2 is None or w2 == 1 or nm2 not in bsc or is_c(v2):
                    continue
                s2 = simp(Z(bsc[nm2][2], w2) - Z(v2, w2))
                if is_c(s2):
                    others.append((v2, w2, i2, sgn(s2, w2)))
            pat = {'nm': nm, 'w': w, 'd': d, 'step': step, 'i': i, 'v': v, 'others': others, 'val': wval, 'widx': widx}
            if isinstance(wval, Ptr) and wval.prov is not None:
                fa, pidx = wval.prov
                dl = norm64(add64(pidx, mul(widx, M64)))
                if self.mentions_any(dl, [x[2] for x in sc]):
                    for c in (1, M64):
                        if self.valid(bst, simp(Z(pidx, 64) == Z(add64(widx, c), 64))):
                            dl = c
                            break
                if not self.mentions_any(dl, [x[2] for x in sc]):
                    pat['delta'] = dl
                    pat['desc'] = 'shift by %s' % str(dl)[:30]
                    return pat
            pat['desc'] = 'map %s' % str(wval)[:60]
            return pat
        return None

    def mentions_any(self, t, vs):
        if is_c(t):
            return False
        names = set()
        for v in vs:
            if not is_c(v) and not isinstance(v, bool):
                for x in consts_of(v):
                    names.add(x)
        return bool(consts_of(t) & names)

    def pattern_field(self, st, lvs, vals, old, pat, n):
        sc = {x[0]: x for x in self.scalars(st, lvs, vals)}
        v = sc[pat['nm']][2]
        e, e0 = self.ext64(v, pat['w']), self.ext64(pat['i'], pat['w'])
        if pat['step'] == 1:
            lo, hi = norm64(add64(e0, pat['d'])), norm64(add64(e, pat['d']))
        else:
            lo, hi = norm64(add64(add64(e, pat['d']), 1)), norm64(add64(add64(e0, pat['d']), 1))
        if 'delta' in pat:
            return FA('r', n, prev=old, lo=lo, hi=hi, src=old, delta=pat['delta'], isptr=True)
        wval = pat['val']

        def at(j, pat=pat, wval=wval, e0=e0):
            # value written when the written index was j: v = j - d
            vv = norm64(add64(j, mul(pat['d'], M64)))
            subs = []
            if not is_c(pat['v']):
                subs.append((pat['v'], Z(vv, 64) if pat['w'] == 64 else (z3.Extract(31, 0, Z(vv, 64)))))
            it = add64(vv, mul(e0, M64))         # v - v0 = step * iteration
            it = it if pat['step'] == 1 else mul(it, M64)
            for (v2, w2, i2, s2) in pat['others']:
                x = z3.Extract(w2 - 1, 0, Z(it, 64)) if w2 < 64 else Z(it, 64)
                subs.append((v2, Z(i2, w2) + x * z3.BitVecVal(s2 & ((1 << w2) - 1), w2)))

            def sb(t):
                if is_c(t) or isinstance(t, bool):
                    return t
                return simp(z3.substitute(t, *subs))
            if isinstance(wval, Ptr):
                o = sb(wval.off)
                return Ptr(wval.o, norm64(o) if not is_c(o) else o)
            if isinstance(wval, float):
                return wval
            return sb(wval)
        return FA('m', n, prev=old, lo=lo, hi=hi, val=at, isptr=isinstance(wval, Ptr))

    def pattern_preserved(self, st, bst, lvs, bvals, fk, pat):
        oid, f, n = fk
        old = st.objs[oid].fields[(f, n)]
        exp = self.pattern_field(bst, lvs, bvals, old, pat, n)
        got = bst.objs[oid].fields.get((f, n))
        if got is None:
            return False
        j = self.fresh('j', 64)
        cnt = bst.objs[oid].count

        def chk(s):
            if cnt is not None:
                s.pc.append(z3.ULT(j, Z(cnt, 64)))
            try:
                if not fa_isptr(got):
                    a, c = self.fa_ite(s, got, j), self.fa_ite(s, exp, j)
                    return self.valid(s, Z(a, 8 * n) == Z(c, 8 * n))
            except Unsup:
                pass
            a = self.fa_resolve(s, got, j)
            c = self.fa_resolve(s, exp, j)
            if a[0] == 'b' and c[0] == 'b' and a[1] is c[1]:
                return self.valid(s, Z(a[2], 64) == Z(c[2], 64) if not (is_c(a[2]) and is_c(c[2])) else a[2] == c[2])
            va, vc = self.resolved(a), self.resolved(c)
            if isinstance(va, tuple) and isinstance(vc, tuple):
                if va[0] is vc[0]:
                    return self.valid(s, Z(va[1], 64) == Z(vc[1], 64))
                return False
            if isinstance(va, Ptr) and isinstance(vc, Ptr):
                return va.o == vc.o and (self.valid(s, Z(va.off, 64) == Z(vc.off, 64)) if not (is_c(va.off) and is_c(vc.off)) else va.off == vc.off)
            if isinstance(va, (tuple, Ptr)) or isinstance(vc, (tuple, Ptr)):
                return False
            if isinstance(va, float) or isinstance(vc, float):
                return va == vc
            return self.valid(s, Z(va, 8 * n) == Z(vc, 8 * n))
        return self.paths_of(bst.clone(), chk)

    def resolved(self, r):
        """canonical value: (base node, index) for elements of the initial contents, else the value"""
        if r[0] == 'b':
            return (r[1], r[2])
        v = r[1]
        if isinstance(v, Ptr) and v.prov is not None:
            return (v.prov[0], v.prov[1])
        return v


def consts_of(t):
    out = set()
    seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.add(x.decl().name())
        stack.extend(x.children())
    return out
