"""Deductive verifier for C++ compiled to LLVM IR.

Weakest-precondition style path-wise VC generation over the compiler's own IR of the
repository's functions.  Every entry function `vh_*` of a contract file is a
(requires; call real function; ensures) triple over arbitrary pre-states.  Loops whose
trip count is not fixed by the path condition are cut by inductive invariants (found
Houdini-style from candidates; each kept invariant is proved on entry and on every
back edge).  All obligations are discharged by an SMT solver (z3, cvc5 as second)."""
import json, os, re, subprocess, sys, tempfile, time
import z3

sys.setrecursionlimit(20000)
M64 = (1 << 64) - 1


SLOW = os.environ.get('VCSLOW')


class Unsup(Exception):
    pass


class PathEnd(Exception):
    pass


class NeedDef(Exception):
    def __init__(self, fn, ctx, idx, key):
        self.fn, self.ctx, self.idx, self.key = fn, ctx, idx, key


class LoopRestart(Exception):
    def __init__(self, key):
        self.key = key


class Ptr(object):
    __slots__ = ('o', 'off', 'prov')

    def __init__(self, o, off, prov=None):
        self.o, self.off, self.prov = o, off, prov

    def __repr__(self):
        return 'Ptr(%s,%s)' % (self.o, self.off)


NULL = Ptr(0, 0)


class Undef(object):
    def __repr__(self):
        return 'undef'


UNDEF = Undef()


def is_c(v):
    return isinstance(v, int)


def width(t):
    if isinstance(t, str):
        if t[0] == 'i' and t[1:].isdigit():
            return int(t[1:])
        if t == 'p' or t == 'd':
            return 64
        if t == 'f':
            return 32
    raise Unsup('type %r' % (t,))


def tsize(t):
    if isinstance(t, dict):
        return t['z']
    if t == 'p' or t == 'd':
        return 8
    if t == 'f':
        return 4
    if t == 'ld':
        return 16
    w = width(t)
    return (w + 7) // 8


def Z(v, w):
    return z3.BitVecVal(v, w) if is_c(v) else v


def ZB(v):
    return z3.BoolVal(v) if isinstance(v, bool) else v


def sgn(v, w):
    return v - (1 << w) if v >> (w - 1) else v


def simp(v):
    if isinstance(v, (int, bool)) or v is None:
        return v
    r = z3.simplify(v)
    if z3.is_bv_value(r):
        return r.as_long()
    if z3.is_true(r):
        return True
    if z3.is_false(r):
        return False
    return r


# ---------------------------------------------------------------- linear forms
_lin_cache = {}


def lin(t, w=64):
    """64-bit term -> (const, {id:(term,coeff)}) modulo 2^w"""
    m = (1 << w) - 1
    if is_c(t):
        return (t & m, {})
    k = t.get_id()
    r = _lin_cache.get(k)
    if r is not None and r[0].eq(t):
        return r[1]
    res = _lin(t, w, m)
    _lin_cache[k] = (t, res)
    return res


def _addlin(a, b, w, sb=1):
    m = (1 << w) - 1
    c = (a[0] + sb * b[0]) & m
    d = dict(a[1])
    for k, (t, co) in b[1].items():
        n = (d.get(k, (t, 0))[1] + sb * co) & m
        if n:
            d[k] = (t, n)
        else:
            d.pop(k, None)
    return (c, d)


def _scale(a, s, w):
    m = (1 << w) - 1
    d = {}
    for k, (t, co) in a[1].items():
        n = (co * s) & m
        if n:
            d[k] = (t, n)
    return ((a[0] * s) & m, d)


def _lin(t, w, m):
    if z3.is_bv_value(t):
        return (t.as_long() & m, {})
    if z3.is_app(t):
        k = t.decl().kind()
        ch = t.children()
        if k == z3.Z3_OP_BADD:
            r = (0, {})
            for c in ch:
                r = _addlin(r, lin(c, w), w)
            return r
        if k == z3.Z3_OP_BSUB:
            r = lin(ch[0], w)
            for c in ch[1:]:
                r = _addlin(r, lin(c, w), w, -1)
            return r
        if k == z3.Z3_OP_BNEG:
            return _scale(lin(ch[0], w), m, w)
        if k == z3.Z3_OP_BMUL:
            r = None
            s = 1
            for c in ch:
                l = lin(c, w)
                if not l[1]:
                    s = s * l[0] & m
                elif r is None:
                    r = l
                else:
                    return (0, {t.get_id(): (t, 1)})
            if r is None:
                return (s, {})
            return _scale(r, s, w)
        if k == z3.Z3_OP_BSHL:
            l = lin(ch[1], w)
            if not l[1] and l[0] < w:
                return _scale(lin(ch[0], w), 1 << l[0], w)
        if k == z3.Z3_OP_CONCAT and len(ch) == 2:
            # concat(extract(hi..), 0s) : a left shift rewritten by the simplifier
            if z3.is_bv_value(ch[1]) and ch[1].as_long() == 0 and z3.is_app(ch[0]) and ch[0].decl().kind() == z3.Z3_OP_EXTRACT:
                hi, lo = ch[0].params()
                base = ch[0].children()[0]
                sh = ch[1].size()
                if lo == 0 and base.size() == w and hi == w - sh - 1:
                    return _scale(lin(base, w), 1 << sh, w)
    return (0, {t.get_id(): (t, 1)})


def unlin(l, w=64):
    c, d = l
    r = None
    for k in sorted(d):
        t, co = d[k]
        x = t if co == 1 else t * z3.BitVecVal(co, w)
        r = x if r is None else r + x
    if r is None:
        return c
    if c:
        r = r + z3.BitVecVal(c, w)
    return r


def add64(a, b):
    if is_c(a) and is_c(b):
        return (a + b) & M64
    if is_c(a) and a == 0:
        return b
    if is_c(b) and b == 0:
        return a
    return Z(a, 64) + Z(b, 64)


def norm64(a):
    return a if is_c(a) else unlin(lin(a))


# ---------------------------------------------------------------- array fields
# A field of an array object is a persistent chain:
#  ('base', key, n)                    fresh contents, UF  key(i)
#  ('def', key, fn, ctx, n, isptr)     contents defined by contract function
#  ('const', val, n)
#  ('w', prev, idx, val, n)
#  ('r', prev, lo, hi, src, delta, n)  for lo<=i<hi: src(i+delta)
#  ('m', prev, lo, hi, fnval, n)       for lo<=i<hi: fnval(i)   (python function)
class FA(object):
    __slots__ = ('k', 'prev', 'idx', 'val', 'lo', 'hi', 'src', 'delta', 'key', 'fn', 'ctx', 'n', 'isptr', 'depth', 'dom')

    def __init__(self, k, n, **kw):
        self.k = k
        self.n = n
        self.prev = self.isptr = self.dom = None
        for a, b in kw.items():
            setattr(self, a, b)
        self.depth = (self.prev.depth + 1) if self.prev is not None else 0


class Obj(object):
    __slots__ = ('id', 'name', 'size', 'kind', 'stride', 'count', 'cells', 'fields', 'base', 'live', 'lazy', 'heap', 'fn',
                 'nullb', 'const', 'born', 'dead', 'doms')

    def copy(self):
        o = Obj()
        for a in Obj.__slots__:
            setattr(o, a, getattr(self, a))
        o.cells = dict(self.cells)
        o.fields = dict(self.fields)
        return o


class Frame(object):
    __slots__ = ('fn', 'b', 'i', 'prev', 'regs', 'site', 'onret', 'loopcnt', 'loopfork', 'inv', 'allocas', 'uid', 'va')

    def copy(self):
        f = Frame()
        f.fn, f.b, f.i, f.prev, f.site, f.onret, f.uid, f.va = self.fn, self.b, self.i, self.prev, self.site, self.onret, self.uid, self.va
        f.regs = dict(self.regs)
        f.loopcnt = dict(self.loopcnt)
        f.loopfork = dict(self.loopfork)
        f.inv = dict(self.inv)
        f.allocas = list(self.allocas)
        return f


class State(object):
    def __init__(self):
        self.objs = {}
        self.owned = set()
        self.frames = []
        self.pc = []
        self.facts = {}
        self.defmemo = {}
        self.exc = {}
        self.caught = []
        self.cands = []       # ('val',term) ('idx',g,pred) ('b',bool)
        self.notes = []
        self.nalloc = 0
        self.log = None       # write log when inside a loop probe
        self.forks = 0
        self.assumed = None   # inside a specification-function evaluation

    def clone(self):
        s = State()
        s.objs = dict(self.objs)
        s.owned = set()
        self.owned = set()
        s.frames = [f.copy() for f in self.frames]
        s.pc = list(self.pc)
        s.facts = dict(self.facts)
        s.defmemo = dict(self.defmemo)
        s.exc = dict(self.exc)
        s.caught = list(self.caught)
        s.cands = list(self.cands)
        s.notes = list(self.notes)
        s.nalloc = self.nalloc
        s.log = None if self.log is None else dict(self.log)
        s.forks = self.forks
        s.assumed = None if self.assumed is None else list(self.assumed)
        return s

    def own(self, oid):
        if oid not in self.owned:
            self.objs[oid] = self.objs[oid].copy()
            self.owned.add(oid)
        return self.objs[oid]


class Module(object):
    def __init__(self, path):
        j = json.load(open(path))
        self.fns = {f['name']: f for f in j['functions']}
        self.decls = {d[0]: d for d in j['decls']}
        self.globals = {g[0]: g for g in j['globals']}
        for f in self.fns.values():
            f['loopmap'] = {h: set(bs) for h, bs in f['loops']}
        self.dem = {n: f['dem'] for n, f in self.fns.items()}
        self.dem.update({n: d[1] for n, d in self.decls.items()})


STD_BASES = {
    '_ZTISt12out_of_range': '_ZTISt11logic_error', '_ZTISt12length_error': '_ZTISt11logic_error',
    '_ZTISt16invalid_argument': '_ZTISt11logic_error', '_ZTISt12domain_error': '_ZTISt11logic_error',
    '_ZTISt11logic_error': '_ZTISt9exception', '_ZTISt13runtime_error': '_ZTISt9exception',
    '_ZTISt11range_error': '_ZTISt13runtime_error', '_ZTISt9bad_alloc': '_ZTISt9exception',
    '_ZTISt8bad_cast': '_ZTISt9exception', '_ZTISt12bad_weak_ptr': '_ZTISt9exception',
    '_ZTISt17bad_function_call': '_ZTISt9exception',
}

# Functions assumed to have no effect on verified state (message formatting, logging,
# names, demangling).  Listed in every evidence file as part of the trusted base.
OPAQUE_PREFIX = [
    '_ZN6sparta15SpartaException', '_ZNK6sparta15SpartaException', '_ZN6sparta24SpartaCriticalError', '_ZN6sparta22SpartaFatalError',
    '_ZNSt7__cxx1112basic_string', '_ZNKSt7__cxx1112basic_string', '_ZNSt7__cxx1118basic_stringstream', '_ZNKSt7__cxx1118basic_stringstream',
    '_ZNSt7__cxx1119basic_ostringstream', '_ZNKSt7__cxx1119basic_ostringstream', '_ZNSt7__cxx1115basic_stringbuf',
    '_ZNSt7__cxx119to_string', '_ZSt9to_string', '_ZNSt7__cxx11pl', '_ZStplI', '_ZNSo', '_ZNKSo', '_ZStls', '_ZNSt8ios_base', '_ZNKSt8ios_base',
    '_ZNSt9basic_ios', '_ZNKSt9basic_ios', '_ZSt4endl', '_ZStlsI', '_ZN6sparta8demangle', '_ZN6spartalsERS', '_ZN6spartalsI',
    '_ZNSaIcE', '_ZSt4setw', '_ZSt7setfill', '_ZSt3hex', '_ZSt3dec', '_ZNSt15__new_allocatorIcE', '_ZNSt8__detail14__to_chars', '_ZNSt8__detail18__to_chars', '_ZN6sparta10notNullMSG',
    '_ZNSt11logic_error', '_ZNSt12out_of_range', '_ZNSt13runtime_error', '_ZNSt16invalid_argument', '_ZNSt12length_error', '_ZSt13setprecision',
    '_ZN9__gnu_cxx12__to_xstring', '_ZSteqIcSt11char_traitsIcE', '_ZSteqIcE',
    '_ZSt3hexRSt8ios_base', '_ZNK6sparta8TreeNode11getLocationE', '_ZNK6sparta8TreeNode7getName', '_ZNK6sparta8TreeNode9stringize',
]
OPAQUE_EXCEPT = ['_ZNSt8__detail15_List_node_base', '_ZNSt8__detail17_List_node_header', '_ZNSt8__detail10_Hash', '_ZNSt8__detail20_Prime',
                 '_ZNSt8__detail16_Hash', '_ZNSt8__detail21_Hash', '_ZNSt8__detail19_Node', '_ZNSt8__detail14_Node', '_ZNSt8__detail15_Hash', '_ZNSt8__detail9_Map', '_ZNSt8__detail12_Inser',
                 '_ZNSt8__detail13_Inser', '_ZNSt8__detail17_Equality', '_ZNSt8__detail18_Mod', '_ZNSt8__detail20_Node', '_ZNSt8__detail22_Local', '_ZNSt8__detail12_Rehash', '_ZNSt8__detail10_Equality', '_ZNSt8__detail18_Hash', '_ZNSt8__detail9_Equality',
                 '_ZNSt8__detail10_ListNode', '_ZNSt8__detail10_Select', '_ZNSt8__detail16_AllocNode', '_ZNSt8__detail22_ReuseOr', '_ZNSt8__detail11_AllocNode']


def leaf_prefixes():
    return OPAQUE_PREFIX


class Engine(object):
    def __init__(self, mod, opts=None):
        self.m = mod
        o = opts or {}
        self.ufarith = int(o.get("ufarith", 0))
        self.uarith_seen = {}
        self.timeout = o.get('timeout', 15000)
        self.maxsteps = o.get('maxsteps', 3000000)
        self.max_unroll = o.get('max_unroll', 6)
        self.wall = o.get('wall', 240)
        self.replace = o.get('replace', [])       # (substring of demangled, stub function name)
        self.extra_opaque = o.get('opaque', [])
        self.noinv = o.get('noinv', [])
        self.loopmemo = {}
        self.bmc = o.get('bmc')
        self.lean = o.get('lean')                 # few automatic loop invariant candidates (the contract gives its own)
        self.invloops = set()
        self.stats = {'queries': 0, 'qtime': 0.0, 'unknown': 0}
        self.solver = None
        self.verbose = o.get('verbose', 0)
        self._repl_cache = {}
        self.fns_executed = {}
        self.loops_proved = {}
        self.loops_unrolled = {}
        self.opaque_used = {}
        self.ti_ids = {}
        self.extsmt = 0

    # ------------------------------------------------------------ solver
    def reset_solver(self):
        self.solver = z3.Solver()
        self.solver.set('timeout', min(700, self.timeout))
        self.stack = []
        self.inc_ms = getattr(self, 'inc_ms', 700)

    def sync(self, st):
        pc = st.pc
        n = 0
        while n < len(self.stack) and n < len(pc) and self.stack[n] is pc[n]:
            n += 1
        d = len(self.stack) - n
        if d:
            self.solver.pop(d)
            del self.stack[n:]
        for c in pc[n:]:
            self.solver.push()
            self.solver.add(c)
            self.stack.append(c)

    def sat(self, st, *conds):
        """'sat' / 'unsat' / 'unknown' of pc & conds"""
        if time.time() > self.deadline:
            raise Unsup('time budget exhausted')
        self.sync(st)
        t0 = time.time()
        cs = [ZB(c) for c in conds]
        self.stats['queries'] += 1
        if cs:
            self.solver.push()
            self.solver.add(*cs)
        self.solver.set('timeout', int(min(self.inc_ms, self.timeout)))
        r = str(self.solver.check())
        ti = time.time() - t0
        self.model = self.solver.model() if r == 'sat' else None
        if cs:
            self.solver.pop()
        if r == 'unknown':
            # a fresh, non-incremental solver preprocesses the whole query and is often far faster
            fs = z3.Solver()
            fs.set('timeout', self.timeout)
            fs.add(*st.pc)
            fs.add(*cs)
            r = str(fs.check())
            # adapt the share of the incremental solver to what pays off
            tf = time.time() - t0 - ti
            self.inc_ms = max(40, self.inc_ms * 0.8) if tf < ti else min(700, self.inc_ms * 1.5)
            self.model = fs.model() if r == 'sat' else None
            self.stats['fresh'] = self.stats.get('fresh', 0) + 1
        self.stats['qtime'] += time.time() - t0
        if SLOW and time.time() - t0 > 0.7:
            import traceback
            print('SLOW %.1f %s' % (time.time() - t0, r), ' < '.join('%s:%d' % (f.name, f.lineno) for f in traceback.extract_stack()[-7:-1][::-1]), file=sys.stderr)
        if r == 'unknown':
            self.stats['unknown'] += 1
        return r

    def ext_check(self, st, *conds):
        if SLOW:
            z = z3.Solver(); z.add(*st.pc); z.add(*[ZB(c) for c in conds]); open('/tmp/w/q/%d.smt2' % self.extsmt, 'w').write('(set-logic ALL)\n' + z.to_smt2())
        """second back end for queries the incremental solver gives up on"""
        s = z3.Solver()
        s.add(*st.pc)
        s.add(*[ZB(c) for c in conds])
        txt = '(set-logic ALL)\n' + s.to_smt2().replace('(set-info :status unknown)', '')
        f = tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False)
        f.write(txt)
        f.close()
        res = 'unknown'
        ps = []
        for cmd in (['cvc5', '--tlimit=60000', f.name], ['z3-new', '-T:60', f.name]):
            try:
                ps.append(subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True))
            except OSError:
                pass
        t0 = time.time()
        live = list(ps)
        while live and res == 'unknown' and time.time() - t0 < 65:
            for p in list(live):
                if p.poll() is not None:
                    out = p.stdout.read().strip().split('\n')[0]
                    live.remove(p)
                    if out in ('sat', 'unsat'):
                        res = out
                        break
            time.sleep(0.05)
        for p in live:
            p.kill()
        os.unlink(f.name)
        self.extsmt += 1
        return res

    def decide(self, st, c):
        c = simp(c)
        if isinstance(c, bool):
            return c
        k = c.get_id()
        f = st.facts.get(k)
        if f is not None and f[0].eq(c):
            return f[1]
        r1 = self.sat(st, c)
        if r1 == 'unsat':
            st.facts[k] = (c, False)
            return False
        nc = z3.Not(c)
        r2 = self.sat(st, nc)
        if r2 == 'unsat':
            st.facts[k] = (c, True)
            return True
        s2 = st.clone()
        s2.pc.append(nc)
        s2.facts[k] = (c, False)
        s2.forks += 1
        st.forks += 1
        st.pc.append(c)
        st.facts[k] = (c, True)
        self.work.append(s2)
        return True

    def valid(self, st, c):
        c = simp(c)
        if isinstance(c, bool):
            if c:
                return True
            return self.sat(st) == 'unsat'
        f = st.facts.get(c.get_id())
        if f is not None and f[0].eq(c) and f[1]:
            return True
        return self.sat(st, z3.Not(c)) == 'unsat'

    def assume(self, st, c):
        c = simp(c)
        if c is True:
            return
        if c is False:
            raise PathEnd('assume false')
        if st.assumed is not None:
            st.assumed.append((len(st.pc), c))
        st.pc.append(c)
        st.facts[c.get_id()] = (c, True)
        if self.sat(st) == 'unsat':
            raise PathEnd('infeasible')

    # ------------------------------------------------------------ obligations
    def where(self, st):
        out = []
        for f in reversed(st.frames):
            ins = f.fn['blocks'][f.b][min(f.i, len(f.fn['blocks'][f.b]) - 1)]
            out.append('%s @ %s' % (self.m.dem.get(f.fn['name'], f.fn['name'])[:160], short(ins.get('l', '?'))))
        return out

    def oblige(self, st, c, name):
        """obligation: c holds on this path"""
        if self.probe:
            if c is False:
                raise PathEnd('probe: obligation false')
            c = simp(c)
            if isinstance(c, bool):
                if not c:
                    raise PathEnd('probe')
                return
            st.pc.append(c)
            if self.sat(st) == 'unsat':
                raise PathEnd('probe')
            return
        c = simp(c)
        t0 = time.time()
        solver = 'z3'
        r = None
        if c is True:
            r = 'proved'
            solver = 'simplifier'
        else:
            nc = True if c is False else z3.Not(c)
            q = self.sat(st, nc)
            mdl = self.model
            if q == 'unknown':
                q = self.ext_check(st, nc)
                solver = 'cvc5/z3-new'
            r = {'unsat': 'proved', 'sat': 'failed', 'unknown': 'unknown'}[q]
            if r == 'failed' and mdl is None:
                mdl = {}
        rec = self.obl.setdefault(name, {'name': name, 'proved': 0, 'failed': 0, 'unknown': 0, 'time': 0.0, 'solvers': {}})
        rec[r] += 1
        rec['time'] += time.time() - t0
        rec['solvers'][solver] = rec['solvers'].get(solver, 0) + 1
        if r != 'proved':
            if len(rec.setdefault('cex', [])) < 3:
                rec['cex'].append({'where': self.where(st), 'values': self.model_values(st, mdl) if r == 'failed' else {}, 'abstract': bool(getattr(st, 'abstracted', False) or any(f.inv for f in st.frames)),
                                   'line': self.where(st)[0]})
            if c is False or c is True:
                raise PathEnd('obligation failed')
            st.pc.append(c)
            if self.sat(st) == 'unsat':
                raise PathEnd('after failed obligation')
        else:
            if not isinstance(c, bool):
                st.facts[c.get_id()] = (c, True)

    def model_values(self, st, mdl):
        out = {}
        if not mdl:
            return out
        for nm, t in self.inputs + st.notes:
            try:
                v = mdl.eval(t, model_completion=True) if not isinstance(t, (int, bool)) else t
                out[nm] = str(v)
            except Exception:
                pass
        return out

    def fail(self, st, name):
        self.oblige(st, False, name)
        raise PathEnd('fail')

    # ------------------------------------------------------------ objects
    def fresh(self, nm, w):
        self.nfresh += 1
        return z3.BitVec('%s!%d' % (nm, self.nfresh), w)

    def freshb(self, nm):
        self.nfresh += 1
        return z3.Bool('%s!%d' % (nm, self.nfresh))

    def new_obj(self, st, name, size, kind='flat', lazy=False, heap=False, stride=None, count=None):
        self.noid += 1
        o = Obj()
        o.id = self.noid
        o.name, o.size, o.kind, o.lazy, o.heap, o.stride, o.count = name, size, kind, lazy, heap, stride, count
        o.cells, o.fields = {}, {}
        o.base = z3.BitVec('addr!%d' % o.id, 64)
        o.live = True
        o.dead = ()
        o.doms = None
        o.fn = None
        o.nullb = None
        o.const = False
        o.born = 0
        st.objs[o.id] = o
        st.owned.add(o.id)
        return o

    def wild(self, st, nm='wild'):
        o = self.new_obj(st, nm, None, kind='opaque')
        o.nullb = self.freshb('isnull')
        return Ptr(o.id, 0)

    def gobj(self, st, name):
        oid = self.gmap.get(name)
        if oid is not None:
            if oid not in st.objs:      # created lazily on another path: rebuild pristine copy
                st.objs[oid] = self.gpristine[oid].copy()
                st.owned.add(oid)
            return oid
        if name in self.m.fns or name in self.m.decls:
            o = self.new_obj(st, name, 1, kind='fn')
            o.fn = name
        else:
            g = self.m.globals.get(name)
            if g is None:
                raise Unsup('global ' + name)
            o = self.new_obj(st, name, g[1], kind='flat')
            o.const = bool(g[2])
            self.gmap[name] = o.id
            if g[3] is not None:
                self.init_const(st, o, 0, g[3], g[4])
            else:
                o.lazy = True
        self.gmap[name] = o.id
        self.gpristine[o.id] = o.copy()
        return o.id

    def init_const(self, st, o, off, c, t):
        k = c[0]
        if k == 'agg':
            tt = c[1]
            if 's' in tt:
                for (fo, ft), e in zip(tt['s'], c[2]):
                    self.init_const(st, o, off + fo, e, ft)
            else:
                for i, e in enumerate(c[2]):
                    self.init_const(st, o, off + i * tt['es'], e, tt['e'])
        elif k == 'z':
            self.zero(o, off, c[1])
        elif k == 'u':
            pass
        elif k == 'bad':
            pass
        else:
            try:
                v = self.const(st, c)
            except Unsup:
                return
            n = tsize(t)
            if isinstance(v, bool):
                v = int(v)
            o.cells[off] = (n, v)

    def zero(self, o, off, t):
        if isinstance(t, dict):
            if 's' in t:
                for fo, ft in t['s']:
                    self.zero(o, off + fo, ft)
            elif 'a' in t:
                if t['a'] > 20000:
                    return
                for i in range(t['a']):
                    self.zero(o, off + i * t['es'], t['e'])
            return
        o.cells[off] = (tsize(t), NULL if t == 'p' else 0 if t not in ('d', 'f', 'ld') else 0.0)

    # ------------------------------------------------------------ values
    def const(self, st, c):
        k = c[0]
        if k == 'i':
            v = int(c[2])
            if c[1] == 1:
                return bool(v)
            return v & ((1 << c[1]) - 1)
        if k == 'n':
            return NULL
        if k == 'g':
            return Ptr(self.gobj(st, c[1]), 0)
        if k == 'ce':
            if c[1] == 'gep':
                b = self.const(st, c[2])
                return Ptr(b.o, add64(b.off, int(c[3]) & M64))
            if c[1] == 'ptrtoint':
                return self.p2i(st, self.const(st, c[2]))
            if c[1] == 'inttoptr':
                return self.i2p(st, self.const(st, c[2]))
            if c[1] == 'bitcast':
                return self.const(st, c[2])
            if c[1] == 'trunc':
                raise Unsup('const trunc')
        if k == 'ce2':
            a, b = self.const(st, c[2]), self.const(st, c[3])
            return self.binop(st, c[1], a, b, width(c[4]))
        if k == 'u':
            return self.undef(st, c[1])
        if k == 'f':
            return float(c[1])
        if k == 'z':
            return self.zval(c[1])
        if k == 'agg':
            return tuple(self.const(st, e) for e in c[2])
        raise Unsup('constant %r' % (c,))

    def zval(self, t):
        if isinstance(t, dict):
            if 's' in t:
                return tuple(self.zval(x[1]) for x in t['s'])
            return tuple(self.zval(t['e']) for _ in range(t.get('a', t.get('vec'))))
        if t == 'p':
            return NULL
        if t in ('d', 'f', 'ld'):
            return 0.0
        if t == 'i1':
            return False
        return 0

    def undef(self, st, t):
        if isinstance(t, dict):
            if 's' in t:
                return tuple(self.undef(st, x[1]) for x in t['s'])
            return tuple(self.undef(st, t['e']) for _ in range(t.get('a', t.get('vec'))))
        if t == 'p':
            return NULL
        if t in ('d', 'f', 'ld'):
            return 0.0
        w = width(t)
        return self.freshb('undef') if w == 1 else self.fresh('undef', w)

    def val(self, st, fr, a):
        if a[0] == 'v':
            try:
                return fr.regs[a[1]]
            except KeyError:
                raise Unsup('unset register')
        return self.const(st, a)

    def p2i(self, st, p):
        if p.o == 0:
            return p.off
        o = st.objs[p.o]
        return add64(o.base, p.off)

    def i2p(self, st, v):
        if isinstance(v, Ptr):
            return v
        if is_c(v):
            return Ptr(0, v)
        c, d = lin(v)
        for k, (t, co) in d.items():
            if co == 1 and z3.is_const(t) and t.decl().name().startswith('addr!'):
                oid = int(t.decl().name()[5:])
                if oid in st.objs:
                    d2 = dict(d)
                    del d2[k]
                    return Ptr(oid, unlin((c, d2)))
        v2 = simp(v)
        if is_c(v2):
            return Ptr(0, v2)
        raise Unsup('inttoptr of non-address')

    def conv(self, st, v, n, t):
        """stored cell value (n bytes) -> register value of type t"""
        if t == 'p':
            if isinstance(v, Ptr):
                return v
            if isinstance(v, float):
                raise Unsup('float as ptr')
            return self.i2p(st, v)
        if t in ('d', 'f', 'ld'):
            if isinstance(v, Ptr):
                raise Unsup('ptr as float')
            if is_c(v):
                import struct
                return struct.unpack('<d' if n == 8 else '<f', int(v).to_bytes(n, 'little'))[0] if n in (4, 8) else 0.0
            return v
        w = width(t)
        if isinstance(v, float):
            import struct
            return int.from_bytes(struct.pack('<d' if n == 8 else '<f', v), 'little')
        if isinstance(v, FVal):
            return v.bits(self)
        if isinstance(v, Ptr):
            v = self.p2i(st, v)
        if w == 1:
            if is_c(v):
                return bool(v & 1)
            return z3.Extract(0, 0, v) == 1
        if w < n * 8:
            return v & ((1 << w) - 1) if is_c(v) else z3.Extract(w - 1, 0, v)
        return v

    def tocell(self, st, v, t):
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, z3.BoolRef):
            return z3.If(v, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8))
        if isinstance(t, str) and t[0] == 'i':
            w = width(t)
            if w % 8:
                n = (w + 7) // 8 * 8
                return v if is_c(v) else z3.ZeroExt(n - w, v)
        return v

    # bytes -------------------------------------------------------
    def to_bytes(self, st, v, n):
        if isinstance(v, Ptr):
            v = self.p2i(st, v)
        if isinstance(v, float):
            v = self.conv(st, v, n, 'i%d' % (8 * n))
        if isinstance(v, FVal):
            v = v.bits(self)
        if is_c(v):
            return [(v >> (8 * i)) & 255 for i in range(n)]
        return [z3.Extract(8 * i + 7, 8 * i, v) for i in range(n)]

    def from_bytes(self, bs):
        if all(is_c(b) for b in bs):
            return sum(b << (8 * i) for i, b in enumerate(bs))
        if len(bs) == 1:
            return bs[0]
        return simp(z3.Concat(*[Z(b, 8) for b in reversed(bs)]))

    # flat ---------------------------------------------------------
    def flat_overlaps(self, o, off, n):
        r = []
        for k in range(off - 15, off + n):
            c = o.cells.get(k)
            if c and k + c[0] > off:
                r.append(k)
        return r

    def flat_load(self, st, oid, off, n, t):
        o = st.objs[oid]
        c = o.cells.get(off)
        if c and c[0] == n:
            return self.conv(st, c[1], n, t)
        ov = self.flat_overlaps(o, off, n)
        if not ov:
            if t == 'p':
                v = self.wild(st, '%s+%d' % (o.name, off))
            else:
                v = self.fresh('%s+%d' % (o.name[:40], off), 8 * n)
            o = st.own(oid)
            o.cells[off] = (n, v)
            return self.conv(st, v, n, t)
        bs = []
        for i in range(n):
            b = None
            for k in ov:
                cc = o.cells[k]
                if k <= off + i < k + cc[0]:
                    b = self.to_bytes(st, cc[1], cc[0])[off + i - k]
            if b is None:
                b = self.fresh('%s+%d' % (o.name[:40], off + i), 8)
                st.own(oid).cells[off + i] = (1, b)
            bs.append(b)
        return self.conv(st, self.from_bytes(bs), n, t)

    def flat_store(self, st, oid, off, n, v):
        o = st.own(oid)
        c = o.cells.get(off)
        if not (c and c[0] == n):
            for k in self.flat_overlaps(o, off, n):
                cn, cv = o.cells.pop(k)
                if k >= off and k + cn <= off + n:
                    continue
                for i, b in enumerate(self.to_bytes(st, cv, cn)):
                    if not (off <= k + i < off + n):
                        o.cells[k + i] = (1, b)
        o.cells[off] = (n, v)
        if st.log is not None:
            st.log[('c', oid, off, n)] = True

    # arrays -------------------------------------------------------
    def split(self, o, off):
        """offset term -> (element index term, field offset)"""
        S = o.stride
        c, d = lin(off)
        dd = {}
        for k, (t, co) in d.items():
            s = sgn(co, 64)
            if s % S:
                raise Unsup('offset %s not a multiple of stride %d in %s' % (str(off)[:120], S, o.name))
            dd[k] = (t, (s // S) & M64)
        cs = sgn(c, 64)
        return unlin((cs // S & M64, dd)), cs % S

    def field(self, st, o, f, n, isptr=False):
        """list of (foff, n) fields exactly covering [f,f+n), creating a base if untouched"""
        if (f, n) in o.fields:
            return [(f, n)]
        ov = sorted(k for k in o.fields if k[0] < f + n and k[0] + k[1] > f)
        if not ov:
            oo = st.own(o.id)
            self.nfresh += 1
            oo.fields[(f, n)] = FA('base', n, key=z3.Function('%s.f%d_%d!%d' % (o.name, f, n, self.nfresh), z3.BitVecSort(64), z3.BitVecSort(8 * n)), isptr=isptr)
            return [(f, n)]
        # fill gaps
        pos = f
        oo = st.own(o.id)
        out = []
        for k in ov:
            if k[0] > pos:
                self.nfresh += 1
                g = (pos, k[0] - pos)
                oo.fields[g] = FA('base', g[1], key=z3.Function('%s.f%d_%d!%d' % (o.name, g[0], g[1], self.nfresh), z3.BitVecSort(64), z3.BitVecSort(8 * g[1])))
                out.append(g)
            out.append(k)
            pos = k[0] + k[1]
        if pos < f + n:
            self.nfresh += 1
            g = (pos, f + n - pos)
            oo.fields[g] = FA('base', g[1], key=z3.Function('%s.f%d_%d!%d' % (o.name, g[0], g[1], self.nfresh), z3.BitVecSort(64), z3.BitVecSort(8 * g[1])))
            out.append(g)
        return out

    def fa_resolve(self, st, fa, idx):
        """-> ('val', v) or ('b', node, idx) after deciding all chain conditions"""
        while True:
            k = fa.k
            if k == 'w':
                if self.decide(st, Z(fa.idx, 64) == Z(idx, 64) if not (is_c(fa.idx) and is_c(idx)) else fa.idx == idx):
                    return ('val', fa.val, None)
                fa = fa.prev
            elif k == 'r':
                if self.decide(st, inrange(fa.lo, idx, fa.hi)):
                    idx = norm64(add64(idx, fa.delta))
                    fa = fa.src
                else:
                    fa = fa.prev
            elif k == 'm':
                if self.decide(st, inrange(fa.lo, idx, fa.hi)):
                    return ('val', fa.val(idx), None)
                fa = fa.prev
            elif k == 'const':
                return ('val', fa.val, None)
            else:
                return ('b', fa, norm64(idx))

    def fa_read(self, st, fa, idx, t):
        if t != 'p' and not fa_hasdef(fa):
            try:
                return self.fa_ite(st, fa, idx)
            except Unsup:
                pass
        r = self.fa_resolve(st, fa, idx)
        if r[0] == 'val':
            return r[1]
        fa, idx = r[1], r[2]
        if fa.k == 'def':
            key = (id(fa), idx if is_c(idx) else idx.get_id())
            mv = st.defmemo.get(key)
            if mv is None:
                raise NeedDef(fa.fn, fa.ctx, idx, (key, fa))
            v = mv[0]
            if isinstance(v, Ptr):
                return Ptr(v.o, v.off, (fa, idx))
            return v
        if t == 'p' and fa.dom is not None:
            # an element of the domain array (v_elem_dom)
            d = st.objs[fa.dom]
            k = norm64(z3.ZeroExt(32, z3.Extract(31, 0, fa.key(Z(idx, 64)))))
            self.assume(st, z3.ULT(Z(k, 64), Z(d.count, 64)))
            return Ptr(fa.dom, norm64(mul(k, d.stride)), (fa, idx))
        if t == 'p':
            # unconstrained pointer element
            key = (id(fa), idx if is_c(idx) else idx.get_id())
            mv = st.defmemo.get(key)
            if mv is None:
                mv = st.defmemo[key] = (self.wild(st, 'elem'), idx)
            return Ptr(mv[0].o, mv[0].off, (fa, idx))
        return fa.key(Z(idx, 64))

    def fa_ite(self, st, fa, idx):
        k = fa.k
        if k == 'base':
            return fa.key(Z(idx, 64))
        if k == 'const':
            v = fa.val
        elif k == 'w':
            if isinstance(fa.val, (Ptr, float, FVal)):
                raise Unsup('ptr')
            e = simp(Z(fa.idx, 64) == Z(idx, 64)) if not (is_c(fa.idx) and is_c(idx)) else fa.idx == idx
            if e is True:
                return fa.val
            p = self.fa_ite(st, fa.prev, idx)
            if e is False:
                return p
            return z3.If(e, Z(fa.val, 8 * fa.n), Z(p, 8 * fa.n))
        elif k == 'r':
            c = simp(inrange(fa.lo, idx, fa.hi))
            if c is True:
                return self.fa_ite(st, fa.src, norm64(add64(idx, fa.delta)))
            p = self.fa_ite(st, fa.prev, idx)
            if c is False:
                return p
            s = self.fa_ite(st, fa.src, norm64(add64(idx, fa.delta)))
            return z3.If(c, Z(s, 8 * fa.n), Z(p, 8 * fa.n))
        elif k == 'm':
            c = simp(inrange(fa.lo, idx, fa.hi))
            s = fa.val(idx)
            if isinstance(s, (Ptr, float, FVal)):
                raise Unsup('ptr')
            if c is True:
                return s
            p = self.fa_ite(st, fa.prev, idx)
            if c is False:
                return p
            return z3.If(c, Z(s, 8 * fa.n), Z(p, 8 * fa.n))
        else:
            raise Unsup('def')
        if isinstance(v, (Ptr, float, FVal)):
            raise Unsup('ptr')
        return v

    def arr_read(self, st, oid, idx, f, n, t):
        o = st.objs[oid]
        if f + n > o.stride:
            raise Unsup('access straddles elements of ' + o.name)
        fl = self.field(st, o, f, n, t == 'p')
        o = st.objs[oid]
        if fl == [(f, n)]:
            v = self.fa_read(st, o.fields[(f, n)], idx, t)
            return self.conv(st, v, n, t)
        bs = [None] * n
        for (fo, fn) in fl:
            v = self.fa_read(st, o.fields[(fo, fn)], idx, 'i%d' % (8 * fn))
            b = self.to_bytes(st, v, fn)
            for i in range(fn):
                if 0 <= fo + i - f < n:
                    bs[fo + i - f] = b[i]
        return self.conv(st, self.from_bytes(bs), n, t)

    def arr_write(self, st, oid, idx, f, n, v):
        o = st.objs[oid]
        if f + n > o.stride:
            raise Unsup('access straddles elements of ' + o.name)
        fl = self.field(st, o, f, n, isinstance(v, Ptr))
        if fl == [(f, n)]:
            if o.doms and (f, n) in o.doms:
                self.check_dom(st, o.doms[(f, n)], v)
            o = st.own(oid)
            fa = o.fields[(f, n)]
            o.fields[(f, n)] = FA('w', n, prev=fa, idx=norm64(idx), val=v)
            if st.log is not None:
                logw(st, ('f', oid, f, n), (norm64(idx), v))
            return
        # piecewise
        bs = self.to_bytes(st, v, n)
        news = []
        for (fo, fn) in fl:
            if fo >= f and fo + fn <= f + n:
                nv = self.from_bytes(bs[fo - f:fo - f + fn])
            else:
                old = self.to_bytes(st, self.fa_read(st, st.objs[oid].fields[(fo, fn)], idx, 'i%d' % (8 * fn)), fn)
                for i in range(fn):
                    if 0 <= fo + i - f < n:
                        old[i] = bs[fo + i - f]
                nv = self.from_bytes(old)
            news.append((fo, fn, nv))
        o = st.own(oid)
        for fo, fn, nv in news:
            o.fields[(fo, fn)] = FA('w', fn, prev=o.fields[(fo, fn)], idx=norm64(idx), val=nv)
            if st.log is not None:
                logw(st, ('f', oid, fo, fn), (norm64(idx), nv))

    def check_dom(self, st, dom, v):
        """a pointer stored into a field declared by v_elem_dom points to an element of the domain array"""
        if not isinstance(v, Ptr) or v.o != dom:
            raise Unsup('a pointer from outside the declared domain is stored')
        d = st.objs[dom]
        if is_c(v.off):
            ok = v.off % d.stride == 0 and is_c(d.count) and v.off < d.stride * d.count
        else:
            ok = self.valid(st, z3.And(z3.ULT(v.off, Z(mul(d.count, d.stride), 64)), z3.URem(v.off, z3.BitVecVal(d.stride, 64)) == 0))
        if not ok:
            raise Unsup('a pointer from outside the declared domain is stored')

    # generic load / store ------------------------------------------
    def access(self, st, p, n, what):
        """null / liveness / bounds obligations; returns (oid, kind, ...)"""
        if not isinstance(p, Ptr):
            raise Unsup('access through non-pointer')
        if p.o == 0:
            self.fail(st, 'memory.no-null-dereference')
        o = st.objs[p.o]
        if o.kind == 'opaque':
            raise Unsup('dereference of unconstrained pointer %s in %s' % (o.name, self.where(st)[0]))
        if o.kind == 'fn':
            raise Unsup('data access to function')
        if not o.live:
            self.fail(st, 'memory.no-use-after-free')
        if o.kind == 'flat' and o.stride is None and not is_c(o.size):
            # symbolic-size heap block: become an array once the element size is known
            self.make_array(st, o, p.off, n)
            o = st.objs[p.o]
        if o.kind == 'arr':
            idx, f = self.split(o, p.off)
            cnt = o.count
            if is_c(idx) and is_c(cnt):
                ok = idx < cnt
            else:
                ok = z3.ULT(Z(idx, 64), Z(cnt, 64))
            if ok is not True:
                self.oblige(st, ok, 'memory.in-bounds')
            for d in o.dead:
                self.oblige(st, (d != idx) if is_c(d) and is_c(idx) else Z(d, 64) != Z(idx, 64), 'memory.no-use-after-free')
            return o, idx, f
        off = p.off
        if not is_c(off):
            off = simp(off)
        if not is_c(off):
            off = self.concretize(st, off, 64, o, n)
        if o.size is not None and not (0 <= off and off + n <= o.size):
            self.fail(st, 'memory.in-bounds')
        return o, off, None

    def make_array(self, st, o, off, n):
        l = lin(o.size)
        import math
        g = 0
        for k, (t, co) in l[1].items():
            g = math.gcd(g, co)
        if l[0]:
            g = math.gcd(g, l[0])
        S = o.stride or g
        if S <= 1 and n > 1:
            # size not syntactically a multiple: use access pattern
            for k, (t, co) in lin(off)[1].items():
                S = math.gcd(S if S > 1 else 0, abs(sgn(co, 64)))
        if S < n:
            raise Unsup('cannot determine element size of %s (size %s)' % (o.name, str(o.size)[:80]))
        oo = st.own(o.id)
        oo.kind = 'arr'
        oo.stride = S
        if all(sgn(co, 64) % S == 0 for t, co in l[1].values()) and l[0] % S == 0:
            oo.count = unlin((l[0] // S, {k: (t, (sgn(co, 64) // S) & M64) for k, (t, co) in l[1].items()}))
        else:
            oo.count = simp(z3.UDiv(Z(o.size, 64), z3.BitVecVal(S, 64)))

    def concretize(self, st, term, w, o=None, n=1, limit=130):
        s = simp(term)
        if is_c(s):
            return s
        r = self.sat(st)
        if r == 'unsat':
            raise PathEnd('infeasible')
        # how many values
        vals = []
        self.sync(st)
        self.solver.push()
        while len(vals) <= limit:
            if str(self.solver.check()) != 'sat':
                break
            v = self.solver.model().eval(term, model_completion=True).as_long()
            vals.append(v)
            self.solver.add(term != v)
            if o is not None and o.size is not None and v + n > o.size:
                # out of bounds value possible: make it an obligation
                self.solver.pop()
                self.oblige(st, z3.ULE(term, z3.BitVecVal(o.size - n, 64)), 'memory.in-bounds')
                return self.concretize(st, term, w, o, n, limit)
        self.solver.pop()
        if len(vals) > limit:
            raise Unsup('symbolic offset into %s' % (o.name if o else '?'))
        for v in vals[:-1]:
            if self.decide(st, term == v):
                return v
        return vals[-1]

    def load(self, st, p, t):
        n = tsize(t)
        if isinstance(t, dict):
            raise Unsup('aggregate load')
        o, a, f = self.access(st, p, n, 'load')
        if o.kind == 'arr':
            return self.arr_read(st, o.id, a, f, n, t)
        return self.flat_load(st, o.id, a, n, t)

    def store(self, st, p, v, t):
        n = tsize(t)
        if isinstance(t, dict):
            if 's' in t:
                for (fo, ft), e in zip(t['s'], v):
                    self.store(st, Ptr(p.o, add64(p.off, fo)), e, ft)
                return
            raise Unsup('aggregate store')
        o, a, f = self.access(st, p, n, 'store')
        if o.const:
            self.fail(st, 'memory.no-write-to-constant')
        v = self.tocell(st, v, t)
        if o.kind == 'arr':
            self.arr_write(st, o.id, a, f, n, v)
        else:
            self.flat_store(st, o.id, a, n, v)

    # memcpy / memmove / memset --------------------------------------
    def memcpy(self, st, d, s, n):
        n = simp(n)
        if is_c(n) and n == 0:
            return
        if is_c(n):
            if n > 4096:
                raise Unsup('large memcpy')
            so, sa, sf = self.access(st, s, 1, 'load')
            do, da, df = self.access(st, d, 1, 'store')
            big = (so.kind == 'arr' and sf + n > so.stride) or (do.kind == 'arr' and df + n > do.stride)
            if not big:
                if so.kind == 'flat' and so.size is not None and sa + n > so.size:
                    self.fail(st, 'memory.in-bounds')
                if do.kind == 'flat' and do.size is not None and da + n > do.size:
                    self.fail(st, 'memory.in-bounds')
                items = []
                if so.kind == 'flat':
                    pos = sa
                    while pos < sa + n:
                        c = so.cells.get(pos)
                        if c and pos + c[0] <= sa + n:
                            items.append((pos - sa, c[0], c[1]))
                            pos += c[0]
                            continue
                        ov = self.flat_overlaps(so, pos, 1)
                        if ov:
                            items.append((pos - sa, 1, self.flat_load(st, so.id, pos, 1, 'i8')))
                            pos += 1
                            continue
                        # hole
                        nxt = pos + 1
                        while nxt < sa + n and not self.flat_overlaps(so, nxt, 1):
                            nxt += 1
                        if so.lazy:
                            ch = 8 if (pos % 8 == 0 and nxt - pos >= 8) else 1
                            items.append((pos - sa, ch, self.flat_load(st, so.id, pos, ch, 'i%d' % (8 * ch))))
                            so = st.objs[so.id]
                            pos += ch
                        else:
                            items.append((pos - sa, nxt - pos, None))
                            pos = nxt
                else:
                    pos = sf
                    while pos < sf + n:
                        fs = [k for k in so.fields if k[0] <= pos < k[0] + k[1]]
                        if fs and fs[0][0] == pos and pos + fs[0][1] <= sf + n:
                            k = fs[0]
                            fa = so.fields[k]
                            isp = fa_isptr(fa)
                            items.append((pos - sf, k[1], self.fa_read(st, fa, sa, 'p' if isp else 'i%d' % (8 * k[1]))))
                            pos += k[1]
                            continue
                        if do.kind == 'arr' and not fs:
                            dk = [k for k in do.fields if k[0] == df + pos - sf]
                            ch = dk[0][1] if dk else (8 if pos % 8 == 0 and sf + n - pos >= 8 else 4 if pos % 4 == 0 and sf + n - pos >= 4 else 1)
                        else:
                            ch = 8 if pos % 8 == 0 and sf + n - pos >= 8 else 4 if pos % 4 == 0 and sf + n - pos >= 4 else 1
                        items.append((pos - sf, ch, self.arr_read(st, so.id, sa, pos, ch, 'i%d' % (8 * ch))))
                        so = st.objs[so.id]
                        pos += ch
                if do.kind == 'flat':
                    for off, k, v in items:
                        if v is None:
                            oo = st.own(do.id)
                            for x in self.flat_overlaps(oo, da + off, k):
                                cn, cv = oo.cells.pop(x)
                                for i, b in enumerate(self.to_bytes(st, cv, cn)):
                                    if not (da + off <= x + i < da + off + k):
                                        oo.cells[x + i] = (1, b)
                        else:
                            self.flat_store(st, do.id, da + off, k, v)
                else:
                    for off, k, v in items:
                        if v is not None:
                            self.arr_write(st, do.id, da, df + off, k, v)
                return
        # symbolic or multi-element length: array <-> array by whole elements
        so, do = st.objs.get(s.o), st.objs.get(d.o)
        if not is_c(n):
            if self.decide(st, Z(n, 64) == 0):
                return
        if s.o == 0 or d.o == 0:
            self.fail(st, 'memory.no-null-dereference')
        for oo, p in ((so, s), (do, d)):
            if oo.kind == 'opaque':
                raise Unsup('memcpy on unconstrained pointer')
            if not oo.live:
                self.fail(st, 'memory.no-use-after-free')
        if so.kind != 'arr' and do.kind == 'arr' and so.kind == 'flat' and is_c(so.size) and is_c(n):
            S = do.stride
            for k in range(n // S):
                self.memcpy(st, Ptr(d.o, add64(d.off, k * S)), Ptr(s.o, add64(s.off, k * S)), S)
            return
        if do.kind == 'flat' and do.stride is None and not is_c(do.size) and so.kind == 'arr':
            do2 = st.own(do.id)
            do2.stride = so.stride
            self.make_array(st, do2, 0, so.stride)
            do = st.objs[do.id]
        if so.kind == 'flat' and so.stride is None and not is_c(so.size) and do.kind == 'arr':
            so2 = st.own(so.id)
            so2.stride = do.stride
            self.make_array(st, so2, 0, do.stride)
            so = st.objs[so.id]
        if so.kind == 'arr' and do.kind == 'flat' and is_c(n) and is_c(do.size):
            S = so.stride
            for k in range(n // S):
                self.memcpy(st, Ptr(d.o, add64(d.off, k * S)), Ptr(s.o, add64(s.off, k * S)), S)
            return
        if so.kind != 'arr' or do.kind != 'arr' or so.stride != do.stride:
            raise Unsup('memcpy shape %s(%s) -> %s(%s)' % (so.name, so.kind, do.name, do.kind))
        S = so.stride
        si, sf = self.split(so, s.off)
        di, df = self.split(do, d.off)
        if sf or df:
            raise Unsup('memcpy misaligned')
        cnt = self.divlin(n, S)
        if cnt is None:
            cnt = simp(z3.UDiv(Z(n, 64), z3.BitVecVal(S, 64)))
        for oo, i in ((so, si), (do, di)):
            e = add64(i, cnt)
            self.oblige(st, z3.And(z3.ULE(Z(e, 64), Z(oo.count, 64)), z3.ULE(Z(i, 64), Z(e, 64))), 'memory.in-bounds')
        keys = set(so.fields) | set(do.fields)
        for k in sorted(keys):
            if self.field(st, st.objs[so.id], *k) != [k] or self.field(st, st.objs[do.id], *k) != [k]:
                raise Unsup('memcpy field mismatch')
        do = st.own(do.id)
        so = st.objs[so.id]
        delta = norm64(add64(si, mul(di, M64)))
        for k in sorted(keys):
            if (do.doms or {}).get(k) not in (None, (so.doms or {}).get(k)):
                raise Unsup('range copy between different pointer domains')
            do.fields[k] = FA('r', k[1], prev=do.fields[k], lo=di, hi=norm64(add64(di, cnt)), src=so.fields[k], delta=delta, isptr=fa_isptr(so.fields[k]))
            if st.log is not None:
                logw(st, ('f', do.id) + k, None)

    def memset(self, st, d, v, n):
        n = simp(n)
        if is_c(n):
            if n == 0:
                return
            o, a, f = self.access(st, d, 1, 'store')
            if n <= 4096 and not (o.kind == 'arr' and f + n > o.stride):
                if o.kind == 'flat':
                    if a + n > o.size:
                        self.fail(st, 'memory.in-bounds')
                    pos = a
                    while pos < a + n:
                        c = o.cells.get(pos)
                        if c and pos + c[0] <= a + n:
                            k = c[0]
                        else:
                            k = 8 if pos % 8 == 0 and a + n - pos >= 8 else 4 if pos % 4 == 0 and a + n - pos >= 4 else 1
                        self.flat_store(st, o.id, pos, k, self.rep(v, k))
                        o = st.objs[o.id]
                        pos += k
                else:
                    pos = f
                    while pos < f + n:
                        ks = [k for k in o.fields if k[0] == pos and pos + k[1] <= f + n]
                        k = ks[0][1] if ks else (8 if pos % 8 == 0 and f + n - pos >= 8 else 4 if pos % 4 == 0 and f + n - pos >= 4 else 1)
                        self.arr_write(st, o.id, a, pos, k, self.rep(v, k))
                        o = st.objs[o.id]
                        pos += k
                return
        else:
            if self.decide(st, Z(n, 64) == 0):
                return
        if d.o == 0:
            self.fail(st, 'memory.no-null-dereference')
        o = st.objs[d.o]
        if o.kind == 'flat' and o.stride is None and not is_c(o.size):
            self.make_array(st, o, d.off, 1)
            o = st.objs[d.o]
        if o.kind != 'arr':
            raise Unsup('memset shape')
        i, f = self.split(o, d.off)
        if f:
            raise Unsup('memset misaligned')
        cnt = self.divlin(n, o.stride)
        if cnt is None:
            cnt = simp(z3.UDiv(Z(n, 64), z3.BitVecVal(o.stride, 64)))
        e = norm64(add64(i, cnt))
        self.oblige(st, z3.And(z3.ULE(Z(e, 64), Z(o.count, 64)), z3.ULE(Z(i, 64), Z(e, 64))), 'memory.in-bounds')
        if not o.fields:
            S = o.stride
            w = 8 if S % 8 == 0 else 4 if S % 4 == 0 else 1
            for x in range(0, S, w):
                self.field(st, st.objs[d.o], x, w)
        o = st.own(d.o)
        for k in sorted(o.fields):
            val = self.rep(v, k[1])
            o.fields[k] = FA('m', k[1], prev=o.fields[k], lo=i, hi=e, val=(lambda x, val=val: val))
            if st.log is not None:
                logw(st, ('f', o.id) + k, None)

    def rep(self, v, k):
        if is_c(v):
            return sum((v & 255) << (8 * i) for i in range(k))
        return z3.Concat(*([v] * k)) if k > 1 else v

    def divlin(self, t, S):
        c, d = lin(t)
        if c % S:
            return None
        dd = {}
        for k, (x, co) in d.items():
            s = sgn(co, 64)
            if s % S:
                return None
            dd[k] = (x, (s // S) & M64)
        return unlin((sgn(c, 64) // S & M64, dd))

    # ------------------------------------------------------------ arithmetic
    def binop(self, st, op, a, b, w, ins=None):
        if w == 1:
            a, b = ZB(a), ZB(b)
            if op == 'and':
                return simp(z3.And(a, b))
            if op == 'or':
                return simp(z3.Or(a, b))
            if op in ('xor', 'add', 'sub'):
                return simp(z3.Xor(a, b))
            raise Unsup('i1 ' + op)
        if isinstance(a, Ptr):
            a = self.p2i(st, a)
        if isinstance(b, Ptr):
            b = self.p2i(st, b)
        m = (1 << w) - 1
        cc = is_c(a) and is_c(b)
        if op in ('udiv', 'sdiv', 'urem', 'srem'):
            if cc and b:
                if op == 'udiv':
                    return a // b
                if op == 'urem':
                    return a % b
                sa, sb = sgn(a, w), sgn(b, w)
                q = abs(sa) // abs(sb)
                if (sa < 0) != (sb < 0):
                    q = -q
                return (q if op == 'sdiv' else sa - q * sb) & m
            if not (is_c(b) and b != 0):
                self.oblige(st, (Z(b, w) != 0) if not is_c(b) else False, 'arithmetic.no-division-by-zero')
            if op == 'sdiv' and is_c(b) and ins is not None and ins.get('ex') and w == 64:
                r = self.divlin(a, b)
                if r is not None:
                    return r
            if op == 'udiv' and is_c(b) and b == 1:
                return a
            za, zb = Z(a, w), Z(b, w)
            if self.ufarith and not is_c(b) and op in ('udiv', 'urem'):
                q = self.uarith(st, 'udiv', za, zb, w)
                return q if op == 'udiv' else simp(za - self.uarith(st, 'mul', q, zb, w))
            if op == 'udiv':
                return simp(z3.UDiv(za, zb))
            if op == 'urem':
                if is_c(b) and b & (b - 1) == 0:
                    return simp(za & z3.BitVecVal(b - 1, w))
                return simp(z3.URem(za, zb))
            if op == 'sdiv':
                return simp(za / zb)
            return simp(z3.SRem(za, zb))
        if op in ('shl', 'lshr', 'ashr'):
            if is_c(b):
                if b >= w:
                    return self.fresh('poison', w)       # no defined result: any value
                if b == 0:
                    return a
                if is_c(a):
                    if op == 'shl':
                        return (a << b) & m
                    if op == 'lshr':
                        return a >> b
                    return (sgn(a, w) >> b) & m
                if op != 'shl' and ins is not None and ins.get('ex') and w == 64:
                    r = self.divlin(a, 1 << b)
                    if r is not None:
                        return r
            za, zb = Z(a, w), Z(b, w)
            if op == 'shl':
                r = za * z3.BitVecVal(1 << b, w) if is_c(b) else za << zb
            elif op == 'lshr':
                r = simp(z3.LShR(za, zb))
            else:
                r = simp(za >> zb)
            if not is_c(b):
                inr = z3.ULT(b, z3.BitVecVal(w, w))
                if not self.valid(st, inr):
                    r = z3.If(inr, Z(r, w), self.fresh('poison', w))      # no defined result: any value
            return r
        if cc:
            if op == 'add':
                return (a + b) & m
            if op == 'sub':
                return (a - b) & m
            if op == 'mul':
                return (a * b) & m
            if op == 'and':
                return a & b
            if op == 'or':
                return a | b
            if op == 'xor':
                return a ^ b
        if op == 'add':
            if is_c(b) and b == 0:
                return a
            if is_c(a) and a == 0:
                return b
        if op == 'sub' and is_c(b) and b == 0:
            return a
        if op == 'mul':
            if is_c(b) and b == 1:
                return a
            if is_c(a) and a == 1:
                return b
            if (is_c(a) and a == 0) or (is_c(b) and b == 0):
                return 0
        if op == 'and' and ((is_c(a) and a == 0) or (is_c(b) and b == 0)):
            return 0
        if op == 'and' and is_c(b) and b == m:
            return a
        if op == 'or' and is_c(b) and b == 0:
            return a
        za, zb = Z(a, w), Z(b, w)
        if op == 'add':
            r = za + zb
        elif op == 'sub':
            r = za - zb
        elif op == 'mul':
            if self.ufarith and not is_c(a) and not is_c(b):
                return self.uarith(st, 'mul', za, zb, w)
            r = za * zb
        elif op == 'and':
            r = za & zb
        elif op == 'or':
            r = za | zb
        elif op == 'xor':
            r = za ^ zb
        else:
            raise Unsup('binop ' + op)
        if w == 64 and op in ('add', 'sub', 'mul'):
            return norm64(r)
        return simp(r)

    def uarith(self, st, op, za, zb, w):
        """product / quotient of two unknowns as uninterpreted functions (option ufarith=1); the contract states the lemma
        instances (lemmas/muldiv.lean) it needs, the division algorithm is asserted here for every quotient"""
        S = z3.BitVecSort(w)
        za, zb = simp(za), simp(zb)
        za, zb = Z(za, w), Z(zb, w)
        st.abstracted = True
        if op == 'mul':
            if za.get_id() > zb.get_id():
                za, zb = zb, za
            f = z3.Function('mul%d' % w, S, S, S)
            k = ('mulcomm', w, za.get_id(), zb.get_id())
            if k not in self.uarith_seen:
                self.uarith_seen[k] = (za, zb)
            st.pc.append(f(za, zb) == f(zb, za))
            return f(za, zb)
        f = z3.Function('udiv%d' % w, S, S, S)
        q = f(za, zb)
        m = Z(self.uarith(st, 'mul', q, zb, w), w)
        st.pc.append(z3.Implies(zb != 0, z3.And(z3.ULE(m, za), z3.ULT(za - m, zb))))
        return q

    CM = {'eq': lambda a, b: a == b, 'ne': lambda a, b: a != b,
          'ult': z3.ULT, 'ule': z3.ULE, 'ugt': z3.UGT, 'uge': z3.UGE,
          'slt': lambda a, b: a < b, 'sle': lambda a, b: a <= b, 'sgt': lambda a, b: a > b, 'sge': lambda a, b: a >= b}

    def icmp(self, st, p, a, b, w):
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            return self.pcmp(st, p, a, b)
        if isinstance(a, Ptr):
            a = self.p2i(st, a)
        if isinstance(b, Ptr):
            b = self.p2i(st, b)
        if self.probe is not None and w > 1:
            self.probe.cmps.append((a, b, w))
        if w == 1:
            e = simp(ZB(a) == ZB(b))
            if p == 'eq':
                return e
            if p == 'ne':
                return bneg(e)
            raise Unsup('i1 cmp')
        if is_c(a) and is_c(b):
            sa, sb = sgn(a, w), sgn(b, w)
            return {'eq': a == b, 'ne': a != b, 'ult': a < b, 'ule': a <= b, 'ugt': a > b, 'uge': a >= b,
                    'slt': sa < sb, 'sle': sa <= sb, 'sgt': sa > sb, 'sge': sa >= sb}[p]
        return simp(self.CM[p](Z(a, w), Z(b, w)))

    def pcmp(self, st, p, a, b):
        if a.o == b.o:
            if p in ('eq', 'ne') and a.o and st.objs[a.o].kind == 'arr':
                # compare element indices rather than byte offsets (same field): offsets of
                # in-range elements are equal iff the indices are
                try:
                    o = st.objs[a.o]
                    ia, fa = self.split(o, a.off)
                    ib, fb = self.split(o, b.off)
                    if fa == fb:
                        return self.icmp(st, p, ia, ib, 64)
                    return p == 'ne'
                except Unsup:
                    pass
            if p not in ('eq', 'ne') and a.o and st.objs[a.o].kind == 'arr':
                try:
                    o = st.objs[a.o]
                    ia, fa = self.split(o, a.off)
                    ib, fb = self.split(o, b.off)
                    if fa == fb:
                        return self.icmp(st, p, ia, ib, 64)
                except Unsup:
                    pass
            return self.icmp(st, p, a.off, b.off, 64)
        if p in ('eq', 'ne'):
            r = False
            for x, y in ((a, b), (b, a)):
                if x.o == 0:
                    o = st.objs[y.o]
                    if o.kind == 'opaque' and is_c(x.off) and x.off == 0:
                        r = o.nullb
                        return r if p == 'eq' else bneg(r)
            oa = st.objs.get(a.o)
            ob = st.objs.get(b.o)
            if oa is not None and ob is not None and oa.kind == 'opaque' and ob.kind == 'opaque':
                r = simp(oa.base == ob.base)
                return r if p == 'eq' else bneg(r)
            if (oa is not None and oa.kind == 'opaque') or (ob is not None and ob.kind == 'opaque'):
                r = simp(add64(oa.base, a.off) == add64(ob.base, b.off)) if oa is not None and ob is not None else False
                return r if p == 'eq' else bneg(r)
            return p == 'ne'
        return self.icmp(st, p, self.p2i(st, a), self.p2i(st, b), 64)


def logw(st, k, e):
    st.log[k] = st.log.get(k, []) + [e]


def mul(a, k):
    if is_c(a):
        return a * k & M64
    return a * z3.BitVecVal(k, 64)


def inrange(lo, i, hi):
    if is_c(lo) and is_c(i) and is_c(hi):
        return lo <= i < hi
    return z3.And(z3.ULE(Z(lo, 64), Z(i, 64)), z3.ULT(Z(i, 64), Z(hi, 64)))


def bneg(b):
    return (not b) if isinstance(b, bool) else z3.Not(b)


def fa_hasdef(fa):
    while fa is not None:
        if fa.k == 'def':
            return True
        if fa.k == 'r' and fa_hasdef(fa.src):
            return True
        if fa.k == 'w' and isinstance(fa.val, Ptr):
            return True
        fa = fa.prev
    return False


def fa_isptr(fa):
    while fa is not None:
        if fa.isptr:
            return True
        if fa.k == 'w' and isinstance(fa.val, Ptr):
            return True
        if fa.k == 'r' and fa_isptr(fa.src):
            return True
        fa = fa.prev
    return False


def short(l):
    return re.sub(r'^.*/(sparta/|src/|contracts/)', r'\1', l)


class FVal(object):
    """symbolic double: a z3 FP or uninterpreted bit-pattern"""
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def bits(self, eng):
        return z3.fpToIEEEBV(self.t)


_M = sys.modules.setdefault("vcgen", sys.modules[__name__])
from vcexec import ExecMixin  # noqa: E402
from vcloop import LoopMixin  # noqa: E402


class Verifier(ExecMixin, LoopMixin, Engine):
    pass


def main():
    path, entries = sys.argv[1], sys.argv[2:]
    mod = Module(path)
    for e in entries or sorted(n for n in mod.fns if n.startswith('vh_')):
        v = Verifier(mod, {'verbose': 1})
        r = v.verify(e)
        print('==', e, 'paths', r['paths'], 'time %.1f' % r['time'], 'err', r['error'], 'steps', r['steps'], 'q', v.stats['queries'])
        for o in r['obligations']:
            print('   ', o['name'], 'proved', o['proved'], 'failed', o['failed'], 'unknown', o['unknown'])
            for c in o.get('cex', [])[:1]:
                print('       ', c['values'])
                print('       ', '\n         '.join(c['where']))
        print('    covers', r['covers'])


if __name__ == '__main__':
    sys.modules['vcgen'] = sys.modules['__main__']
    main()
