#!/usr/bin/env python3-vt
"""check.py PROPERTY [--tier quick|thorough] [--verbose]

Decides one property on /repo's current working tree.
 1. builds the IR exporter, compiles every contract file of the property against the
    real headers/sources, exports the IR of all reachable functions;
 2. the deductive verifier discharges every obligation of every `vh_*` entry;
 3. the public-API oracle(s) of the property run (bounded; they supply failing inputs and
    stand in, labelled, for functions out of the verifier's reach);
 4. evidence/<id>.json is rewritten; exit 0 / 1 + VIOLATION line."""
import argparse, concurrent.futures as cf, glob, json, os, re, shutil, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'engine'))
REPO = os.environ.get('VERIF_REPO', '/repo')
DEFS = ['-DNDEBUG', '-DRAPIDJSON_NOMEMBERITERATORCLASS', '-DSIMDB_ENABLED=0', '-DSPARTA_VERSION="x"']
EXCLUDE = {'Backtrace.cpp', 'CherryPickFastCheckpointer.cpp', 'MemoryProfiler.cpp', 'ReportStatsCollector.cpp'}
GROUPS = [x.split() for x in ('Report', 'ExpressionGrammar Expression StatisticDef StatisticInstance', 'TreeFilterExpressionGrammar TreeFilterExpression ConfigParserYAML', 'CommandLineSimulator',
          'Simulation SimulationConfiguration TemporaryRunController', 'TreeNode RootTreeNode TreeNodeExtensions TreeNodeExtensionManager GenericUnit',
          'ReportDescriptor ReportRepository StatisticsStreams StatisticsArchives BaseFormatter CsvFormatter JsonFormatter JavascriptObject StatsMapping',
          'ExpressionTrigger ContextCounterTrigger ContextCounter Trigger TriggerManager YAMLTreeEventHandler')]
PY = 'python3-vt'
NCPU = os.cpu_count() or 4


def directives(path):
    d = {'replace': [], 'opaque': [], 'entryopts': {}, 'opt': {}, 'src': [], 'flags': [], 'full': False, 'property': [], 'assume': [], 'cflags': [], 'lemma': []}
    for l in open(path):
        m = re.match(r'//\s*(PROPERTY|REPLACE|OPAQUE|ENTRY|OPT|SRC|FLAGS|CFLAGS|FULL|ASSUME|LEMMA):?\s*(.*)$', l)
        if not m:
            continue
        k, v = m.group(1), m.group(2).strip()
        if k == 'REPLACE':
            a, b = v.split('=>')
            d['replace'].append((a.strip(), b.strip()))
        elif k == 'OPAQUE':
            d['opaque'].append(v)
        elif k == 'ENTRY':
            n, rest = v.split(None, 1)
            d['entryopts'][n] = dict((x.split('=')[0], int(x.split('=')[1])) for x in rest.split())
        elif k == 'OPT':
            d['opt'].update(dict((x.split('=')[0], int(x.split('=')[1])) for x in v.split()))
        elif k == 'SRC':
            d['src'] += v.split()
        elif k == 'FLAGS':
            d['flags'] += v.split()
        elif k == 'CFLAGS':
            d['cflags'] += v.split()
        elif k == 'FULL':
            d['full'] = True
        elif k == 'PROPERTY':
            d['property'] += v.split()
        elif k == 'ASSUME':
            d['assume'].append(v)
        elif k == 'LEMMA':
            d['lemma'] += v.split()
    return d


def sh(cmd, timeout, **kw):
    t = time.time()
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout, errors='replace', **kw)
        return p.returncode, p.stdout, p.stderr, time.time() - t
    except subprocess.TimeoutExpired as e:
        o = e.stdout or b''
        return -999, o.decode('latin1') if isinstance(o, bytes) else o, 'TIMEOUT', time.time() - t


class Check(object):
    def __init__(self, prop, tier, verbose, only=None, nooracle=False, noproof=False):
        self.prop, self.tier, self.verbose = prop, tier, verbose
        self.only, self.nooracle, self.noproof = only, nooracle, noproof
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.tmp = tempfile.mkdtemp(prefix='verif_%s_' % prop)
        self.t0 = time.time()
        self.limit = self.t0 + (780 if tier == 'quick' else 3400)
        self.pool = cf.ThreadPoolExecutor(NCPU)
        self.entries = []         # results
        self.problems = []        # contract could not be brought to the verifier
        self.oracles = []
        self.lemmas = []
        self.log = []

    def say(self, *a):
        s = ' '.join(str(x) for x in a)
        self.log.append(s)
        if self.verbose:
            print(s, flush=True)

    # ---------------------------------------------------------------- proof side
    def build_exporter(self):
        exe = os.path.join(self.tmp, 'irexport')
        cache = os.environ.get('VERIF_EXPORTER')
        if cache and os.path.exists(cache):
            return cache
        fl = subprocess.run(['llvm-config-18', '--cxxflags'], stdout=subprocess.PIPE, text=True).stdout.split()
        fl = [x for x in fl if not re.match(r'-O\d|-DNDEBUG', x)]
        rc, o, e, t = sh(['clang++', '-O0', '-std=c++17'] + fl + ['-fno-rtti', os.path.join(HERE, 'engine/irexport.cpp'), '-o', exe, '-L/usr/lib/llvm-18/lib', '-lLLVM-18'], 300)
        if rc:
            raise RuntimeError('exporter build failed: ' + e[-2000:])
        return exe

    def compile_contract(self, path):
        n = os.path.splitext(os.path.basename(path))[0]
        d = directives(path)
        bc = os.path.join(self.tmp, n + '.bc')
        rc, o, e, t = sh(['clang++', '-std=c++17', '-O1', '-Xclang', '-disable-llvm-passes', '-gline-tables-only', '-w', '-fno-access-control',
                          '-I' + os.path.join(HERE, 'engine'), '-I' + os.path.join(HERE, 'contracts'), '-I' + REPO + '/sparta', '-I' + REPO + '/sparta/src'] + DEFS + d['cflags'] + ['-emit-llvm', '-c', path, '-o', bc], 400)
        return bc, rc, e

    def run_contract(self, path, fexp, leaf):
        n = os.path.splitext(os.path.basename(path))[0]
        d = directives(path)
        try:
            fbc = self.pool.submit(self.compile_contract, path)
            bc, rc, err = fbc.result()
            if rc:
                self.problems.append({'contract': n, 'stage': 'compile', 'detail': err[:3000]})
                self.say('contract', n, 'does not compile against the current tree:\n', err[:1500])
                return
            exp = fexp.result()
            js = os.path.join(self.tmp, n + '.json')
            rc, o, e, t = sh([exp, bc, js, 'vh_', leaf], 300)
            if rc:
                self.problems.append({'contract': n, 'stage': 'export', 'detail': e[:3000]})
                return
            names = sorted(set(re.findall(r'"name":"(vh_\w+)"', open(js).read())))
            os.unlink(bc)
            futs = []
            for en in names:
                if self.only and self.only not in en:
                    continue
                futs.append(self.pool.submit(self.run_entry, n, js, en, d))
            for f in futs:
                f.result()
        except Exception as ex:
            self.problems.append({'contract': n, 'stage': 'driver', 'detail': repr(ex)})

    def run_entry(self, n, js, en, d):
        opts = {'replace': d['replace'], 'opaque': d['opaque'], 'wall': 420 if self.tier == 'quick' else 1200, 'timeout': 15000 if self.tier == 'quick' else 60000}
        opts.update(d['opt'])
        opts.update(d['entryopts'].get(en, {}))
        r = self.worker(n, js, en, opts)
        r['contract'] = n
        r['bounded'] = opts.get('bmc')
        failed = [o for o in r.get('obligations', []) if o['failed']]
        r['refuted'] = []
        if failed:
            conc = [o for o in failed if any(not c['abstract'] for c in o.get('cex', []))]
            if opts.get('soft'):
                # specification functions known only through axioms: a counterexample may be an
                # interpretation the axioms do not exclude, so it does not refute the code
                self.entries.append(r)
                self.say('soft entry', en, 'not discharged', [o['name'] for o in failed])
                return r
            if opts.get('bmc') is not None:
                conc = failed
            r['refuted'] = [o['name'] for o in conc]
            if not conc:
                # only under loop abstraction: confirm with exact loop semantics
                o2 = dict(opts)
                o2['bmc'] = 5
                o2['wall'] = 150
                r2 = self.worker(n, js, en, o2)
                f2 = {o['name']: o for o in r2.get('obligations', []) if o['failed']}
                r['refuted'] = sorted(f2)
                r['confirm'] = {'mode': 'exact loops, at most 5 undecided exits each', 'error': r2.get('error'), 'failed': [o for o in f2.values()]}
        self.entries.append(r)
        self.say('entry %-38s %s paths=%s oblig=%d failed=%s unknown=%s t=%.1fs %s' % (
            en, 'OK ' if self.entry_ok(r) else 'NOT', r.get('paths'), sum(o['proved'] + o['failed'] + o['unknown'] for o in r.get('obligations', [])),
            [o['name'] for o in failed], [o['name'] for o in r.get('obligations', []) if o['unknown']], r.get('time', 0), r.get('error') or ''))
        if self.verbose:
            for o in failed:
                for c in o.get('cex', [])[:1]:
                    self.say('     ', o['name'], c['values'], '\n        ' + '\n        '.join(c['where']), 'abstract' if c['abstract'] else 'exact')
            if r['refuted']:
                self.say('      refuted:', r['refuted'])
            un = [c for c, v in r.get('covers', {}).items() if not v]
            if un:
                self.say('      UNREACHED covers', un)
        return r

    def worker(self, n, js, en, opts):
        of = tempfile.NamedTemporaryFile('w', dir=self.tmp, suffix='.json', delete=False)
        json.dump(opts, of)
        of.close()
        left = max(20, self.limit - time.time())
        rc, o, e, t = sh([PY, os.path.join(HERE, 'engine/worker.py'), js, en, of.name], min(opts['wall'] + 120, left))
        try:
            return json.loads(o)
        except Exception:
            return {'entry': en, 'obligations': [], 'covers': {}, 'paths': 0, 'error': ('timeout' if rc == -999 else 'verifier crashed: ' + e[-1500:]), 'time': t, 'functions': [], 'loops': {}, 'opaque': []}

    def run_lemma(self, f):
        rc, o, e, t = sh(['lean', os.path.join(HERE, 'lemmas', f)], 300)
        txt = open(os.path.join(HERE, 'lemmas', f)).read()
        ok = rc == 0 and 'error' not in o and 'sorry' not in o + txt and not re.search(r'^axiom', txt, re.M)
        ths = re.findall(r'^theorem (\S+)', txt, re.M)
        self.lemmas.append({'file': f, 'ok': ok, 'theorems': ths, 'time': t})
        if not ok:
            self.problems.append({'contract': f, 'stage': 'lemma', 'detail': (o + e)[:1000]})

    def entry_ok(self, r):
        return not r.get('error') and r.get('paths', 0) > 0 and all(o['failed'] == 0 and o['unknown'] == 0 for o in r['obligations']) and r['obligations'] \
            and all(r.get('covers', {}).values() or [True])

    # ---------------------------------------------------------------- oracle side
    def build_full(self):
        """the whole library, in a few translation units that include the real sources"""
        srcs = [s for s in sorted(glob.glob(REPO + '/sparta/src/*.cpp')) if os.path.basename(s) not in EXCLUDE]
        od = os.path.join(self.tmp, 'lib')
        os.mkdir(od)
        stem = dict((os.path.basename(s)[:-4], s) for s in srcs)
        gs = [[stem.pop(x) for x in g if x in stem] for g in GROUPS]
        gs.append([stem[x] for x in sorted(stem)])
        gs = [g for g in gs if g]

        def group(i):
            f = os.path.join(od, 'unity%d.cpp' % i)
            open(f, 'w').write(''.join('#include "%s"\n' % x for x in gs[i]))
            o = self.obj(f, od, ['-O0'])
            if not o[1]:
                return [o]
            return [self.obj(s, od, ['-O0']) for s in gs[i]]     # not combinable: one by one
        order = sorted(range(len(gs)), key=lambda i: -(3 if 'CommandLine' in gs[i][0] or 'Grammar' in gs[i][0] else 1))
        futs = [self.pool.submit(group, i) for i in order]
        objs = [o for f in futs for o in f.result()]
        bad = [o for o in objs if o[1]]
        if bad:
            return None, bad[0][2]
        lib = os.path.join(od, 'libsparta.a')
        rc, o, e, t = sh(['ar', 'crs', lib] + [o[0] for o in objs], 120)
        if rc:
            return None, e
        return lib, ''

    def obj(self, src, od, fl):
        o = os.path.join(od, os.path.basename(src)[:-4] + '.o')
        rc, so, e, t = sh(['g++', '-std=c++17', '-w', '-ffunction-sections', '-I' + REPO + '/sparta'] + DEFS + fl + ['-c', src, '-o', o], 600)
        return o, rc, e

    def run_oracle(self, path, flib):
        r = self.run_oracle1(path, flib, False)
        if r['status'] == 'fail' and r.get('stubbed') and 'signal 4' in r['detail']:
            # the code reached a part of the library that was left out: use all of it
            self.oracles.remove(r)
            r = self.run_oracle1(path, None, True)
        return r

    def run_oracle1(self, path, flib, full):
        n = os.path.splitext(os.path.basename(path))[0]
        d = directives(path)
        if full and not d['full']:
            d['full'], d['src'] = True, []
            n += '_full'
            lib = self.build_full()
            flib = type('F', (), {'result': lambda s: lib})()
        res = {'oracle': n, 'status': 'error', 'detail': '', 'cases': 0}
        self.oracles.append(res)
        od = os.path.join(self.tmp, 'o_' + n)
        os.mkdir(od)
        fl = d['flags'] or ['-O1']
        exe = os.path.join(od, n)
        rsrc = [os.path.join(REPO, s) for s in d['src']] + [os.path.join(HERE, 'oracles/rt_backtrace.cpp')]
        if not d['full']:
            rsrc.append(REPO + '/sparta/src/SpartaException.cpp')
        fs = [self.pool.submit(self.obj, s, od, fl) for s in dict.fromkeys(rsrc)]
        fm = self.pool.submit(self.oracle_main, path, od, fl)
        objs = [f.result() for f in fs]
        mo = fm.result()
        for o in objs + [mo]:
            if o[1]:
                res['status'] = 'nobuild'
                res['detail'] = o[2][:3000]
                self.say('oracle', n, 'does not build:', o[2][:1500])
                return res
        libs = []
        if d['full']:
            lib, err = flib.result()
            if not lib:
                res['status'] = 'nobuild'
                res['detail'] = err[:3000]
                self.say('oracle', n, 'library does not build', err[:1500])
                return res
            libs = [lib]
        san = [f for f in fl if f.startswith('-fsan')]
        L = ['-Wl,--gc-sections', '-Wl,--as-needed', '-lpthread', '-ldl', '-lyaml-cpp', '-lz', '-lrt'] + ['-lboost_' + x for x in ('date_time', 'iostreams', 'serialization', 'timer', 'program_options')]
        os_ = [mo[0]] + [o[0] for o in objs]
        rc, so, e, t = sh(['g++'] + san + ['-o', exe] + os_ + libs + ['-Wl,--no-demangle'] + L, 300)
        if rc and 'undefined reference' in e:
            # parts of the library the oracle never calls: trap stubs
            res['stubbed'] = True
            self.say('stubs', len(set(re.findall(r"undefined reference to `([^']+)'", e))))
            und = sorted(set(re.findall(r"undefined reference to `([^']+)'", e)))
            sf = os.path.join(od, 'stubs.s')
            with open(sf, 'w') as f:
                for u in und:
                    if re.match(r'_ZT[VIST]|_ZGV', u) or re.match(r'_ZN(\d|S)', u) and not re.search(r'E[a-zA-Z0-9_]', u) and not u.endswith('v'):
                        f.write('.data\n.balign 16\n.globl %s\n%s:\n.zero 512\n' % (u, u))
                    elif 'SpartaStaticInitializer' in u:
                        f.write('.text\n.globl %s\n%s:\nxorl %%eax,%%eax\nret\n' % (u, u))
                    else:
                        f.write('.text\n.globl %s\n%s:\nud2\n' % (u, u))
                f.write('.section .note.GNU-stack,"",@progbits\n')
            rc, so, e, t = sh(['g++'] + san + ['-o', exe] + os_ + [sf] + libs + ['-Wl,--no-demangle'] + L, 300)
        if rc:
            res['status'] = 'nobuild'
            res['detail'] = e[:3000]
            self.say('oracle', n, 'does not link:', e[:1500])
            return res
        scratch = os.path.join(od, 'scratch')
        os.mkdir(scratch)
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:allocator_may_return_null=1')
        f = self.pool.submit(sh, [exe, str(self.seed), '1' if self.tier == 'quick' else '12'], 300 if self.tier == 'quick' else 1500, cwd=scratch, env=env)
        rc, so, e, t = f.result()
        m = re.search(r'ORACLE-OK cases=(\d+) steps=(\d+)', so)
        res['known'] = re.findall(r'ORACLE-KNOWN (\S+)', so)
        res['time'] = t
        if rc == 0 and m:
            res['status'] = 'ok'
            res['cases'] = int(m.group(1))
            res['steps'] = int(m.group(2))
        else:
            fm = re.search(r'ORACLE-FAIL(.*)', so, re.S)
            if fm or rc not in (-999, -9, 137):
                res['status'] = 'fail'
                res['detail'] = (so[-6000:] + '\n' + e[-3000:]).strip() + '\nexit code %s' % rc
            else:
                res['status'] = 'timeout'
                res['detail'] = 'rc %s' % rc
        self.say('oracle', n, res['status'], 'cases', res['cases'], 'steps', res.get('steps'), '%.1fs' % t, res['detail'][:1500])
        return res

    def oracle_main(self, path, od, fl):
        o = os.path.join(od, 'main.o')
        rc, so, e, t = sh(['g++', '-std=c++17', '-w', '-ffunction-sections', '-I' + os.path.join(HERE, 'oracles'), '-I' + REPO + '/sparta'] + DEFS + fl + ['-c', path, '-o', o], 600)
        return o, rc, e

    # ---------------------------------------------------------------- main
    def run(self):
        contracts = [p for p in sorted(glob.glob(os.path.join(HERE, 'contracts/*.cpp'))) if self.prop in directives(p)['property']]
        oracles = [p for p in sorted(glob.glob(os.path.join(HERE, 'oracles/*.cpp'))) if self.prop in directives(p)['property']]
        if self.noproof:
            contracts = []
        if self.nooracle:
            oracles = []
        import vcgen
        leaf = os.path.join(self.tmp, 'leaf.txt')
        open(leaf, 'w').write('\n'.join(vcgen.leaf_prefixes()) + '\n')
        fexp = self.pool.submit(self.build_exporter) if contracts else None
        # coordinator threads (not in the worker pool: they only wait)
        co = cf.ThreadPoolExecutor(32)
        fs = [co.submit(self.run_contract, p, fexp, leaf) for p in contracts]
        flib = co.submit(self.build_full) if any(directives(p)['full'] for p in oracles) else None
        fo = [co.submit(self.run_oracle, p, flib) for p in oracles]
        fl = [co.submit(self.run_lemma, l) for l in sorted(set(l for p in contracts for l in directives(p)['lemma']))]
        for f in fs + fo + fl:
            f.result()
        return self.report(contracts, oracles)

    def report(self, contracts, oracles):
        P = self.prop
        ob = dis = 0
        back = {}
        for r in self.entries:
            if r.get('bounded') is not None:
                continue
            for o in r['obligations']:
                ob += o['proved'] + o['failed'] + o['unknown']
                dis += o['proved']
                for k, v in o['solvers'].items():
                    back[k] = back.get(k, 0) + v
        for l in self.lemmas:
            ob += len(l['theorems'])
            if l['ok']:
                dis += len(l['theorems'])
                back['lean'] = back.get('lean', 0) + len(l['theorems'])
        undone = [r['entry'] for r in self.entries if not self.entry_ok(r)]
        refuted = [(r, x) for r in self.entries for x in r['refuted']]
        ofail = [o for o in self.oracles if o['status'] == 'fail']
        fns = sorted(set(f for r in self.entries for f in r['functions']))
        repo_fns = [f for f in fns if 'sparta::' in f]
        opaque = sorted(set(f for r in self.entries for f in r.get('opaque', [])))
        decl = []
        assume = []
        for p in contracts:
            d = directives(p)
            assume += d['assume']
            decl += ['%s: %s replaced by contract stub %s' % (os.path.basename(p), a, b) for a, b in d['replace']]
            decl += ['%s: %s assumed without effect' % (os.path.basename(p), a) for a in d['opaque']]
        nviol = 0
        lines = []
        os.makedirs(os.path.join(HERE, 'evidence', 'replay'), exist_ok=True)
        rp = os.path.join(HERE, 'evidence', 'replay', '%s.txt' % P)
        if ofail or refuted:
            with open(rp, 'w') as f:
                for o in ofail:
                    f.write('FAILING INPUT (real code, public API, oracle %s):\n%s\n\n' % (o['oracle'], o['detail']))
                    f.write('re-run: cd %s && VERIF_SEED=%d python3-vt check.py %s --no-proof --verbose\n\n' % (HERE, self.seed, P))
                for r, x in refuted:
                    f.write('FAILED OBLIGATION %s of %s (contracts/%s.cpp)\n' % (x, r['entry'], r['contract']))
                    for o in r['obligations'] + r.get('confirm', {}).get('failed', []):
                        if o['name'] == x:
                            for c in o.get('cex', []):
                                f.write('  verifier counterexample: %s\n  at %s\n' % (json.dumps(c['values']), '\n     '.join(c['where'])))
        if ofail:
            nviol = len(ofail)
            lines.append('VIOLATION property=%s replay=%s' % (P, rp))
        elif refuted:
            nviol = len(refuted)
            lines.append('VIOLATION property=%s replay=%s no-failing-input-found' % (P, rp))
        for l in open(os.path.join(HERE, 'known_findings.txt')):
            m = re.match(r'known: property=(\S+) (.*)', l)
            if m and m.group(1) == P:
                lines.append('KNOWN-FINDING: property=%s %s' % (P, m.group(2)))
        problems = list(self.problems)
        ev = {
            'property': P, 'tier': self.tier, 'seed': self.seed, 'level': 'proof',
            'coverage': {
                'obligations': ob, 'discharged': dis,
                'checker_cmd': 'python3-vt check.py %s --tier %s' % (P, self.tier),
                'trusted_base': ['engine/ (VC generator for LLVM IR), clang 18 front end, LLVM sroa/early-cse/simplifycfg/instsimplify/lowerswitch/loop-simplify', 'z3 4.8.12 (python API), cvc5 1.1.2 / z3-new as second back ends', 'fixed allocation success; machine integers exact (bit-vectors), no overflow idealisation'] + decl + ['opaque (no effect assumed): ' + f[:160] for f in opaque],
                'entries': [{'entry': r['entry'], 'contract': r['contract'], 'discharged': bool(self.entry_ok(r)), 'paths': r.get('paths'), 'bounded': r.get('bounded'), 'error': r.get('error'),
                             'obligations': [{'name': o['name'], 'proved': o['proved'], 'failed': o['failed'], 'unknown': o['unknown']} for o in r['obligations']],
                             'covers': r.get('covers', {}), 'time_s': round(r.get('time', 0), 2), 'loops_cut_by_invariants': list(r.get('loops', {}).keys())} for r in sorted(self.entries, key=lambda x: x['entry'])],
                'back_ends': back, 'solver_time_s': round(sum(r.get('qtime', 0) for r in self.entries), 2), 'solver_queries': sum(r.get('queries', 0) for r in self.entries),
                'lemmas': self.lemmas,
                'functions_under_contract': repo_fns,
                'not_discharged': undone, 'extraction_problems': problems,
                'bounded_stand_ins': [{'oracle': o['oracle'], 'status': o['status'], 'cases': o['cases'], 'steps': o.get('steps'), 'note': 'bounded, not counted as proved'} for o in self.oracles] +
                                     [{'entry': r['entry'], 'unroll': r['bounded'], 'note': 'bounded, not counted as proved'} for r in self.entries if r.get('bounded') is not None],
                'refuted': ['%s:%s' % (r['entry'], x) for r, x in refuted],
            },
            'assumptions': assume + ['entry preconditions are the stated representation invariants; each public operation re-establishes them',
                                     'memory of distinct objects does not alias unless the contract says so'],
            'wall_s': round(time.time() - self.t0, 2), 'violations': nviol,
        }
        with open(os.path.join(HERE, 'evidence', P + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        print('%s: %d/%d obligations discharged in %d entries, %d functions, oracles %s, %.1fs%s' % (
            P, dis, ob, len(self.entries), len(repo_fns), ['%s:%s' % (o['oracle'], o['status']) for o in self.oracles], time.time() - self.t0,
            (' NOT DISCHARGED: %s' % undone) if undone else ''))
        for p in problems:
            print('note: contract %s not brought to the verifier (%s): %s' % (p['contract'], p['stage'], p['detail'][:400]))
        for l in lines:
            print(l)
        return 1 if nviol else 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--verbose', '-v', action='store_true')
    ap.add_argument('--no-oracle', action='store_true')
    ap.add_argument('--no-proof', action='store_true')
    ap.add_argument('--entry')
    a = ap.parse_args()
    c = Check(a.prop, a.tier, a.verbose, a.entry, a.no_oracle, a.no_proof)
    try:
        rc = c.run()
    finally:
        shutil.rmtree(c.tmp, ignore_errors=True)
    sys.exit(rc)


if __name__ == '__main__':
    main()
