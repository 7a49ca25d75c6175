"""Verify one entry in a process of its own: worker.py MODULE.json ENTRY OPTS.json > RESULT.json"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vcgen


def main():
    mod = vcgen.Module(sys.argv[1])
    opts = json.load(open(sys.argv[3]))
    opts['replace'] = [tuple(x) for x in opts.get('replace', [])]
    v = vcgen.Verifier(mod, opts)
    r = v.verify(sys.argv[2])
    r['queries'] = v.stats['queries']
    r['qtime'] = v.stats['qtime']
    r['extsmt'] = v.extsmt
    r['functions'] = sorted(mod.dem.get(n, n) for n in v.fns_executed)
    r['fnfiles'] = {}
    r['loops'] = v.loops_proved
    r['opaque'] = sorted(mod.dem.get(n, n) for n in v.opaque_used)
    json.dump(r, sys.stdout, default=str)


main()
