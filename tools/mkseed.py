#!/usr/bin/env python3
"""mkseed.py SPEC.py : creates seeded/<id>/ from a spec (development helper; no check uses it).
SPEC defines SEEDS = [dict(id, property, edits=[(file, old, new)], demo=C++ source, needs, breaks)]"""
import json, os, shutil, subprocess, sys, tempfile
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# run with cwd /repo after the build; exit 0 = behaviour as specified
D="$(cd "$(dirname "$0")" && pwd)"
T="$(mktemp -d)"; trap 'rm -rf "$T"' EXIT
g++ -std=c++17 -O1 -w -DNDEBUG -DRAPIDJSON_NOMEMBERITERATORCLASS -DSIMDB_ENABLED=0 -DSPARTA_VERSION='"x"' -Isparta "$D/demo.cpp" -o "$T/demo" _build/libsparta.a -lyaml-cpp -lz -lboost_date_time -lboost_iostreams -lboost_serialization -lboost_timer -lboost_program_options -lrt -lpthread || { echo "demo does not compile"; exit 3; }
cd "$T" && timeout 120 ./demo
'''
PRE = '''#include <exception>
#include <memory>
#include <cstdio>
#include <cstdlib>
#define EXPECT(c) do { if (!(c)) { printf("FAILED line %d: %s\\n", __LINE__, #c); fflush(stdout); _Exit(1); } } while (0)
'''
g = {}
exec(open(sys.argv[1]).read(), g)
only = sys.argv[2:]
for s in g['SEEDS']:
    if only and s['id'] not in only:
        continue
    d = H + '/seeded/' + s['id']
    os.makedirs(d, exist_ok=True)
    orig = {}
    try:
        for f, old, new in s['edits']:
            p = '/repo/' + f
            t = open(p, newline='').read()
            orig.setdefault(p, t)
            assert t.count(old) == 1, (s['id'], f, t.count(old), old)
            open(p, 'w', newline='').write(t.replace(old, new))
        diff = subprocess.run(['git', '-C', '/repo', 'diff'], capture_output=True, text=True).stdout
    finally:
        for p, t in orig.items():
            open(p, 'w', newline='').write(t)
    open(d + '/patch.diff', 'w').write(diff)
    open(d + '/demo.cpp', 'w').write(PRE + s['demo'])
    open(d + '/demo.sh', 'w').write(DEMO)
    os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    print('seed', s['id'])
