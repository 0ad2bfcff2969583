#!/usr/bin/env python3
"""Confirms and keeps planted changes.  plant.py SPEC.py [id...]: SPEC defines SEEDS = [dict(id, property, file,
edits=[(old,new)] or {file: edits}, needs, breaks, demo=<C++ body of main>, pre=<C++ before main>, db=bool)].
Applies each to /repo (must be clean), builds, runs the stable test, the demo with and without, and the property's check."""
import sys, os, subprocess, json, runpy, shutil, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); R = os.environ.get('VF_SEEDREPO', '/tmp/sr'); B = '/tmp/srp'   # a scratch clone of /repo, and the build description for it
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
DEMO = '''#!/bin/bash
# exit 0 when the property holds, nonzero when it does not; run with cwd /repo after the build
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
g++ -std=c++20 -O1 -w -ffunction-sections -fdata-sections -I"$d" -I. -IThermoFun -DSPDLOG_HEADER_ONLY -DFMT_HEADER_ONLY "$d/demo.cpp" %s _build/libThermoFunPartial.a -Wl,--gc-sections -lfmt -o "$t/demo" 2>"$t/err" || g++ -std=c++20 -O1 -w -ffunction-sections -fdata-sections -I"$d" -I. -IThermoFun "$d/demo.cpp" %s _build/libThermoFunPartial.a -Wl,--gc-sections -lspdlog -lfmt -o "$t/demo" || { cat "$t/err"; exit 2; }
cd "$t" && timeout 120 ./demo
'''
HEAD = '''#include <cmath>
#include <cstdio>
#include <iostream>
#include <string>
#include <vector>
static int bad = 0;
static void near(const char* what, double a, double b, double rel = 1e-6, double abs = 1e-9) { if (!(std::fabs(a - b) <= rel * std::fmax(std::fabs(a), std::fabs(b)) + abs)) { std::printf("%s: %.15g, expected %.15g\\n", what, a, b); bad = 1; } }
static void check(const char* what, bool ok) { if (!ok) { std::printf("%s\\n", what); bad = 1; } }
'''
def main():
    S = runpy.run_path(sys.argv[1])['SEEDS']; want = sys.argv[2:]
    if not os.path.isdir(R): sh('git clone -q /repo ' + R)
    assert not sh('git -C %s status --porcelain -uno' % R).stdout.strip(), R + ' is not clean'
    sh('git -C %s pull -q /repo main' % R); sh('mkdir -p %s; sed s,/repo,%s, /opt/vp/partial/CMakeLists.txt > %s/CMakeLists.txt' % (B, R, B))
    build = 'export CC=gcc CXX=g++ CCACHE_DISABLE=1; cmake -S %s -B %s/_build -G Ninja -DCMAKE_BUILD_TYPE=RelWithDebInfo -DCMAKE_CXX_FLAGS=-Wno-error && ninja -C %s/_build' % (B, R, R)
    for s in S:
        if want and s['id'] not in want: continue
        d = os.path.join(V, 'seeded', s['id']); os.makedirs(d, exist_ok=True)
        edits = s['edits'] if isinstance(s['edits'], dict) else {s['file']: s['edits']}
        x = 'ThermoFun/Database.cpp ThermoFun/Element.cpp' if s.get('db') else ''
        open(d + '/demo.sh', 'w').write(DEMO % (x, x)); os.chmod(d + '/demo.sh', 0o755)
        open(d + '/demo.cpp', 'w').write(HEAD + s.get('pre', '') + '\nint main() {\n' + s['demo'] + '\n    return bad;\n}\n')
        if s.get('db'): shutil.copytree(V + '/stub/ChemicalFun', d + '/ChemicalFun', dirs_exist_ok=True)
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        b = sh(build); assert b.returncode == 0, b.stdout[-2000:]
        r0 = sh('bash %s/demo.sh' % d, cwd=R)
        ok = True; msg = []
        try:
            for f, es in edits.items():
                p = R + '/ThermoFun/' + f; raw = open(p, 'rb').read(); crlf = b'\r\n' in raw; t = raw.decode('latin-1')
                for o, n in es:
                    if crlf: o = o.replace('\n', '\r\n'); n = n.replace('\n', '\r\n')
                    assert t.count(o) == 1, (s['id'], f, o, t.count(o)); t = t.replace(o, n)
                open(p, 'wb').write(t.encode('latin-1'))
            open(d + '/patch.diff', 'wb').write(subprocess.run('git -C ' + R + ' diff', shell=True, capture_output=True).stdout)
            for f in edits:   # removed lines must be the original's
                for h in re.findall(r'^@@ -(\d+)(?:,(\d+))?', sh('git -C ' + R + ' diff -U0 -- ThermoFun/' + f).stdout, re.M):
                    a, n = int(h[0]), int(h[1] or 1)
                    if n: 
                        bl = sh('git -C %s blame -s -L %d,%d HEAD -- ThermoFun/%s' % (R, a, a + n - 1, f)).stdout
                        for l in bl.splitlines():
                            if not l.startswith('^'): ok = False; msg.append('NOT ORIGINAL: ' + l)
            b = sh(build + ' && ninja -C %s/_build unit03 && cd %s/_build && ./unit03' % (R, R))
            if b.returncode: ok = False; msg.append('tests: %s' % b.stdout[-500:])
            r1 = sh('bash %s/demo.sh' % d, cwd=R)
            if r0.returncode != 0: ok = False; msg.append('demo fails without: rc %d %s %s' % (r0.returncode, r0.stdout[-600:], r0.stderr[-600:]))
            if r1.returncode == 0: ok = False; msg.append('demo passes with the change')
            c = sh('VF_REPO=' + R + ' VF_BUILD=/tmp/srb VERIF_SEED=1 python3 %s/run.py %s --tier quick' % (V, s['property']))
            caught = c.returncode == 1 and 'VIOLATION property=' + s['property'] in c.stdout
            nf = all('no-failing' in l for l in c.stdout.splitlines() if l.startswith('VIOLATION'))
            msg.append(('caught' + (' (no failing input)' if nf else '') if caught else 'MISSED rc %d' % c.returncode) + ' | ' + ' ; '.join(l for l in c.stdout.splitlines() if l.startswith('failed') or l.startswith('NOTE') or l.startswith('UNDEC'))[:300])
        finally:
            sh('git -C ' + R + ' checkout -- .')
        print(s['id'], 'VALID' if ok else 'INVALID', '|', ' | '.join(msg), '| demo:', r1.stdout.strip()[:160].replace('\n', ' / '), flush=True)
    sh(build)
main()
