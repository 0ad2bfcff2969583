"""Samples the native build of a property's contracts: what the bounded stand-in would report on this tree."""
import sys, os, json, importlib.util, subprocess
cid = sys.argv[1]; n = sys.argv[2] if len(sys.argv) > 2 else '40'
spec = importlib.util.spec_from_file_location('run', os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'run.py')); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
nat = m.build('nat', cid); rs = []
for v in m.VARIANTS:
    r = subprocess.run(['timeout', '900', nat, '--sample', n, '--tol', '1e-4', '--out', '/tmp/nat.json'] + v, capture_output=True, text=True, env=dict(os.environ, ASAN_OPTIONS='detect_leaks=0:detect_odr_violation=0'))
    if r.returncode: print('native run ended with', r.returncode, r.stderr[-2500:]); sys.exit(1)
    rs.append(json.load(open('/tmp/nat.json')))
c = {}
for x in m.stable(rs):
    e = c.setdefault(x['contract'], [0, 0, {}]); e[0] += x['in_contract']; e[1] += x['checked']
    for f in x['fails']: e[2].setdefault(f['obligation'], []).append((f['left'], f['right'], f['note'][:200]))
for k, v in c.items(): print(k, 'in contract', v[0], 'checked', v[1], {a: (len(b), b[:2]) for a, b in v[2].items()})
