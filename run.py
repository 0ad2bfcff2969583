#!/usr/bin/env python3
"""Runs the contracts of one property against /repo's current tree.

  run.py <property id> [--tier quick|thorough] [--contract NAME] [-v]

Every run compiles the real sources of /repo over symbolic reals, generates the obligations of the
contracts in harness/<id>*.cpp from them, discharges each, replays any refutation on the natively
compiled code, and writes evidence/<id>.json."""
import threading, sys, os, json, hashlib, subprocess, shutil, time, glob, concurrent.futures as cf, re
V = os.path.dirname(os.path.abspath(__file__)); REPO = os.environ.get('VF_REPO', '/repo')
B = os.environ.get('VF_BUILD', os.path.join(V, '.build')); LIB = os.path.join(V, 'lib'); H = os.path.join(V, 'harness')
sys.path.insert(0, os.path.join(V, 'checks'))
from registry import CHECKS, BOUNDS
T0 = time.time()
INC = ['-I' + LIB, '-I' + H, '-I' + os.path.join(V, 'stub'), '-I' + REPO, '-I' + os.path.join(REPO, 'ThermoFun'), '-I' + REPO + '/ThermoFun/Substances/Solvent']
CXX = ['g++', '-std=gnu++20', '-w', '-fPIC', '-fsemantic-interposition', '-fpermissive', '-ftrivial-auto-var-init=pattern', '-ffunction-sections', '-fdata-sections', '-DSPDLOG_ACTIVE_LEVEL=6', '-DFMT_HEADER_ONLY', '-DSPDLOG_HEADER_ONLY']
SYM = CXX + ['-O1', '-D_GLIBCXX_ASSERTIONS', '-DVF_SYMBOLIC']
NAT = CXX + ['-O1', '-g1', '-D_GLIBCXX_ASSERTIONS', '-fsanitize=address', '-fno-sanitize-recover', '-DVF_NATIVE']

def sha(*xs):
    h = hashlib.sha256()
    for x in xs: h.update(x if isinstance(x, bytes) else x.encode()); h.update(b'\0')
    return h.hexdigest()[:24]
def rd(p):
    with open(p, 'rb') as f: return f.read()
_hdr = {}; _lock = threading.Lock()
def headers():
  with _lock:
    if 't' not in _hdr:
        fs = sorted(glob.glob(REPO + '/ThermoFun/**/*.h', recursive=True) + glob.glob(REPO + '/ThermoFun/**/*.hpp', recursive=True))
        _hdr['h'] = sha(*[f + sha(rd(f)) for f in fs])
        fs = sorted(glob.glob(REPO + '/ThermoFun/**/*.cpp', recursive=True)); _hdr['c'] = sha(*[f + sha(rd(f)) for f in fs])
        fs = sorted(glob.glob(LIB + '/*.hpp') + glob.glob(V + '/stub/**/*', recursive=True)); _hdr['l'] = sha(*[f + sha(rd(f)) for f in fs if os.path.isfile(f)])
        _hdr['t'] = sha(*[f + sha(rd(f)) for f in sorted(glob.glob(H + '/*.hpp'))])
    return _hdr
class BuildError(Exception): pass
def cc(cmd, out, timeout=600):
    if os.path.exists(out): return out
    tmp = out + '.tmp%d' % os.getpid()
    r = subprocess.run(cmd + ['-o', tmp], capture_output=True, text=True, timeout=timeout)
    if r.returncode != 0: raise BuildError(' '.join(cmd[-3:]) + '\n' + '\n'.join([l for l in r.stderr.splitlines() if 'error' in l or 'undefined reference' in l][:12] or r.stderr.splitlines()[:12]))
    os.rename(tmp, out); return out
def flags_for(kind): return SYM if kind == 'sym' else NAT
def pch(kind):
    h = headers(); src = LIB + ('/prelude.hpp' if kind == 'sym' else '/prelude_native.hpp')
    d = os.path.join(B, 'pch-%s-%s' % (kind, sha(h['l'], ' '.join(flags_for(kind))))); os.makedirs(d, exist_ok=True)
    p = os.path.join(d, 'pre.hpp')
    if not os.path.exists(p): open(p, 'w').write('#include "%s"\n' % src)
    cc(flags_for(kind) + INC + ['-x', 'c++-header', p], p + '.gch'); return p
def lifted(src):
    """the repository's text with the only mechanical rewriting the lifting needs"""
    t = rd(src).decode('utf-8-sig', 'replace'); t2 = re.sub(r'\blong\s+double\b', 'double', t); return (t2, t2 != t)
_tok = re.compile(r'//[^\n]*|/\*.*?\*/|R"(\w*)\(.*?\)\1"|"(?:\\.|[^"\\\n])*"|\'(?:\\.|[^\'\\\n])+\'|#\s*include[^\n]*|(?<![\w.])(?:\d+\.\d*(?:[eE][+-]?\d+)?|\.\d+(?:[eE][+-]?\d+)?|\d+[eE][+-]?\d+)(?![\w.])', re.S)
def literals(t):
    """floating literals have type double, hence become symbolic constants (exact decimals)"""
    return _tok.sub(lambda m: m.group(0) + '_sr' if m.group(0)[0] in '0123456789.' else m.group(0), t)
def obj(kind, src, pre, extra=()):
    h = headers(); isrepo = src.startswith(REPO)
    key = sha('lift2', kind, ' '.join(flags_for(kind)), ' '.join(extra), h['l'], h['h'], src, rd(src), '' if isrepo else h['c'] + h['t'])
    out = os.path.join(B, 'o', key + '.o'); os.makedirs(os.path.dirname(out), exist_ok=True)
    if os.path.exists(out): return out
    cmd = flags_for(kind) + list(extra) + ['-include', pre] + INC
    if kind == 'sym' and isrepo:
        try: return obj1(kind, src, cmd, out, key)
        except BuildError as e:
            # a symbolic real is not a literal type: constants are constants all the same; last, literals keep their machine type
            has = re.search(rb'(?<!if )\bconstexpr\b', rd(src))
            for how in (['const', 'inline const', 'local'] if has else []) + ['plain']:
                PLAIN[src] = how
                try: return obj1(kind, src, cmd, out, key)
                except BuildError: pass
            raise e
    return obj1(kind, src, cmd, out, key)
PLAIN = {}
def obj1(kind, src, cmd, out, key):
    isrepo = src.startswith(REPO)
    if kind == 'sym' and isrepo:
        t, ch = lifted(src)
        how = PLAIN.get(src)
        if how != 'plain': t = literals(t)
        if how and how != 'plain':   # 'local': only what is indented deeper than a class member
            rep = lambda m: m.group(1) + ('inline const' if how == 'inline const' or (how == 'local' and len(m.group(1).expandtabs(4)) <= 4 and 'static' in m.group(0)) else 'const') + ' '
            t = re.sub(r'(?m)(^[ \t]*|(?<!if)[ \t;{}])(?:static[ \t]+)?constexpr[ \t]+(?:static[ \t]+)?', lambda m: rep(m) if 'static' not in m.group(0) else rep(m) + 'static ', t)
        d = os.path.join(B, 'lift', key); os.makedirs(d, exist_ok=True); n = os.path.join(d, os.path.basename(src)); open(n, 'w').write('#line 1 "%s"\n' % src + t)
        return cc(cmd + ['-I' + os.path.dirname(src), '-c', n], out)
    return cc(cmd + ['-c', src], out)
def engine(kind):
    src = LIB + ('/sym.cpp' if kind == 'sym' else '/vf_native.cpp'); fl = ['g++', '-std=gnu++20', '-w', '-O2'] + (['-fsanitize=address', '-fno-omit-frame-pointer'] if kind == 'nat' else [])
    key = sha(kind, 'engine', rd(src), headers()['l'], rd(LIB + '/chains.inc'), ' '.join(fl)); out = os.path.join(B, 'o', key + '.o'); os.makedirs(os.path.dirname(out), exist_ok=True)
    return cc(fl + ['-I' + LIB, '-c', src], out)
def weaken(o, rx):
    """functions whose name matches rx can be replaced by the stand-in (the callee's contract) a harness defines"""
    if not rx: return o
    out = o[:-2] + '-w2' + sha(rx)[:8] + '.o'
    if os.path.exists(out): return out
    mang = [l.split()[-1] for l in subprocess.run(['nm', '--defined-only', o], capture_output=True, text=True).stdout.splitlines() if ' T ' in l]
    dem = subprocess.run(['c++filt'], input='\n'.join(mang), capture_output=True, text=True).stdout.splitlines()
    syms = [m for m, d in zip(mang, dem) if re.search(rx, d)]; tmp = out + '.tmp%d' % os.getpid()
    # the body stays reachable under vf_real_<name>, for the contract on the function itself
    base = lambda m: re.search(r'(\w+)\(', dem[mang.index(m)]).group(1); full = lambda m: '_'.join(re.search(r'(?:(\w+)::)?(\w+)\(', dem[mang.index(m)]).groups('')); secs = subprocess.run(['readelf', '-SW', o], capture_output=True, text=True).stdout
    first = {n: m for m in reversed(syms) for n in (base(m), full(m))}; alias = [y for n, m in first.items() if '.text.' + m in secs for y in ('--add-symbol', 'vf_real_%s=.text.%s:0,function,global' % (n, m))]
    subprocess.run(['objcopy'] + alias + [x for m in syms for x in ('--weaken-symbol', m)] + [o, tmp], check=True); os.rename(tmp, out); return out
def build(kind, cid):
    c = CHECKS[cid]; hs = [os.path.join(H, x) for x in c['harness']]; rs = [os.path.join(REPO, 'ThermoFun', x) for x in c.get('sources', [])]
    defs = c.get('defs', [])
    with cf.ThreadPoolExecutor(8) as ex:
        fe = ex.submit(engine, kind); pre = ex.submit(pch, kind).result()
        fs = [ex.submit(obj, kind, s, pre, defs) for s in hs + rs]; objs = [f.result() for f in fs]; w = c.get('weaken', {}); objs = [weaken(o, w.get(os.path.relpath(s, os.path.join(REPO, 'ThermoFun')))) for o, s in zip(objs, hs + rs)] + [fe.result()]
    key = sha(*objs); out = os.path.join(B, 'bin', cid + '-' + kind + '-' + key); os.makedirs(os.path.dirname(out), exist_ok=True)
    link = lambda o: cc(['g++', '-Wl,--gc-sections'] + (['-fsanitize=address'] if kind == 'nat' else []) + o + ['-lgmpxx', '-lz3', '-lgmp', '-lquadmath', '-lpthread'], out)
    try: return link(objs)
    except BuildError as e:
        if 'undefined reference' not in str(e): raise
        if kind not in EXTRA:   # a dependency the registry does not list: everything else goes in as an archive
            rest = [f for f in sorted(glob.glob(REPO + '/ThermoFun/**/*.cpp', recursive=True)) if f not in rs]; got = []
            with cf.ThreadPoolExecutor(8) as ex:
                def tryobj(s):
                    try: return obj(kind, s, pre, defs)
                    except BuildError: return None
                got = [o for o in ex.map(tryobj, rest) if o]
            ar = out + '.a'
            if os.path.exists(ar): os.unlink(ar)
            subprocess.run(['ar', 'rcs', ar] + got, check=True); EXTRA[kind] = ar
        return link(objs + [EXTRA[kind]])
EXTRA = {}
# A failure of the native evaluation counts only when its discrepancy is the same for three step sizes of
# the numerical derivatives and under relative changes of the inputs by 1e-8: rounding noise is not.
VARIANTS = [[], ['--hscale', '0.03', '--jitter', '1'], ['--hscale', '0.001', '--jitter', '2']]
def stable(js):
    num = lambda v: float(v) if isinstance(v, (int, float)) else float('nan')
    for xs in zip(*js):
        keep = []
        for f in xs[0]['fails']:
            d = num(f['left']) - num(f['right']); ok = True
            for y in xs[1:]: ok = ok and any(g['obligation'] == f['obligation'] and abs(d - (num(g['left']) - num(g['right']))) <= 0.02 * abs(d) for g in y['fails'])
            if ok: keep.append(f)
        xs[0]['fails'] = keep
    return js[0]
def main():
    a = sys.argv[1:]
    if a[0] == '--setup':
        for k in ('sym', 'nat'): engine(k); pch(k)
        print('engine and precompiled headers built'); return
    cid = a[0]; tier = os.environ.get('VERIF_TIER', 'quick'); only = None; verbose = '-v' in a
    if '--tier' in a: tier = a[a.index('--tier') + 1]
    if '--contract' in a: only = a[a.index('--contract') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1); c = CHECKS[cid]; os.makedirs(B, exist_ok=True)
    kf = json.load(open(V + '/known_findings.json'))['findings']; viol = []; notes = []; res = None; t_build = time.time(); rdir = os.path.join(V, 'replays'); os.makedirs(rdir, exist_ok=True)
    build_err = None
    try: exe = build('sym', cid)
    except (BuildError, subprocess.TimeoutExpired) as e: build_err = str(e); exe = None
    build_s = time.time() - t_build; contracts = []; need_native = {}
    work = os.path.join(B, 'run-%s-%d' % (cid, os.getpid())); os.makedirs(work, exist_ok=True)
    if exe:
        names = subprocess.run([exe, '--list'], capture_output=True, text=True, cwd=work).stdout.split()
        if only: names = [n for n in names if n == only]
        def one(n):
            o = os.path.join(work, n + '.json'); sd = os.path.join(work, 'd_' + n); os.makedirs(sd, exist_ok=True); tmax = c.get('tmax', 240) * (4 if tier == 'thorough' else 1)
            try: r = subprocess.run(['timeout', '-s', 'KILL', str(int(tmax * 1.5 + 60)), exe, '--only', n, '--out', o, '--seed', str(seed if tier == 'quick' else seed + 1000), '--rounds', '4' if tier == 'quick' else '24', '--tmax', str(tmax)] + (['-v'] if verbose else []), capture_output=True, text=True, cwd=sd)
            except Exception as e: return {'contract': n, 'crash': str(e), 'obligations': [], 'covers': [], 'by': {}}
            if verbose: sys.stderr.write(r.stderr)
            try: return json.load(open(o))['contracts'][0]
            except Exception: return {'contract': n, 'functions': '', 'crash': 'verifier ended with %d: %s' % (r.returncode, (r.stderr or r.stdout)[-600:]), 'obligations': [], 'covers': [], 'by': {}, 'obligation_instances': 0, 'paths': 0, 'seconds': 0, 'solve_seconds': 0}
        with cf.ThreadPoolExecutor(8) as ex: contracts = list(ex.map(one, names))
        for k in contracts:
            if k.get('crash') or not k.get('complete', True) or not k['obligations']: need_native[k['contract']] = k.get('crash') or k.get('error') or 'no obligations generated'
    else: need_native['*'] = 'the sources no longer compile over symbolic reals:\n' + build_err
    refuted = [(k, o) for k in contracts for o in k['obligations'] if o['status'] == 'refuted']
    undecided = [(k, o) for k in contracts for o in k['obligations'] if o['status'] == 'undecided']
    nat = None; nat_err = None
    if refuted or need_native:
        try: nat = build('nat', cid)
        except (BuildError, subprocess.TimeoutExpired) as e: nat_err = str(e)
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=99:detect_odr_violation=0')
    def native(args, tmo=120):
        o = os.path.join(work, 'nat.json')
        if os.path.exists(o): os.unlink(o)
        try: r = subprocess.run(['timeout', str(tmo), nat] + args + ['--out', o], capture_output=True, text=True, env=env, cwd=work)
        except Exception as e: return None, str(e)
        if r.returncode != 0 or not os.path.exists(o): return None, 'native run ended with %d: %s' % (r.returncode, r.stderr[-1500:])
        return json.load(open(o)), ''
    def native2(args, tmo=120):
        js = []
        for v in VARIANTS:
            j, err = native(args + v, tmo)
            if j is None: return None, err
            js.append(j)
        return stable(js), ''
    found_known = []
    for k, o in refuted:
        f = [x for x in kf if x['property'] == cid and x['contract'] == k['contract'] and x['obligation'] == o['name']]
        if f: found_known.append((k, o, f[0])); continue
        conf = None; rep = {'property': cid, 'contract': k['contract'], 'functions': k['functions'], 'failed_obligation': o['name'], 'verifier': {'backend': o['by'], 'status': 'refuted', 'detail': o['detail'], 'relative_discrepancy': o['best']}, 'counterexamples': o['points'][:6]}
        runs = []
        if nat:
            for p in o['points'][:8]:
                pf = os.path.join(work, 'pt.json'); json.dump(p, open(pf, 'w')); lim = max(1e-7, 0.1 * p.get('rel', 1))
                j, err = native2(['--only', k['contract'], '--ob', o['name'], '--point', pf, '--tol', '1e-7'])
                if j is None: runs.append({'input': p['in'], 'native': err}); conf = conf or (p, {'crash': err}); break
                fl = [x for x in j[0]['fails'] if x['rel'] == 'nan' or float(x['rel']) >= lim * 0.999 or p.get('rel', 0) == 0]
                runs.append({'input': p['in'], 'native': j[0]})
                if fl: conf = (p, fl[0]); break
        rep['replay_on_real_code'] = runs if nat else 'native build failed: %s' % nat_err
        rep['confirmed_input'] = conf[0]['in'] if conf else None; rep['confirmed_failure'] = conf[1] if conf else None
        path = os.path.join(rdir, '%s-%s-%s.json' % (cid, k['contract'], re.sub(r'\W+', '_', o['name'])[:60])); json.dump(rep, open(path, 'w'), indent=1)
        viol.append((path, bool(conf), k['contract'] + '/' + o['name']))
    bounded = []
    for n, why in need_native.items():
        notes.append('bounded stand-in for %s: %s' % (n, why[:300]))
        if not nat: notes.append('native build failed too: ' + str(nat_err)[:300]); bounded.append({'contract': n, 'why': why, 'samples': 0}); continue
        N = 40 if tier == 'quick' else 400; j, err = native2(([] if n == '*' else ['--only', n]) + ['--sample', str(N), '--tol', '1e-4'], 300)
        if j is None: bounded.append({'contract': n, 'why': why, 'samples': 0, 'error': err}); rep = {'property': cid, 'contract': n, 'native': err}; path = os.path.join(rdir, '%s-%s-bounded.json' % (cid, n.replace('*', 'all'))); json.dump(rep, open(path, 'w'), indent=1); viol.append((path, True, n)); continue
        bounded.append({'contract': n, 'why': why, 'samples': len(j), 'checked': sum(x['checked'] for x in j)}); cnt = {}
        for x in j:
            for f in x['fails']:
                key = (x['contract'], f['obligation']); cnt.setdefault(key, []).append((x, f))
        for (cn, on), l in cnt.items():
            if any(x['property'] == cid and x['contract'] == cn and x['obligation'] == on for x in kf): continue
            if len(l) < 3: continue
            path = os.path.join(rdir, '%s-%s-%s-bounded.json' % (cid, cn, re.sub(r'\W+', '_', on)[:60])); json.dump({'property': cid, 'contract': cn, 'failed_obligation': on, 'bounded': True, 'runs': [{'sample_seed': x['seed'], 'failure': f} for x, f in l[:5]]}, open(path, 'w'), indent=1); viol.append((path, True, cn + '/' + on))
    exp = c.get('covers', {})
    for k in contracts:
        miss = [x for x in exp.get(k['contract'], []) if x not in k.get('covers', [])]
        if miss and not k.get('crash') and k.get('complete', True): notes.append('coverage goals not reached in %s: %s' % (k['contract'], miss))
    isb = [k for k in contracts if k['contract'].startswith('bounded_')]   # bounded by their own statement: never counted as proved
    for k in isb: bounded.append({'contract': k['contract'], 'functions': k.get('functions'), 'why': BOUNDS.get((cid, k['contract'])) or BOUNDS.get(cid, ''), 'cases': k.get('paths'), 'obligations': len(k['obligations']), 'held': sum(o['status'] == 'proved' for o in k['obligations'])})
    allc = contracts; contracts = [k for k in contracts if k not in isb]
    tot = sum(len(k['obligations']) for k in contracts); dis = sum(1 for k in contracts for o in k['obligations'] if o['status'] == 'proved')
    by = {}
    for k in contracts:
        for b, n in k['by'].items(): by[b] = by.get(b, 0) + n
    ev = {'property': cid, 'tier': tier, 'seed': seed, 'level': c.get('level', 'proof'), 'wall_s': round(time.time() - T0, 2), 'violations': len(viol),
          'assumptions': c.get('assumptions', []) + COMMON,
          'coverage': {'obligations': tot, 'discharged': dis, 'checker_cmd': 'python3 /verif/run.py %s --tier %s' % (cid, tier), 'trusted_base': TRUSTED,
             'obligation_instances': sum(k.get('obligation_instances', 0) for k in contracts), 'paths': sum(k.get('paths', 0) for k in contracts), 'discharged_by': by, 'solver_s': round(sum(k.get('solve_seconds') or 0 for k in contracts), 2), 'build_s': round(build_s, 2),
             'generic_position_equalities': sum(k.get('generic_position', 0) for k in contracts),
             'functions_under_contract': sorted({f for k in contracts for f in fn_names(k.get('functions', ''))}),
             'contracts': [{'name': k['contract'], 'paths': k.get('paths'), 'obligations': len(k['obligations']), 'proved': sum(o['status'] == 'proved' for o in k['obligations']), 'complete': k.get('complete'), 'covers': k.get('covers'), 'seconds': round(k.get('seconds') or 0, 2)} for k in contracts],
             'bounded_stand_ins': bounded, 'known_findings': ['%s/%s' % (k['contract'], o['name']) for k, o, _ in found_known],
             'undecided': ['%s/%s: %s' % (k['contract'], o['name'], o['detail'][:200]) for k, o in undecided], 'notes': notes}}
    if c.get('static'):
        ev['coverage'].update(c['static'])
    if not only: os.makedirs(V + '/evidence', exist_ok=True); json.dump(ev, open(V + '/evidence/%s.json' % cid, 'w'), indent=1)
    shutil.rmtree(work, ignore_errors=True)
    print('%s: %d obligations, %d discharged, %d instances on %d paths, %.1fs' % (cid, tot, dis, ev['coverage']['obligation_instances'], ev['coverage']['paths'], time.time() - T0))
    for n in notes: print('NOTE', n)
    for k, o in undecided: print('UNDECIDED %s/%s: %s' % (k['contract'], o['name'], o['detail'][:200]))
    for k, o, f in found_known: print('KNOWN-FINDING: property=%s %s' % (cid, f['what']))
    for p, ok, n in viol: print('failed obligation %s' % n); print('VIOLATION property=%s replay=%s%s' % (cid, p, '' if ok else ' no-failing-input-found'))
    sys.exit(1 if viol else 0)
def fn_names(t):   # "A, B: in a situation" names the functions A and B
    t = re.split(r'(?<!:):(?!:)', t)[0]
    return [x.strip() for x in re.split(r'[,;](?![^()]*\))', t) if x.strip()]
COMMON = ['machine arithmetic is treated as real arithmetic (rounding, overflow and NaN propagation are not modelled); a decimal literal denotes its decimal value, a literal or integer quotient that rounds to a fraction with a small denominator denotes that fraction',
          'an equality test between two different non-constant expressions in the code is taken to fail (generic position) unless it is an identity or fixes a single input, in which case both outcomes are explored']
TRUSTED = ['g++ 13 front end and libstdc++ (the real sources are compiled over the symbolic number type)', 'lib/sym.hpp + lib/sym.cpp (symbolic number type, path exploration, differentiation, simplifier)', 'identity testing over random prime fields (one-sided error below 2^-50 per round; 4 rounds quick, 24 thorough)', 'GMP']
if __name__ == '__main__': main()
