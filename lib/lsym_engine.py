"""Symbolic execution of the crate's LLVM IR with doubles as reals, decided by z3 (lib/lsym)."""
import concurrent.futures, glob, json, os, re, struct, subprocess, tempfile, time
from kani_engine import ROOT, DEADLINE, left

R = os.path.join(ROOT, 'real')
T = os.path.join(ROOT, 'target', 'lsym')
NT = os.path.join(ROOT, 'target', 'lsym_native')
TOOLCHAIN = 'nightly'
ENV = dict(os.environ, CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never', RUSTFLAGS='--cfg finquant_verif')
ENV.pop('RUSTC_WRAPPER', None)

def sh(cmd, cwd, cap, env):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=left(cap))
        return p.returncode, p.stdout.decode('utf8', 'replace')
    except subprocess.TimeoutExpired as e:
        return 124, (e.stdout or b'').decode('utf8', 'replace') + '\nTIMEOUT'

def build_ir():
    for f in glob.glob(T + '/release/**/*.ll', recursive=True): os.remove(f)
    for f in glob.glob(T + '/release/.fingerprint/realir-*') + glob.glob(T + '/release/build/realir/*'):
        subprocess.run(['rm', '-rf', f])
    rc, out = sh(['cargo', 'rustc', '--release', '--offline', '--', '--emit=llvm-ir', '-C', 'no-vectorize-loops', '-C', 'no-vectorize-slp'],
                 os.path.join(R, 'ir'), 600, dict(ENV, RUSTUP_TOOLCHAIN=TOOLCHAIN, CARGO_TARGET_DIR=T))
    fs = sorted((f for f in glob.glob(T + '/release/**/*.ll', recursive=True) if 'realir' in os.path.basename(f)), key=os.path.getmtime)
    return (fs[-1], None) if rc == 0 and fs else (None, out[-3000:])

_nat = []
def native():
    if not _nat:
        rc, out = sh(['cargo', 'build', '--offline', '--bin', 'replay'], R, 400, dict(ENV, RUSTUP_TOOLCHAIN='stable', CARGO_TARGET_DIR=NT))
        _nat.append((os.path.join(NT, 'debug', 'replay'), out[-2000:] if rc else None))
    return _nat[0]

def exec_native(args, cap=100):
    exe, err = native()
    if err: return -1, 'native build failed\n' + err
    try:
        p = subprocess.run([exe] + args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=left(cap), env=dict(ENV, RUST_BACKTRACE='0'))
        return p.returncode, p.stdout.decode('utf8', 'replace')
    except subprocess.TimeoutExpired: return 'timeout', ''

def values(t):
    return ', '.join(x[2:] if x[0] == 'i' else repr(struct.unpack('<d', struct.pack('<Q', int(x[2:], 16)))[0]) for x in t.split(',') if x)

def run(p, tier, res):
    names = list(p['lsym']) + (list(p.get('lsym_thorough', [])) if tier == 'thorough' else [])
    t0 = time.time()
    ll, err = build_ir()
    if err:
        res['errors'].append('the crate or its harnesses do not compile to LLVM IR:\n' + err); return
    build_s = time.time() - t0
    tmp = tempfile.mkdtemp(prefix='lsym')
    def job(spec):
        h = spec.split(':')[0]
        out = os.path.join(tmp, h + '.json')
        cap = left(p.get('lsym_cap', 300) if tier == 'quick' else 780)
        try:
            q = subprocess.run(['python3-vt', os.path.join(ROOT, 'lib', 'lsym', 'worker.py'), ll, h, str(cap), out], stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, timeout=cap + 60)
            return json.load(open(out))
        except FileNotFoundError: return {'harness': h, 'error': 'worker died: ' + q.stdout.decode('utf8', 'replace')[-1500:]}
        except subprocess.TimeoutExpired: return {'harness': h, 'error': 'worker timed out'}
    with concurrent.futures.ThreadPoolExecutor(8) as ex: reports = list(ex.map(job, names))
    subprocess.run(['rm', '-rf', tmp])
    for spec, r in zip(names, reports):
        h = r['harness']
        need = set(range(1, int(spec.split(':')[1]) + 1)) if ':' in spec else set()
        fails = r.get('fails', [])
        res['obligations'] += r.get('obl', 0)
        res['discharged'] += r.get('obl', 0) - sum(f['n'] for f in fails)
        st = r.get('stat', {})
        res['queries'] += st.get('queries', 0); res['solver_s'] += st.get('solver_s', 0)
        res['functions'] |= set(f for f in r.get('functions', []) if 'finquant' in f)
        res['harnesses'].append({'name': h, 'paths': r.get('paths', 0), 'completed': r.get('done', 0), 'infeasible_or_assumed_away': r.get('cut', 0), 'obligations': r.get('obl', 0),
                                 'queries': st.get('queries', 0), 'unsat': st.get('unsat', 0), 'solver_s': round(st.get('solver_s', 0), 2), 's': round(r.get('s', 0), 1)})
        if r.get('sample') is not None: res['samples'].append(f"{h} on {values(r['sample'])} completes (one explored path)")
        broken = False
        for f in fails:
            bad = None
            for t in f['inputs']:
                rc, out = exec_native([h, t])
                if rc in (101, 134, -6, 'timeout'): bad = (t, rc, out); break
            if bad is None:
                rc, out = exec_native([h, 'search', os.environ.get('VERIF_SEED', '1') or '1', '2000000'], 90)
                m = re.search(r'FAILS (\S*)', out)
                if m:
                    rc, out = exec_native([h, m[1]])
                    if rc in (101, 134, -6): bad = (m[1], rc, out)
            if bad:
                t, rc, out = bad
                res['violations'].append({'harness': h, 'key': h + ' ' + f['what'][:80],
                    'text': f"harness {h} (real/src): {f['what']}\nsolver verdict on the path: {f['verdict']}\ninputs in order of use: {values(t)}\n"
                            f"[native] replay {h} {t} -> exit {rc}\n{out}\n"})
                broken = True
                break
            res['errors'].append(f"{h}: {f['what']} ({f['verdict']}), not reproduced natively")
        if broken: continue
        if r.get('error'): res['errors'].append(f"{h}: {r['error']}")
        elif not fails:
            if not r['done'] or not r['obl'] or not r['sat']: res['errors'].append(f'{h}: vacuous (no satisfiable completed path with an obligation)')
            elif not need <= set(r['reached']): res['errors'].append(f"{h}: never reaches {sorted(need - set(r['reached']))}")
    res['harnesses'].append({'name': 'LLVM IR build', 's': round(build_s, 1)})
