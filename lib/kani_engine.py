"""Bounded model checking of the compiled crate with Kani/CBMC."""
import glob, os, re, subprocess, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
H = os.path.join(ROOT, 'harness')
ENV = dict(os.environ, CARGO_NET_OFFLINE='true', RUSTUP_TOOLCHAIN='nightly-2026-08-21', CARGO_TERM_COLOR='never')
ENV['RUSTFLAGS'] = '--cfg finquant_verif'
KT = os.path.join(ROOT, 'target', 'kani')
NT = os.path.join(ROOT, 'target', 'native')
DEADLINE = time.time() + 860
JOBS = '8'

def left(cap):
    return max(5, min(cap, DEADLINE - time.time()))

def sh(cmd, cap, env=ENV):
    try:
        p = subprocess.run(cmd, cwd=H, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=left(cap),
                           start_new_session=True)
        return p.returncode, p.stdout.decode('utf8', 'replace')
    except subprocess.TimeoutExpired as e:
        subprocess.run(['pkill', '-f', KT + '/'], check=False)
        return 124, (e.stdout or b'').decode('utf8', 'replace') + '\nTIMEOUT'

def kani(args, cap):
    return sh(['cargo', 'kani', '--lib', '-Z', 'unstable-options', '-Z', 'stubbing', '--no-assertion-reach-checks', '--target-dir', KT] + args, cap)

def parse(out):
    """terse multi-job output -> {harness: (status, checks, failed, covers, covers_total, seconds, failure lines)}"""
    cur, r, t, h = {}, {}, None, None
    for l in out.split('\n'):
        m = re.match(r'(?:Thread (\d+): )?Checking harness (\S+?)\.\.\.', l)
        if m:
            cur[m[1]] = m[2]
            h = m[2]
            r[h] = dict(status=None, checks=0, failed=0, cov=0, covn=0, s=0.0, fails=[])
            continue
        m = re.match(r'Thread (\d+):', l)
        if m:
            h = cur.get(m[1])
            continue
        if h is None:
            continue
        d = r[h]
        if m := re.match(r'\s*\*\* (\d+) of (\d+) failed', l):
            d['failed'], d['checks'] = int(m[1]), int(m[2])
        elif m := re.match(r'\s*\*\* (\d+) of (\d+) cover', l):
            d['cov'], d['covn'] = int(m[1]), int(m[2])
        elif m := re.match(r'Failed Checks: (.*)', l):
            d['fails'].append(m[1])
        elif m := re.match(r'VERIFICATION:- (\w+)', l):
            d['status'] = m[1]
        elif m := re.match(r'Verification Time: ([\d.]+)s', l):
            d['s'] = float(m[1])
        elif 'timed out' in l or 'CBMC failed' in l or 'out of memory' in l.lower():
            d['fails'].append(l.strip())
    return r

def hargs(names):
    a = ['--exact']
    for n in names:
        a += ['--harness', n]
    return a

_native = {}
def native(profile):
    if profile not in _native:
        env = dict(ENV)
        env['RUSTUP_TOOLCHAIN'] = 'stable'
        cmd = ['cargo', 'build', '--offline', '--bin', 'replay', '--target-dir', NT] + (['--release'] if profile == 'release' else [])
        rc, out = sh(cmd, 400, env)
        _native[profile] = (os.path.join(NT, profile, 'replay'), out if rc else None)
    return _native[profile]

def replay(harness, vals):
    """-> (failed in which profiles, text)"""
    hx = ','.join(bytes(v).hex() for v in vals)
    bad, text = [], []
    for prof in ('debug', 'release'):
        exe, err = native(prof)
        if err:
            text.append(f'[{prof}] native build failed\n{err[-1500:]}')
            continue
        try:
            p = subprocess.run([exe, harness, hx], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=120,
                               env=dict(ENV, RUST_BACKTRACE='0'))
            rc, out = p.returncode, p.stdout.decode('utf8', 'replace')
        except subprocess.TimeoutExpired:
            rc, out = 'timeout', ''
        text.append(f'[{prof}] replay {harness} {hx} -> exit {rc}\n{out}')
        if rc in (101, 134, -6) or rc == 'timeout':
            bad.append(prof)
    return bad, '\n'.join(text)

def playback(name, extra):
    rc, out = kani(hargs([name]) + ['-Z', 'concrete-playback', '--concrete-playback=print'] + extra, 400)
    tests = []
    for blk in re.findall(r'Check for `([^`]+)`: (.*?)\n.*?vec!\[(.*?)\n    \];', out, re.S):
        kind, msg, body = blk
        vals = [[int(x) for x in v.split(',') if x.strip()] for v in re.findall(r'vec!\[([\d, ]*)\]', body)]
        tests.append((kind, msg.strip(), vals))
    return out, tests

def run(p, tier, res):
    names = [n for n in p['kani']]
    if tier == 'thorough':
        names += p.get('kani_thorough', [])
    jobs = JOBS
    rc, out = kani(hargs(names) + ['--jobs', jobs, '--output-format=terse', '--harness-timeout', '800s'], 840)
    r = parse(out)
    if not r:
        res['errors'].append('cargo kani did not run any harness:\n' + out[-3000:])
        return
    for n in names:
        if n not in r:
            res['errors'].append(f'harness {n} did not run')
    for n, d in r.items():
        extra = []
        # a bound that the code outgrew (say after a refactoring) is raised, not reported
        tries = 0
        while d['status'] != 'SUCCESSFUL' and d['fails'] and any('unwinding assertion' in f for f in d['fails']) and tries < 3:
            tries += 1
            extra = ['--unwind', str([10, 34, 120][tries - 1])]
            rc2, out2 = kani(hargs([n]) + extra + ['--output-format=terse'], 500)
            d2 = parse(out2).get(n)
            if not d2:
                break
            d = d2
        res['queries'] += 1
        res['solver_s'] += d['s']
        res['obligations'] += max(d['checks'], 1)
        res['harnesses'].append({'harness': n, 'status': d['status'], 'checks': d['checks'], 'witnesses_reached': d['cov'],
                                 'seconds': round(d['s'], 2)})
        if d['status'] == 'SUCCESSFUL':
            res['discharged'] += d['checks']
            if d['cov'] != d['covn'] or d['covn'] == 0:
                res['errors'].append(f"{n}: vacuous, {d['cov']} of {d['covn']} reachability witnesses reached")
            continue
        res['discharged'] += max(0, d['checks'] - d['failed'])
        if d['status'] is None or not d['fails'] or any('timed out' in f or 'CBMC failed' in f for f in d['fails']):
            res['errors'].append(f"{n}: no verdict ({d['fails']}) {out[-600:] if d['status'] is None else ''}")
            continue
        if any('unwinding assertion' in f for f in d['fails']):
            res['errors'].append(f"{n}: unwinding bound not reached")
            continue
        if any(v['key'] not in p.get('known', []) for v in res['violations']):
            res['also_failing'].append(n)
            continue
        o, tests = playback(n, extra)
        tests.sort(key=lambda t: t[0] == 'cover')
        done = False
        for kind, msg, vals in tests:
            if kind == 'cover' and 'unsupported' not in ' '.join(d['fails']):
                # a witness of reachability; only tried when no failing check was printed
                if any(t[0] != 'cover' for t in tests):
                    continue
            bad, text = replay(n.split('::')[-1], vals)
            if bad:
                key = n.split('::')[-1]
                res['violations'].append({'harness': n, 'key': key, 'text':
                    f"property {p['id']} ({p['title']}): counterexample from the solver in {n}\n"
                    f"failed check: {msg}\nall failed checks: {d['fails']}\nnative replay, fails in: {', '.join(bad)}\n{text}\n"
                    f"rerun: cd {H} && RUSTFLAGS='--cfg finquant_verif' cargo +stable run --offline --target-dir {NT} --bin replay -- {n.split('::')[-1]} "
                    + ','.join(bytes(v).hex() for v in vals) + '\n'})
                done = True
                break
            else:
                d.setdefault('why', []).append(text)
        if not done:
            res['errors'].append(f"{n}: failed ({d['fails']}) but no counterexample replayed natively: " + ' '.join(d.get('why', []))[:1500])
    functions(names, res)

def functions(names, res):
    for n in names:
        short = n.split('::')[-1]
        c = [f for f in glob.glob(KT + f'/kani/**/*{len(short)}{short}.out', recursive=True) if '.symtab.' not in f]
        if not c:
            continue
        f = max(c, key=os.path.getmtime)
        try:
            o = subprocess.run(['goto-instrument', '--list-goto-functions', f], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=60).stdout.decode('utf8', 'replace')
        except Exception:
            continue
        for l in o.split('\n'):
            m = re.match(r'(<?finquant::.*?) /\*', l)
            if m and 'body not available' not in l:
                res['functions'].add(m[1])
