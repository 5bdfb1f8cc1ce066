#!/usr/bin/env python3
"""run.py PROPERTY [--tier quick|thorough]: decides one property of /repo.

Every run re-encodes the code from /repo's working tree. Exit 0: the solver
showed every assertion for all values within the bounds (or only listed known
findings fail). Exit 1: a counterexample that also fails natively. Exit 2: no
answer (encoding failed, bound not reached, solver gave up, vacuous harness,
counterexample does not replay)."""
import argparse, json, os, re, resource, subprocess, sys, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
import registry, kani_engine

ROOT = os.path.dirname(os.path.abspath(__file__))

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    a = ap.parse_args()
    t0 = time.time()
    p = registry.PROPS[a.property]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    res = {'obligations': 0, 'discharged': 0, 'queries': 0, 'solver_s': 0.0, 'functions': set(), 'harnesses': [],
           'violations': [], 'errors': [], 'known': [], 'samples': [], 'also_failing': []}
    known = []
    kf = os.path.join(ROOT, 'known_findings.txt')
    for l in open(kf):
        m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', l)
        if m and m[1] == a.property:
            known.append((m[2], m[3].strip()))
    p['known'] = [key for key, _ in known]
    if p.get('kani'):
        kani_engine.run(p, a.tier, res)
    if p.get('lsym'):
        import lsym_engine
        lsym_engine.run(p, a.tier, res)
    viol = []
    for v in res['violations']:
        k = [t for key, t in known if key == v['key']]
        if k:
            print(f"KNOWN-FINDING: property={a.property} {k[0]}")
            res['known'].append(v['key'])
        else:
            viol.append(v)
    outdir = os.path.join(ROOT, 'evidence', 'replay')
    os.makedirs(outdir, exist_ok=True)
    for i, v in enumerate(viol):
        f = os.path.join(outdir, f"{a.property}-{v['harness'].replace('::', '_')}.txt")
        open(f, 'w').write(v['text'])
        print(v['text'])
        print(f"VIOLATION property={a.property} replay={f}", flush=True)
    ev = {
        'property': a.property, 'tier': a.tier, 'seed': seed, 'level': registry.LEVEL,
        'coverage': {
            'explanation': registry.explanation(p) + ' ' + p['how'],
            'bounds': p['bounds'],
            'obligations': res['obligations'], 'discharged': res['discharged'],
            'harnesses': res['harnesses'], 'queries': res['queries'],
            'solver_s': round(res['solver_s'], 2),
            'functions_encoded': sorted(res['functions']),
            'samples': res['samples'][:5],
            'known_findings_seen': res['known'], 'errors': res['errors'], 'also_failing_not_replayed': res['also_failing'],
        },
        'assumptions': p.get('assumes', []) + registry.trust(p),
        'wall_s': round(time.time() - t0, 1), 'violations': len(viol),
    }
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    with open(os.path.join(ROOT, 'evidence', a.property + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for e in res['errors']:
        print('ERROR', e)
    print(f"{a.property} {a.tier}: {res['discharged']}/{res['obligations']} obligations in {len(res['harnesses'])} harnesses, "
          f"{len(viol)} violation(s), {len(res['errors'])} error(s), {time.time() - t0:.0f}s", flush=True)
    sys.exit(1 if viol else 2 if res['errors'] else 0)

main()
