"""worker.py LL HARNESS SECONDS OUT [--sub i/n]: explores every path of one harness; writes a JSON report."""
import sys, os, json, time, threading, struct
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(200000); threading.stack_size(768 * 1024 * 1024)
from lsym import rt, alg, solve

def main():
    path, h, secs, outf = sys.argv[1], sys.argv[2], float(sys.argv[3]), sys.argv[4]
    t0 = time.time()
    R = {'harness': h, 'paths': 0, 'done': 0, 'cut': 0, 'obl': 0, 'ids': [], 'reached': [], 'fails': [], 'error': None, 'sat': False, 'sample': None}
    try:
        e = rt.Engine(path)
        pend = [[]]; ids = set(); reached = set(); fails = {}
        while pend:
            if time.time() - t0 > secs: R['error'] = f'{len(pend)} or more paths left after {secs:.0f} s'; break
            p = pend.pop(); e.pending = []
            v = None
            try: e.run(h, p); R['done'] += 1
            except alg.PathEnd: R['cut'] += 1
            except rt.Violation as x: v = x
            pend += e.pending
            R['paths'] += 1; R['obl'] += len(e.obl); ids |= set(e.obl); reached |= e.reached
            if v is None:
                if not R['sat'] and e.obl and R['paths'] < 200:
                    r, m = solve.check(e.conds, 10, True)
                    w = solve.witness(e.conds, e.inputs, m, tries=300, secs=3)
                    if w or r == 'sat':
                        R['sat'] = True; R['sample'] = trace(e, w[0] if w else m or {})
                continue
            r, m = solve.check(e.conds, 20, True)
            if r == 'unsat': R['cut'] += 1; continue
            w = solve.witness(e.conds, e.inputs, m)
            if m and len(w) < 3: w.append(m)
            f = fails.setdefault(v.what, {'what': v.what, 'verdict': r, 'inputs': [], 'n': 0})
            f['n'] += 1
            if len(f['inputs']) < 6: f['inputs'] += [trace(e, x) for x in w[:3]]
            if r == 'sat': f['verdict'] = 'sat'
            if sum(x['n'] for x in fails.values()) >= 8: break
        R['ids'] = sorted(ids); R['reached'] = sorted(reached); R['fails'] = list(fails.values())
        R['functions'] = sorted(set(short(e.mod.names.get(n, n)) for n in e.mod.compiled))
    except alg.Unsupported as u: R['error'] = 'cannot encode: ' + str(u)
    except RecursionError: R['error'] = 'recursion limit'
    except MemoryError: R['error'] = 'out of memory'
    except Exception as x:
        import traceback
        R['error'] = 'engine: ' + traceback.format_exc()[-1500:]
    R['stat'] = solve.STAT; R['s'] = time.time() - t0
    json.dump(R, open(outf, 'w'))
    os._exit(0)

def short(n):
    return n if len(n) < 120 else n[:117] + '...'
def trace(e, env):
    out = []
    for k, v in e.trace:
        if k == 'i': out.append(f'i:{v}')
        else:
            A = alg.ATOMS[v]; x = env.get(v, (A.lo + A.hi) / 2)
            out.append('f:%016x' % struct.unpack('<Q', struct.pack('<d', float(x)))[0])
    return ','.join(out)

threading.Thread(target=main).start()
