"""Path constraints and queries, decided by z3 over the reals."""
import math, time, random
from fractions import Fraction as Fr
import z3, mpmath
from . import alg
from .alg import ATOMS, V

STAT = {'queries': 0, 'solver_s': 0.0, 'unsat': 0, 'sat': 0, 'unknown': 0}

class Ctx:
    """translation of algebra values to z3, with axioms for the atoms they use"""
    def __init__(self, linked=True):
        self.linked = linked; self.vars = {}; self.ax = []; self.done = set(); self.memo = {}
        self.ufs = {}
    def rv(self, f): return z3.RealVal(f'{f.numerator}/{f.denominator}')
    def fl(self, x): return z3.RealVal(str(Fr(x)))
    def power(self, i, e):
        A = ATOMS[i]
        if e.denominator == 1:
            v = self.var(i)
            k = int(e)
            if k > 0:
                r = v
                for _ in range(k - 1): r = r * v
                return r
            r = v
            for _ in range(-k - 1): r = r * v
            return 1 / r
        key = (i, e)
        if key in self.vars: return self.vars[key]
        p = z3.Real(f'p{i}_{e.numerator}_{e.denominator}')
        self.vars[key] = p
        self.ax.append(p > 0)
        lo, hi = alg.ipow(alg.bounds(i, self.memo), e)
        lo, hi = alg.widen(lo, hi)
        if lo > 0: self.ax.append(p >= self.fl(lo))
        if hi < math.inf: self.ax.append(p <= self.fl(hi))
        if A.kind == 'base':
            d = e.denominator * 1
            if d <= 4:
                b = self.expr(A.arg)
                r = p
                for _ in range(d - 1): r = r * p
                q = b
                for _ in range(e.numerator - 1): q = q * b
                self.ax.append(r == q)
        if A.kind == 'exp':
            m = self.expr(alg.mul(alg.const(e), A.arg))
            self.ax += [p >= 1 + m, z3.Implies(m > 0, p > 1), z3.Implies(m < 0, p < 1), z3.Implies(m == 0, p == 1)]
            others = [k for k in self.vars if isinstance(k, tuple) and k[0] == i and k[1] != e]
            for k in others:    # same base, ordered exponents
                a, b = (k[1], e) if k[1] < e else (e, k[1])
                x = self.expr(A.arg)
                self.ax.append(z3.Implies(x > 0, self.vars[(i, a)] < self.vars[(i, b)]))
                self.ax.append(z3.Implies(x < 0, self.vars[(i, a)] > self.vars[(i, b)]))
        return p
    def var(self, i):
        if i in self.vars: return self.vars[i]
        A = ATOMS[i]
        v = z3.Real(A.name)
        self.vars[i] = v
        lo, hi = alg.bounds(i, self.memo)
        if lo > -math.inf: self.ax.append(v >= self.fl(lo))
        if hi < math.inf: self.ax.append(v <= self.fl(hi))
        if A.pos and A.kind != 'in': self.ax.append(v > 0)
        if A.const or A.kind == 'in': return v
        if A.kind == 'base':
            self.ax.append(v == self.expr(A.arg)); return v
        a = self.expr(A.arg)
        if A.kind in ('exp', 'gauss'):
            self.ax += [v >= 1 + a, z3.Implies(a > 0, v > 1), z3.Implies(a < 0, v < 1), z3.Implies(a == 0, v == 1)]
        elif A.kind == 'ln':
            self.ax += [v <= a - 1, z3.Implies(a > 1, v > 0), z3.Implies(a < 1, v < 0), z3.Implies(a == 1, v == 0)]
        elif A.kind in alg.UF:
            inc = alg.UF[A.kind][4]
            if inc:
                for j, (w, b) in self.ufs.get(A.kind, {}).items():
                    self.ax.append(z3.Implies(a < b, v < w if inc > 0 else v > w))
                    self.ax.append(z3.Implies(a > b, v > w if inc > 0 else v < w))
                    self.ax.append(z3.Implies(a == b, v == w))
                self.ufs.setdefault(A.kind, {})[i] = (v, a)
                if A.kind == 'erfc':
                    self.ax += [z3.Implies(a > 0, v < 1), z3.Implies(a < 0, v > 1)]
                if A.kind == 'tanh':
                    self.ax += [z3.Implies(a > 0, z3.And(v > 0, v < a)), z3.Implies(a < 0, z3.And(v < 0, v > a))]
        return v
    def group(self, es):
        """exp(a)^p * exp(b)^q ... as one positive number with the sum's sign"""
        if es in self.vars: return self.vars[es]
        v = z3.Real(f'g{len(self.vars)}')
        self.vars[es] = v
        tot = alg.ZERO
        for i, e in es: tot = alg.add(tot, alg.mul(alg.const(e), ATOMS[i].arg))
        a = self.expr(tot)
        lo, hi = alg.interval(tot, self.memo)
        self.ax += [v > 0, v >= 1 + a, z3.Implies(a > 0, v > 1), z3.Implies(a < 0, v < 1), z3.Implies(a == 0, v == 1)]
        if hi < 700: self.ax.append(v <= self.fl(alg.widen(math.exp(hi), math.exp(hi))[1]))
        if lo > -700: self.ax.append(v >= self.fl(alg.widen(math.exp(lo), math.exp(lo))[0]))
        if self.linked:
            t = None
            for i, e in es:
                x = self.power(i, e); t = x if t is None else t * x
            self.ax.append(v == t)
        return v
    def poly(self, n):
        ts = []
        for m, c in n.items():
            t = self.rv(c)
            if m:
                t = None
                es = [(i, e) for i, e in m if ATOMS[i].kind == 'exp']
                if len(es) > 1:
                    t = self.group(tuple(es)); m = [x for x in m if ATOMS[x[0]].kind != 'exp']
                for i, e in m:
                    x = self.power(i, e); t = x if t is None else t * x
                if c != 1: t = self.rv(c) * t
            ts.append(t)
        return z3.Sum(ts) if len(ts) > 1 else ts[0] if ts else z3.RealVal(0)
    def expr(self, v):
        r = self.poly(v.n)
        for k, e in v.d:
            x = self.poly(dict(k))
            for _ in range(e): r = r / x
        return r
    def cond(self, op, a, b):
        """a op b, cross-multiplied when the denominators' signs are unknown"""
        x = self.expr(alg.sub(a, b))
        z = z3.RealVal(0)
        return {'lt': x < z, 'le': x <= z, 'eq': x == z, 'ne': x != z, 'gt': x > z, 'ge': x >= z}[op]

NEG = {'lt': 'ge', 'le': 'gt', 'eq': 'ne', 'ne': 'eq', 'gt': 'le', 'ge': 'lt'}
MIR = {'lt': 'gt', 'gt': 'lt', 'le': 'ge', 'ge': 'le', 'eq': 'eq', 'ne': 'ne'}
HOLDS = {'lt': lambda s: s < 0, 'le': lambda s: s <= 0, 'eq': lambda s: s == 0, 'ne': lambda s: s != 0, 'gt': lambda s: s > 0, 'ge': lambda s: s >= 0}

def known(op, a, b):
    """decide from exact constants, precise constant evaluation or interval bounds"""
    d = alg.sub(a, b)
    c = d.const()
    if c is not None: return HOLDS[op](c)
    if alg.is_const(d):
        x = alg.const_value(d)
        if abs(x) > mpmath.mpf(10) ** -25: return HOLDS[op](x)
        return None
    lo, hi = alg.interval(d, {})
    if lo > 0: return HOLDS[op](1)
    if hi < 0: return HOLDS[op](-1)
    return None

def linear_unsat(conds):
    """unsatisfiable already when every monomial is an independent number within its bounds?"""
    vs = {}; ax = []; fs = []; memo = {}
    rv = lambda f: z3.RealVal(f'{f.numerator}/{f.denominator}')
    for op, a, b in conds:
        d = alg.sub(a, b); ts = []
        den = tuple(d.d)
        for m, c in d.n.items():
            key = (m, den)
            if not m and not den: ts.append(rv(c)); continue
            if key not in vs:
                v = vs[key] = z3.Real(f'm{len(vs)}')
                if not den:
                    lo, hi = alg.interval(V({m: Fr(1)}, ()), memo)
                    if lo > -math.inf: ax.append(v >= z3.RealVal(str(Fr(lo))))
                    if hi < math.inf: ax.append(v <= z3.RealVal(str(Fr(hi))))
            ts.append(rv(c) * vs[key])
        x = z3.Sum(ts) if ts else z3.RealVal(0)
        z = z3.RealVal(0)
        fs.append({'lt': x < z, 'le': x <= z, 'eq': x == z, 'ne': x != z, 'gt': x > z, 'ge': x >= z}[op])
    s = z3.Solver(); s.set('timeout', 3000); s.add(*fs); s.add(*ax)
    return s.check() == z3.unsat

def check(conds, timeout, want_model=False, light=False):
    """conds: list of (op, a, b). returns 'unsat' | 'sat' | 'unknown' (, model)"""
    t0 = time.time()
    if linear_unsat(conds):
        STAT['queries'] += 1; STAT['solver_s'] += time.time() - t0; STAT['unsat'] += 1
        return ('unsat', None) if want_model else 'unsat'
    cx = Ctx(False)
    fs = [cx.cond(op, a, b) for op, a, b in conds]
    if any(isinstance(k, tuple) and isinstance(k[0], tuple) for k in cx.vars):
        # products of exponentials as independent numbers first: unsat there is unsat
        s = z3.Solver(); s.set('timeout', int(timeout * 500)); s.add(*fs); s.add(*cx.ax)
        r = str(s.check())
        if r == 'unsat':
            STAT['queries'] += 1; STAT['solver_s'] += time.time() - t0; STAT[r] += 1
            return (r, None) if want_model else r
        cx = Ctx()
        fs = [cx.cond(op, a, b) for op, a, b in conds]
    s = z3.Solver()
    s.set('timeout', int(timeout * 1000))
    n = 0
    s.add(*fs)
    s.add(*cx.ax)
    r = str(s.check())
    if r == 'unknown' and not light:
        s2 = z3.Then('simplify', 'propagate-values', 'solve-eqs', 'purify-arith', 'qfnra-nlsat').solver()
        s2.set('timeout', int(timeout * 1000))
        s2.add(*fs); s2.add(*cx.ax)
        try:
            r = str(s2.check())
            if r != 'unknown': s = s2
        except z3.Z3Exception: r = 'unknown'
    STAT['queries'] += 1; STAT['solver_s'] += time.time() - t0; STAT[r] += 1
    if want_model:
        m = None
        if r == 'sat':
            m = {}
            mod = s.model()
            for i, v in cx.vars.items():
                if isinstance(i, int) and ATOMS[i].kind == 'in':
                    x = mod.eval(v, model_completion=True)
                    try: m[i] = float(Fr(x.as_fraction()))
                    except Exception:
                        try: m[i] = float(x.approx(20).as_fraction())
                        except Exception: pass
        return r, m
    return r

def repair(conds, env):
    """move inputs that a violated condition uses linearly to where it holds"""
    for _ in range(2):
        memo = {}
        for op, a, b in conds:
            d = alg.sub(a, b)
            if d.d: continue
            try: x = alg.evalm(d, env, memo)
            except Exception: return
            if isinstance(x, mpmath.mpc) or not mpmath.isfinite(x) or HOLDS[op](x): continue
            for m, c in d.n.items():
                if len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]].kind == 'in' and sum(any(i == m[0][0] for i, _ in k) for k in d.n) == 1:
                    i = m[0][0]; A = ATOMS[i]
                    eps = 0 if op in ('eq', 'le', 'ge') else 1e-13 if op in ('lt', 'le') else -1e-13
                    v = env[i] - (float(x) + eps) / float(c)
                    if A.lo <= v <= A.hi: env[i] = v; memo = {}; break

def witness(conds, inputs, model, tries=4000, seed=1, secs=20):
    """inputs (floats) satisfying every condition numerically, guided by the solver's model"""
    rng = random.Random(seed)
    def ok(env):
        memo = {}
        for op, a, b in conds:
            try: x = alg.evalm(alg.sub(a, b), env, memo)
            except Exception: return False
            if not mpmath.isfinite(x) or isinstance(x, mpmath.mpc): return False
            if op in ('eq', 'le', 'ge') and abs(x) < 1e-14: continue
            if not HOLDS[op](x): return False
        return True
    out = []
    dps = mpmath.mp.dps; mpmath.mp.dps = 20
    try:
        base = dict(model or {})
        deadline = time.time() + secs
        for k in range(tries):
            env = {}
            for i in inputs:
                A = ATOMS[i]
                u = rng.random()
                if k == 0: env[i] = base.get(i, (A.lo + A.hi) / 2)
                elif i in base and u < 0.5 and k % 2: env[i] = base[i]
                elif u < 0.1: env[i] = A.lo
                elif u < 0.2: env[i] = A.hi
                else: env[i] = A.lo + (A.hi - A.lo) * rng.random()
                env[i] = min(max(env[i], A.lo), A.hi)
                if k and rng.random() < 0.3: env[i] = float(f'{env[i]:.4g}'); env[i] = min(max(env[i], A.lo), A.hi)
            if not ok(env) and any(op != 'ne' for op, _, _ in conds): repair(conds, env)
            if ok(env):
                out.append(env)
                if len(out) >= 3: break
            if time.time() > deadline: break
    finally: mpmath.mp.dps = dps
    return out
