"""Exact real algebra for symbolic floating-point values.

A value is a quotient num/den of generalised polynomials over atoms (inputs and
applications of exp, ln, roots, erfc, ...) with exact rational coefficients.
Doubles are idealised as reals; constants keep the exact value of the double."""
import math, struct
from fractions import Fraction as Fr
import mpmath
mpmath.mp.dps = 40

class Unsupported(Exception): pass
class PathEnd(Exception): pass

LIMIT = 6000

class Atom:
    __slots__ = ('id', 'kind', 'arg', 'lo', 'hi', 'name', 'const', 'val', 'pos')
ATOMS = []
INDEX = {}
ENGINE = [None]      # set by the executor; used to fork on signs

def reset():
    ATOMS.clear(); INDEX.clear()

def mk_atom(kind, key, arg, pos=False, lo=-math.inf, hi=math.inf, name=None, const=False):
    k = (kind, key)
    i = INDEX.get(k)
    if i is not None: return i
    a = Atom(); a.id = len(ATOMS); a.kind = kind; a.arg = arg; a.lo = lo; a.hi = hi
    a.name = name or f'{kind}{a.id}'; a.const = const; a.val = None; a.pos = pos
    ATOMS.append(a); INDEX[k] = a.id
    return a.id

# ---- polynomials: dict monomial -> Fraction; monomial: tuple of (atom, exponent) ----
def mmul(a, b):
    if not a: return b
    if not b: return a
    d = dict(a)
    for i, e in b:
        n = d.get(i, 0) + e
        if n == 0: d.pop(i, None)
        else: d[i] = n
    return tuple(sorted(d.items()))
def minv(a): return tuple((i, -e) for i, e in a)
def padd(a, b, k=1):
    r = dict(a)
    for m, c in b.items():
        n = r.get(m, 0) + c * k
        if n == 0: r.pop(m, None)
        else: r[m] = n
    return r
def pscale(a, m, c): return {mmul(x, m): v * c for x, v in a.items()}
def pmul(a, b):
    if len(a) * len(b) > LIMIT * 8: raise Unsupported('expression too large')
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = mmul(m1, m2); n = r.get(m, 0) + c1 * c2
            if n == 0: r.pop(m, None)
            else: r[m] = n
    return r
def pkey(p): return tuple(sorted(p.items()))
def lead(p): return max(p)
def pdivexact(a, b):
    """a / b if exact, else None"""
    if len(b) == 1:
        (m, c), = b.items()
        return pscale(a, minv(m), Fr(1) / c)
    lb = lead(b); cb = b[lb]; ilb = minv(lb)
    r = dict(a); q = {}
    for _ in range(2 * len(a) + 8):
        if not r: return q
        la = lead(r); m = mmul(la, ilb); c = r[la] / cb
        if m in q: return None
        q[m] = c
        r = padd(r, pscale(b, m, c), -1)
        if len(r) > 4 * len(a) + 40: return None
    return None

def needs_norm(p):
    for m in p:
        for i, e in m:
            if ATOMS[i].kind == 'base' and not (0 < e < 1): return True
    return False

class V:
    """num / prod(den_i ^ e_i), or a special value (nan, inf, -inf)"""
    __slots__ = ('n', 'd', 'sp', '_c', '_bits')
    def __init__(self, n, d=(), sp=None):
        self.n = n; self.d = d; self.sp = sp; self._c = None; self._bits = None
    def const(self):
        """the Fraction if rational constant, else None"""
        if self.sp or self.d: return None
        if not self.n: return Fr(0)
        if len(self.n) == 1 and () in self.n: return self.n[()]
        return None
    # integer view of the bits (rare: hashing, sign tests on concrete values)
    def bits(self):
        if self._bits is not None: return self._bits
        if self.sp: f = float(self.sp)
        else:
            c = self.const()
            if c is None: raise Unsupported('bit pattern of a symbolic double')
            f = float(c)
        self._bits = struct.unpack('<Q', struct.pack('<d', f))[0]
        return self._bits
    __int__ = __index__ = bits
    def __hash__(self): return id(self)
    def __eq__(self, o):
        if isinstance(o, V) and o is self: return True
        return self.bits() == int(o)
    def __ne__(self, o): return not self.__eq__(o)
    def __lt__(self, o): return self.bits() < int(o)
    def __le__(self, o): return self.bits() <= int(o)
    def __gt__(self, o): return self.bits() > int(o)
    def __ge__(self, o): return self.bits() >= int(o)
    def __and__(self, o): return self.bits() & int(o)
    def __or__(self, o): return self.bits() | int(o)
    def __xor__(self, o): return self.bits() ^ int(o)
    def __rshift__(self, o): return self.bits() >> int(o)
    def __lshift__(self, o): return self.bits() << int(o)
    def __add__(self, o): return self.bits() + int(o)
    def __sub__(self, o): return self.bits() - int(o)
    def __mul__(self, o): return self.bits() * int(o)
    __rand__ = __and__; __ror__ = __or__; __rxor__ = __xor__; __radd__ = __add__; __rmul__ = __mul__
    def __rsub__(self, o): return int(o) - self.bits()
    def __repr__(self): return show(self)

NAN = V({}, (), 'nan'); INF = V({}, (), 'inf'); NINF = V({}, (), '-inf')
ZERO = V({}); ONE = V({(): Fr(1)})
_cc = {}
def const(c):
    if not isinstance(c, Fr): c = Fr(c)
    return V({(): c}) if c else ZERO
def from_bits(b):
    v = _cc.get(b)
    if v is None:
        f = struct.unpack('<d', struct.pack('<Q', b))[0]
        v = from_float(f)
        if not v.sp: v = V(v.n, v.d)
        v._bits = b
        _cc[b] = v
    return v
def from_float(f):
    if f != f: return NAN
    if f == math.inf: return INF
    if f == -math.inf: return NINF
    return const(Fr(f))
def atom(i): return V({((i, Fr(1)),): Fr(1)})

def show(v):
    if v.sp: return v.sp
    def mono(m): return '*'.join(ATOMS[i].name + (f'^{float(e):g}' if e != 1 else '') for i, e in m)
    def poly(p):
        if not p: return '0'
        t = []
        for m, c in list(p.items())[:12]:
            f = f'{float(c):.8g}'
            t.append(f if not m else mono(m) if c == 1 else f + '*' + mono(m))
        return ' + '.join(t) + (' + ...' if len(p) > 12 else '')
    s = poly(v.n)
    for k, e in v.d: s = f'({s})/({poly(dict(k))})' + (f'^{e}' if e != 1 else '')
    return s

def norm_den(f):
    """(content, monomial, primitive poly) of f"""
    l = lead(f); c = f[l]
    return c, {m: v / c for m, v in f.items()}

def make(n, d):
    """n: poly, d: dict polykey->int exponent"""
    if not n: return ZERO
    if len(n) > LIMIT: raise Unsupported('expression too large')
    out = []
    for k, e in d.items():
        f = dict(k)
        while e > 0:
            q = pdivexact(n, f) if len(n) >= len(f) else None
            if q is None: break
            n = q; e -= 1
        if e > 0: out.append((k, e))
    r = V(n, tuple(sorted(out)))
    if needs_norm(n): return renorm(r)
    return r

def renorm(v):
    """exponents of root atoms back into (0,1)"""
    tot = None
    for m, c in v.n.items():
        t = V({tuple((i, e) for i, e in m if ATOMS[i].kind != 'base' or 0 < e < 1): c})
        for i, e in m:
            if ATOMS[i].kind == 'base' and not (0 < e < 1):
                k = math.floor(e); fr = e - k
                if fr: t = V({mmul(lead(t.n), ((i, fr),)): t.n[lead(t.n)]}, t.d) if len(t.n) == 1 and not t.d else mul(t, V({((i, fr),): Fr(1)}))
                t = mul(t, powi(ATOMS[i].arg, k))
        tot = t if tot is None else add(tot, t)
    if v.d:
        tot = make(tot.n, dict_add(dict(tot.d), dict(v.d)))
    return tot
def dict_add(a, b):
    for k, e in b.items(): a[k] = a.get(k, 0) + e
    return a

def neg(a):
    if a.sp: return {'nan': NAN, 'inf': NINF, '-inf': INF}[a.sp]
    return V({m: -c for m, c in a.n.items()}, a.d)
def add(a, b):
    if a.sp or b.sp: return special_add(a, b)
    if a.d == b.d:
        n = padd(a.n, b.n)
        if not a.d: return V(n) if len(n) <= LIMIT else make(n, {})
        return make(n, dict(a.d))
    da, db = dict(a.d), dict(b.d)
    l = dict(da)
    for k, e in db.items(): l[k] = max(l.get(k, 0), e)
    def up(n, d):
        for k, e in l.items():
            for _ in range(e - d.get(k, 0)): n = pmul(n, dict(k))
        return n
    return make(padd(up(a.n, da), up(b.n, db)), l)
def sub(a, b): return add(a, neg(b))
def mul(a, b):
    if a.sp or b.sp: return special_mul(a, b)
    n = pmul(a.n, b.n)
    if not a.d and not b.d and not needs_norm(n):
        if len(n) > LIMIT: raise Unsupported('expression too large')
        return V(n)
    return make(n, dict_add(dict(a.d), dict(b.d)))
def inv(b):
    n, d = {(): Fr(1)}, {}
    for k, e in b.d:
        for _ in range(e): n = pmul(n, dict(k))
    if len(b.n) == 1:
        (m, c), = b.n.items()
        return make(pscale(n, minv(m), 1 / c), {})
    # pull out the common monomial so that factors stay small
    c, f = norm_den(b.n)
    g = common(f)
    if g:
        f = pscale(f, minv(g), Fr(1)); n = pscale(n, minv(g), Fr(1))
    return make(pscale(n, (), 1 / c), {pkey(f): 1})
def common(f):
    it = iter(f); g = dict(next(it))
    for m in it:
        d = dict(m)
        for i in list(g):
            if i not in d: del g[i]
            else: g[i] = min(g[i], d[i])
        if not g: break
    return tuple(sorted(g.items()))
def div(a, b):
    if a.sp or b.sp: return special_div(a, b)
    c = b.const()
    if c is None:
        if ENGINE[0].branch('eq', b, ZERO): c = Fr(0)
    if c == 0:
        s = sign(a)
        return NAN if s == 0 else INF if s > 0 else NINF     # sign of zero not modelled
    if c is not None: return mul(a, const(1 / c)) if not a.d else V({m: v / c for m, v in a.n.items()}, a.d)
    return mul(a, inv(b))
def powi(a, k):
    if k < 0:
        return powi(div(ONE, a), -k)
    r = ONE
    for _ in range(k): r = mul(r, a)
    return r
def special_add(a, b):
    if 'nan' in (a.sp, b.sp): return NAN
    if a.sp and b.sp: return a if a.sp == b.sp else NAN
    return a if a.sp else b
def sign(a):
    if a.sp: return 1 if a.sp == 'inf' else -1
    e = ENGINE[0]
    return 0 if e.branch('eq', a, ZERO) else 1 if e.branch('lt', ZERO, a) else -1
def special_mul(a, b):
    if 'nan' in (a.sp, b.sp): return NAN
    s = sign(a) * sign(b)
    return NAN if s == 0 else INF if s > 0 else NINF
def special_div(a, b):
    if 'nan' in (a.sp, b.sp) or (a.sp and b.sp): return NAN
    if b.sp: return ZERO
    s = sign(a) * (sign(b) or 1)
    return INF if s > 0 else NINF

# ---- functions ----
def vkey(v): return (pkey(v.n), v.d)
def is_const(v):
    def p(n): return all(ATOMS[i].const for m in n for i, _ in m)
    return p(v.n) and all(p(dict(k)) for k, _ in v.d)
def primes(n):
    out = []; p = 2
    while p <= 997 and p * p <= n:
        while n % p == 0: out.append(p); n //= p
        p += 1 if p == 2 else 2
    if n > 1: out.append(n)
    return out
def base_atom(p):
    """root atom for the positive value p"""
    return mk_atom('base', vkey(p), p, pos=True, lo=0.0, const=is_const(p))
def const_pow(c, e):
    """c > 0 rational, e rational -> V"""
    if e.denominator == 1: return const(c ** int(e))
    r = ONE
    for q, s in ((c.numerator, 1), (c.denominator, -1)):
        if q == 1: continue
        for f in primes(q):
            k = math.isqrt(f)
            if k * k == f and e.denominator == 2: r = mul(r, const(Fr(k) ** int(2 * e * s))); continue
            r = mul(r, V({((base_atom(const(f)), e * s),): Fr(1)}))
    return r
def root(a, e):
    """a ** e for a known positive"""
    c = a.const()
    if c is not None: return const_pow(c, e)
    r = ONE
    n = a.n
    g = common(n)
    g = tuple((i, x) for i, x in g if ATOMS[i].pos)
    if g:
        n = pscale(n, minv(g), Fr(1))
        r = mul(r, V({tuple((i, x * e) for i, x in g): Fr(1)}))
    rest = V(n, a.d)
    if a.d or len(n) > 1 or any(m for m in n):
        c = abs(n[lead(n)])
        rest = V({m: x / c for m, x in n.items()}, a.d)
        r = mul(r, const_pow(c, e))
        r = mul(r, V({((base_atom(rest), e),): Fr(1)}))
    else:
        r = mul(r, const_pow(n[()], e))
    return r
def sqrt(a):
    if a.sp: return INF if a.sp == 'inf' else NAN
    if ENGINE[0].branch('lt', a, ZERO): return NAN
    if ENGINE[0].branch('eq', a, ZERO): return ZERO
    return root(a, Fr(1, 2))
def square(p):
    """(c, s) with p = c * s^2, s a polynomial, c > 0; else None"""
    ats = sorted({i for m in p for i, _ in m})
    def key(m):
        d = dict(m); return tuple(d.get(i, Fr(0)) for i in ats)
    l = max(p, key=key); c = p[l]
    if c < 0 or len(p) > 60: return None
    q = {m: x / c for m, x in p.items()}
    h = tuple((i, e / 2) for i, e in l)
    s = {h: Fr(1)}; r = padd(q, {l: Fr(1)}, -1); ih = minv(h)
    for _ in range(16):
        if not r:
            odd = any(e.denominator != 1 and not ATOMS[i].pos for m in s for i, e in m)
            return (c, s) if not odd and (len(s) > 1 or any(abs(e) >= 2 for _, e in l)) else None
        t = max(r, key=key)
        m = mmul(t, ih); x = r[t] / 2
        if m in s: return None
        r = padd(r, pscale(s, m, 2 * x), -1)
        r = padd(r, {mmul(m, m): x * x}, -1)
        s[m] = x
    return None
def exp(a):
    if not a.sp and a.n and all(e % 2 == 0 for _, e in a.d):
        q = square({m: -c for m, c in a.n.items()}) if (len(a.n) > 1 or any(m for m in a.n)) else None
        if q:
            c, s = q
            arg = V({m: -x for m, x in pscale(pmul(s, s), (), c).items()}, a.d)
            i = mk_atom('gauss', (c, pkey(s), a.d), arg, pos=True, lo=0.0, hi=1.0, const=is_const(arg))
            return atom(i)
    if a.sp: return {'nan': NAN, 'inf': INF, '-inf': ZERO}[a.sp]
    r = ONE
    for m, c in a.n.items():
        if not a.d and len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]].kind == 'ln':
            r = mul(r, power_of(ATOMS[m[0][0]].arg, c)); continue
        i = mk_atom('exp', (m, a.d), V({m: Fr(1)}, a.d), pos=True, lo=0.0, const=is_const(V({m: Fr(1)}, a.d)))
        r = mul(r, V({((i, c),): Fr(1)}))
    return r
def power_of(p, c):
    """p ** c, p positive"""
    if c.denominator == 1: return powi(p, int(c))
    return root(p, c)
def ln(a):
    if a.sp: return INF if a.sp == 'inf' else NAN
    e = ENGINE[0]
    if e.branch('lt', a, ZERO): return NAN
    if e.branch('eq', a, ZERO): return NINF
    return ln_pos(a)
def ln_const(c):
    r = ZERO
    for q, s in ((c.numerator, 1), (c.denominator, -1)):
        for f in primes(q):
            r = add(r, mul(const(s), atom(mk_atom('ln', vkey(const(f)), const(f), pos=True, const=True))))
    return r
def ln_pos(a):
    c = a.const()
    if c is not None: return ln_const(c) if c != 1 else ZERO
    r = ZERO; n = a.n
    g = tuple((i, x) for i, x in common(n) if ATOMS[i].pos)
    for i, x in g:
        A = ATOMS[i]
        t = A.arg if A.kind in ('exp', 'gauss') else ln_pos(A.arg) if A.kind == 'base' else atom(mk_atom('ln', vkey(atom(i)), atom(i), const=A.const))
        r = add(r, mul(const(x), t))
    if g: n = pscale(n, minv(g), Fr(1))
    d = a.d
    for k, ex in a.d:
        f = V(dict(k))
        if ENGINE[0].proves_pos(f):
            d = tuple(x for x in d if x[0] != k)
            r = sub(r, mul(const(ex), ln_pos(f)))
    if len(n) == 1 and () in n and not d: return add(r, ln_pos(V(n)))
    c = abs(n[lead(n)])
    rest = V({m: x / c for m, x in n.items()}, d)
    r = add(r, ln_pos(const(c)))
    return add(r, atom(mk_atom('ln', vkey(rest), rest, const=is_const(rest))))
def leading_negative(a): return bool(a.n) and a.n[lead(a.n)] < 0
UF = {  # name: (parity, lo, hi, mp function, increasing)
    'erfc': ('refl2', 0.0, 2.0, mpmath.erfc, -1),
    'tanh': ('odd', -1.0, 1.0, mpmath.tanh, 1),
    'sinh': ('odd', -math.inf, math.inf, mpmath.sinh, 1),
    'atan': ('odd', -1.5707964, 1.5707964, mpmath.atan, 1),
    'sin': ('odd', -1.0, 1.0, mpmath.sin, 0), 'cos': ('even', -1.0, 1.0, mpmath.cos, 0),
    'erfc_inv': (None, -math.inf, math.inf, lambda x: mpmath.erfinv(1 - x), -1),
    'floor': (None, -math.inf, math.inf, mpmath.floor, 0),
}
def uf(name, a):
    if a.sp:
        if a.sp == 'nan': return NAN
        lim = {'erfc': (0, 2), 'tanh': (1, -1)}.get(name)
        if lim is None: raise Unsupported(f'{name} of {a.sp}')
        return const(lim[0 if a.sp == 'inf' else 1])
    par, lo, hi, f, inc = UF[name]
    c = a.const()
    if c == 0 and name in ('erfc', 'tanh', 'sinh', 'sin', 'atan', 'cos'): return ONE if name in ('erfc', 'cos') else ZERO
    if par and leading_negative(a):
        t = uf(name, neg(a))
        return sub(const(2), t) if par == 'refl2' else neg(t) if par == 'odd' else t
    # erfc(erfc_inv(x)) = x
    if name == 'erfc' and not a.d and len(a.n) == 1:
        (m, k), = a.n.items()
        if k == 1 and len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]].kind == 'erfc_inv': return ATOMS[m[0][0]].arg
    i = mk_atom(name, vkey(a), a, pos=(name == 'erfc'), lo=lo, hi=hi, const=is_const(a))
    return atom(i)

# ---- numeric evaluation ----
def evalm(v, env, memo=None):
    """mpmath value of v; env: input atom id -> number"""
    if memo is None: memo = {}
    if v.sp: return mpmath.mpf(v.sp)
    def at(i):
        if i in memo: return memo[i]
        A = ATOMS[i]
        if A.kind == 'in': r = mpmath.mpf(env[i])
        elif A.kind in ('exp', 'gauss'): r = mpmath.exp(evalm(A.arg, env, memo))
        elif A.kind == 'ln': r = mpmath.log(evalm(A.arg, env, memo))
        elif A.kind == 'base': r = evalm(A.arg, env, memo)
        else: r = UF[A.kind][3](evalm(A.arg, env, memo))
        memo[i] = r
        return r
    def poly(n):
        t = mpmath.mpf(0)
        for m, c in n.items():
            x = mpmath.mpf(c.numerator) / c.denominator
            for i, e in m: x *= at(i) ** (int(e) if e.denominator == 1 else mpmath.mpf(e.numerator) / e.denominator)
            t += x
        return t
    r = poly(v.n)
    for k, e in v.d: r /= poly(dict(k)) ** e
    return r
_cm = {}
def const_value(v):
    """numeric value of a constant expression"""
    return evalm(v, {})

# ---- interval bounds (used as solver axioms and quick filters) ----
SL = 1e-11
def widen(lo, hi):
    return (lo - SL * (1 + abs(lo)) if lo > -math.inf else lo, hi + SL * (1 + abs(hi)) if hi < math.inf else hi)
def imul(a, b):
    c = []
    for x in a:
        for y in b: c.append(0.0 if x == 0 or y == 0 else x * y)
    return min(c), max(c)
def ipow(a, e):
    lo, hi = a
    if e.denominator == 1 and e > 0:
        k = int(e)
        try:
            p, q = lo ** k, hi ** k
        except OverflowError: return (-math.inf if k % 2 else 0.0, math.inf)
        if k % 2: return p, q
        return (0.0, max(p, q)) if lo <= 0 <= hi else (min(p, q), max(p, q))
    if e > 0:
        lo = max(lo, 0.0); hi = max(hi, 0.0)
        try: return lo ** float(e), (hi ** float(e) if hi < math.inf else math.inf)
        except OverflowError: return 0.0, math.inf
    if e.denominator != 1: lo = max(lo, 0.0)
    p = ipow((lo, hi), -e)
    if p[0] <= 0 <= p[1]:
        if p[0] == 0 and lo >= 0: return (1 / p[1] if p[1] and p[1] < math.inf else 0.0, math.inf)
        return -math.inf, math.inf
    return (1 / p[1] if abs(p[1]) < math.inf else 0.0), (1 / p[0] if abs(p[0]) < math.inf else 0.0)
def bounds(i, memo):
    if i in memo: return memo[i]
    A = ATOMS[i]
    memo[i] = (A.lo, A.hi)
    if A.kind == 'in': return A.lo, A.hi
    if A.const:
        x = float(evalm(atom(i), {})); r = widen(x, x)
    else:
        lo, hi = interval(A.arg, memo)
        if A.kind == 'gauss': r = (0.0, 1.0)
        elif A.kind == 'exp':
            r = (math.exp(max(lo, -745)) if lo > -745 else 0.0, math.exp(hi) if hi < 700 else math.inf); r = widen(*r); r = (max(r[0], 0.0), r[1])
        elif A.kind == 'ln':
            r = widen(math.log(lo) if lo > 0 else -math.inf, math.log(hi) if 0 < hi < math.inf else math.inf)
        elif A.kind == 'base': r = (max(lo, 0.0), hi)
        elif A.kind in ('erfc', 'tanh'):
            f = math.erfc if A.kind == 'erfc' else math.tanh
            p, q = sorted((f(lo), f(hi))); r = widen(p, q); r = (max(r[0], A.lo), min(r[1], A.hi))
        else: r = (A.lo, A.hi)
    memo[i] = r
    return r
def ipoly(n, memo):
    lo = hi = 0.0
    for m, c in n.items():
        t = widen(float(c), float(c))
        if c == int(c): t = (float(c), float(c))
        for i, e in m: t = imul(t, ipow(bounds(i, memo), e))
        lo += t[0]; hi += t[1]
        if lo != lo: lo = -math.inf
        if hi != hi: hi = math.inf
    return widen(lo, hi) if len(n) > 1 else (lo, hi)
def interval(v, memo):
    r = ipoly(v.n, memo)
    for k, e in v.d:
        d = ipow(ipoly(dict(k), memo), Fr(-e)); r = imul(r, d)
    return r
