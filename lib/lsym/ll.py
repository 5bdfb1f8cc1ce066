"""LLVM IR (text) -> Python code, one function at a time, on demand."""
import re, struct, sys, bisect
from fractions import Fraction as Fr
from . import alg
from .alg import V, Unsupported

TOK = re.compile(r'\s*(?:(%"[^"]*"|%[-\w.$]+)|(@"[^"]*"|@[-\w.$]+)|(c"[^"]*")|("[^"]*")|([-+]?\d[\w.+-]*|[-+](?:inf|q?s?nan)\b)|([A-Za-z_][\w.]*)|(\.\.\.)|(.))')
def tokens(s):
    out = []; p = 0; n = len(s)
    while p < n:
        m = TOK.match(s, p)
        if not m: break
        t = m.group(m.lastindex)
        if t.strip(): out.append(t)
        p = m.end()
    return out

class T:
    """token stream"""
    def __init__(self, s): self.t = tokens(s); self.i = 0
    def peek(self, k=0): return self.t[self.i + k] if self.i + k < len(self.t) else None
    def next(self): self.i += 1; return self.t[self.i - 1]
    def eat(self, x):
        if self.peek() == x: self.i += 1; return True
        return False
    def need(self, x):
        if self.next() != x: raise Unsupported(f'parse: expected {x} at {self.t[max(0,self.i-4):self.i+4]}')

def ptype(t):
    x = t.next()
    if x[0] == 'i' and x[1:].isdigit(): r = ('i', int(x[1:]))
    elif x == 'ptr':
        r = ('p',)
        if t.peek() == 'addrspace': t.next(); t.next(); t.next(); t.next()
    elif x == 'double': r = ('d',)
    elif x == 'float': r = ('f',)
    elif x == 'void': r = ('void',)
    elif x in ('label', 'metadata', 'token'): r = (x,)
    elif x == 'fp128' or x == 'half' or x == 'x86_fp80' or x == 'bfloat': r = ('o', {'half': 2, 'bfloat': 2}.get(x, 16))
    elif x == '[':
        n = int(t.next()); t.need('x'); e = ptype(t); t.need(']'); r = ('a', n, e)
    elif x == '{':
        r = ('s', tuple(plist(t, '}')), False)
    elif x == '<':
        if t.peek() == '{':
            t.next(); e = plist(t, '}'); t.need('>'); r = ('s', tuple(e), True)
        else:
            n = int(t.next()); t.need('x'); e = ptype(t); t.need('>'); r = ('v', n, e)
    elif x[0] == '%': r = ('named', x)
    else: raise Unsupported('type ' + x)
    while t.peek() == '(' and r[0] in ('void', 'i', 'p', 'd', 's') and t.peek(-1) is not None:
        # function type
        d = 0
        save = t.i
        while True:
            y = t.next()
            if y == '(': d += 1
            if y == ')':
                d -= 1
                if d == 0: break
        break
    return r
def plist(t, end):
    out = []
    if t.eat(end): return out
    while True:
        out.append(ptype(t))
        if t.eat(end): return out
        t.need(',')

def align(ty):
    k = ty[0]
    if k == 'i': return min(16, max(1, 1 << ((ty[1] + 7) // 8 - 1).bit_length()))
    if k in ('p', 'd'): return 8
    if k == 'f': return 4
    if k == 'a': return align(ty[2])
    if k == 'v': return size(ty)
    if k == 's': return 1 if ty[2] else max([align(x) for x in ty[1]] or [1])
    if k == 'o': return ty[1]
    raise Unsupported('align ' + str(ty))
def size(ty):
    k = ty[0]
    if k == 'i':
        n = (ty[1] + 7) // 8; a = align(ty)
        return (n + a - 1) // a * a
    if k in ('p', 'd'): return 8
    if k == 'f': return 4
    if k == 'a': return ty[1] * size(ty[2])
    if k == 'v': return (ty[1] * (ty[2][1] if ty[2][0] == 'i' else size(ty[2]) * 8) + 7) // 8
    if k == 's': return offsets(ty)[1]
    if k == 'o': return ty[1]
    raise Unsupported('size ' + str(ty))
def offsets(ty):
    o = 0; out = []
    for x in ty[1]:
        if not ty[2]: a = align(x); o = (o + a - 1) // a * a
        out.append(o); o += size(x)
    if not ty[2]:
        a = align(ty); o = (o + a - 1) // a * a
    return out, o

META = re.compile(r', ![a-zA-Z_.]+ .*$')
CASTS = ('zext', 'sext', 'trunc', 'bitcast', 'inttoptr', 'ptrtoint', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'fpext', 'fptrunc', 'addrspacecast')
VALSTART = {'null', 'undef', 'poison', 'true', 'false', 'zeroinitializer', 'getelementptr', 'splat', 'blockaddress', 'add', 'sub', 'mul', 'select', 'icmp', 'none', 'asm',
            'ptrtoaddr', 'no_cfi', 'dso_local_equivalent'} | set(CASTS)
def skip_attrs(t):
    while True:
        x = t.peek()
        if x is None: return
        if x == 'align': t.next(); t.next() if t.peek() != '(' else skip_paren(t); continue
        if x[0].isalpha() and x not in VALSTART and not x.startswith('c"') and not x.startswith('f0x'):
            t.next()
            if t.peek() == '(': skip_paren(t)
            continue
        return
def skip_paren(t):
    d = 0
    while True:
        y = t.next()
        if y == '(': d += 1
        elif y == ')':
            d -= 1
            if d == 0: return

M64 = (1 << 64) - 1
def fbits(x):
    if x.startswith('0x'): return int(x, 16)
    if x.startswith('f0x'): return int(x[1:], 16)
    x = x.replace('qnan', 'nan').replace('snan', 'nan')
    return struct.unpack('<Q', struct.pack('<d', float(x)))[0]
def undef(ty):
    k = ty[0]
    if k == 'd': return alg.ZERO
    if k in ('a', 'v'): return tuple(undef(ty[2]) for _ in range(ty[1]))
    if k == 's': return tuple(undef(x) for x in ty[1])
    return 0

class Module:
    def __init__(self, path, rt):
        self.text = open(path, encoding='utf8', errors='replace').read()
        self.rt = rt
        self.defs = {}; self.globals = {}; self.decls = set(); self.names = {}; self.alias = {}
        tx = self.text
        for m in re.finditer(r'^(define |declare |@)', tx, re.M):
            e = tx.find('\n', m.start()); l = tx[m.start():e]
            if l[0] == '@':
                g = re.match(r'(@"[^"]*"|@[-\w.$]+) = ', l)
                if re.search(r'\balias\b', l[:400].split('@', 2)[1] if False else l[g.end():g.end() + 200].split('@')[0]): self.alias[g[1]] = re.findall(r'@"[^"]*"|@[-\w.$]+', l[g.end():])[0]
                else: self.globals[g[1]] = (m.start() + g.end(), e)
            else:
                n = re.search(r'(@"[^"]*"|@[-\w.$]+)\(', l)[1]
                if l.startswith('define'):
                    self.defs[n] = m.start()
                    p = tx.rfind('\n', 0, m.start() - 1)
                    c = tx[p + 1:m.start() - 1]
                    if c.startswith('; Function Attrs'):
                        q = tx.rfind('\n', 0, p); c = tx[q + 1:p]
                    self.names[n] = c[2:] if c.startswith('; ') else n[1:]
                else: self.decls.add(n)
        self.gaddr = {}; self.faddr = {}; self.fby = {}
        self.fid = {}
        self.G = rt.namespace()
        self.compiled = {}

    def fname(self, n):
        """python name of function n; a stub that compiles on first call"""
        n = self.alias.get(n, n)
        i = self.fid.get(n)
        if i is None:
            i = self.fid[n] = f'f{len(self.fid)}'
            self.G[i] = self.stub(n, i)
        return i
    def stub(self, n, i):
        h = self.rt.intercept(n, self.names.get(n, n[1:]))
        if h: return h
        def go(*a):
            if n not in self.defs: raise Unsupported('call of external ' + n)
            f = Compiler(self, n).compile(i)
            self.G[i] = f
            for d in self.fby.values():
                if d[1] == i: d[0] = f
            self.compiled[n] = 1
            return f(*a)
        return go
    def func_addr(self, n):
        n = self.alias.get(n, n)
        a = self.faddr.get(n)
        if a is None:
            i = self.fname(n)
            a = self.faddr[n] = 0x7f0000000000 + 16 * len(self.faddr)
            self.fby[a] = [self.G[i], i]
        return a
    def addr(self, n):
        n = self.alias.get(n, n)
        if n in self.defs or n in self.decls: return self.func_addr(n)
        a = self.gaddr.get(n)
        if a is None:
            if n not in self.globals: raise Unsupported('unknown symbol ' + n)
            s, e = self.globals[n]
            l = META.sub('', self.text[s:e])
            t = T(l)
            ext = False
            while t.peek() not in ('global', 'constant'):
                x = t.next()
                if x in ('external', 'extern_weak'): ext = True
                if t.peek() == '(': skip_paren(t)
            t.next()
            ty = ptype(t)
            n_ = size(ty)
            a = self.gaddr[n] = self.rt.galloc(max(n_, 8))
            if not ext and t.peek() != ',' and t.peek() is not None:
                self.rt.ginit(a, lambda: self.init(a, ty, t))
                self.rt.run_ginit(a)
        return a
    def init(self, a, ty, t):
        self.store_const(a, ty, self.cval(t, ty))
    def store_const(self, a, ty, v):
        k = ty[0]
        if k == 'a':
            if isinstance(v, bytes):
                self.rt.write_bytes(a, v); return
            s = size(ty[2])
            for j, x in enumerate(v): self.store_const(a + j * s, ty[2], x)
        elif k == 's':
            for o, e, x in zip(offsets(ty)[0], ty[1], v): self.store_const(a + o, e, x)
        elif k == 'v':
            s = size(ty[2])
            for j, x in enumerate(v): self.store_const(a + j * s, ty[2], x)
        elif k == 'd': self.rt.st8(a, v.bits() if isinstance(v, V) else v)
        else: self.rt.stn(a, size(ty), v)

    def cval(self, t, ty):
        """constant value after its type"""
        x = t.next(); k = ty[0]
        if x == 'null' or x == 'none': return 0
        if x in ('undef', 'poison', 'zeroinitializer'): return undef(ty)
        if x == 'true': return 1
        if x == 'false': return 0
        if x[0] == '@': return self.addr(x)
        if x == 'splat':
            t.need('('); e = ptype(t); v = self.cval(t, e); t.need(')'); return (v,) * ty[1]
        if x[0] == 'c' and x[1:2] == '"':
            s = x[2:-1]; out = bytearray(); i = 0
            b = s.encode('utf8', 'replace')
            while i < len(b):
                if b[i] == 92 and b[i + 1] == 92: out.append(92); i += 2
                elif b[i] == 92: out.append(int(b[i + 1:i + 3], 16)); i += 3
                else: out.append(b[i]); i += 1
            return bytes(out)
        if x in '[{<':
            if x == '<' and t.peek() == '{': t.next(); end = '}'
            else: end = {'[': ']', '{': '}', '<': '>'}[x]
            out = []
            if not t.eat(end):
                while True:
                    e = ptype(t); out.append(self.cval(t, e))
                    if t.eat(end): break
                    t.need(',')
            if x == '<' and end == '}': t.need('>')
            return tuple(out)
        if x == 'getelementptr':
            while t.peek() in ('inbounds', 'nuw', 'nusw', 'inrange'):
                if t.next() == 'inrange': skip_paren(t)
            t.need('('); ety = ptype(t); t.need(','); bt = ptype(t); b = self.cval(t, bt)
            cur = ety; first = True
            while t.eat(','):
                it = ptype(t); i = self.cval(t, it)
                if i >= 1 << (it[1] - 1): i -= 1 << it[1]
                if first: b += i * size(ety); first = False
                elif cur[0] == 's': b += offsets(cur)[0][i]; cur = cur[1][i]
                else: cur = cur[2]; b += i * size(cur)
            t.need(')'); return b & M64
        if x in CASTS or x == 'ptrtoaddr':
            t.need('('); st = ptype(t); v = self.cval(t, st); t.need('to'); dt = ptype(t); t.need(')')
            return v & ((1 << dt[1]) - 1) if dt[0] == 'i' else v
        if x in ('add', 'sub', 'mul'):
            while t.peek() in ('nuw', 'nsw'): t.next()
            t.need('('); a = ptype(t); u = self.cval(t, a); t.need(','); b = ptype(t); w = self.cval(t, b); t.need(')')
            return {'add': u + w, 'sub': u - w, 'mul': u * w}[x] & ((1 << a[1]) - 1)
        if k == 'i': return int(x) & ((1 << ty[1]) - 1)
        if k == 'd': return alg.from_bits(fbits(x))
        if k == 'f': return 0
        raise Unsupported(f'constant {x} of {ty}')

def to_blocks(body, entry):
    blocks = []; cur = None
    lines = body.split('\n'); i = 0
    while i < len(lines):
        l = lines[i]; i += 1
        if not l or l[0] == ';' or l.startswith('  ;'): continue
        if l[0] != ' ':
            m = re.match(r'("[^"]*"|[-\w.$]+):', l)
            if m:
                cur = ['%' + m[1], []]; blocks.append(cur); continue
            continue
        s = l.strip()
        if s.startswith('switch') and s.endswith('['):
            while True:
                x = lines[i].strip(); i += 1
                s += ' ' + x
                if x.startswith(']'): break
        if s.startswith('#dbg'): continue
        if s.startswith(('to label', 'cleanup', 'catch', 'filter')) and cur and cur[1]:
            cur[1][-1] += ' ' + s; continue
        if cur is None: cur = [entry, []]; blocks.append(cur)
        if '/*' in s: s = re.sub(r'/\*.*?\*/', '', s)
        cur[1].append(META.sub('', s))
    return blocks

class Compiler:
    def __init__(self, mod, name): self.m = mod; self.name = name
    def reg(self, n):
        r = self.regs.get(n)
        if r is None: r = self.regs[n] = f'v{len(self.regs)}'
        return r
    def const(self, v):
        if isinstance(v, bool): v = int(v)
        if isinstance(v, int): return str(v)
        if isinstance(v, V) or isinstance(v, tuple):
            k = f'k{len(self.m.G)}'; self.m.G[k] = v; return k
        raise Unsupported('const ' + repr(v))
    def val(self, t, ty):
        skip_attrs(t)
        x = t.peek()
        if x[0] == '%': t.next(); return self.reg(x)
        return self.const(self.m.cval(t, ty))
    def tval(self, t):
        ty = ptype(t); return ty, self.val(t, ty)

    def compile(self, pyname):
        tx = self.m.text; s = self.m.defs[self.name]
        e = tx.find('\n}', s); hl = tx.find('\n', s)
        head = tx[s:hl]; body = tx[hl + 1:e]
        self.regs = {}
        t = T(head[head.index(self.name) + len(self.name):])
        t.need('(')
        params = []
        while not t.eat(')'):
            if t.eat('...'): continue
            ty = ptype(t); skip_attrs(t)
            x = t.peek()
            params.append(self.reg(x if x and x[0] == '%' else f'%{len(params)}'))
            if x and x[0] == '%': t.next()
            t.eat(',')
        blocks = to_blocks(body, f'%{len(params)}')
        self.blocks = {b[0]: b[1] for b in blocks}
        order = [b[0] for b in blocks]
        self.idx = {b: i for i, b in enumerate(order)}
        self.phis = {}; preds = {b: 0 for b in order}
        for b, ins in blocks:
            ph = []
            while ins and ' = phi ' in ins[0]:
                l = ins.pop(0)
                r, rest = l.split(' = phi ', 1)
                t = T(rest); 
                while t.peek() in ('nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'fast'): t.next()
                ty = ptype(t); d = {}
                while t.eat('['):
                    v = self.val(t, ty); t.need(','); lab = t.next(); t.need(']'); d[lab] = v; t.eat(',')
                ph.append((self.reg(r), d))
            self.phis[b] = ph
            for lab in re.findall(r'label (%"[^"]*"|%[-\w.$]+)', ins[-1] if ins else ''): preds[lab] = preds.get(lab, 0) + 1
        self.preds = preds
        self.has_alloca = ' = alloca ' in body
        self.emitted = {}
        self.top = [order[0]]; self.queue = [order[0]]
        code = {}
        while self.queue:
            b = self.queue.pop(0)
            if b in code: continue
            out = []; self.emit_block(b, out, 0)
            code[b] = out
        labels = sorted(code, key=lambda b: self.idx[b])
        num = {b: i for i, b in enumerate(labels)}
        src = [f'def {pyname}({", ".join(params)}):']
        if self.has_alloca: src.append(' sp0 = S[0]')
        src.append(f' bb = {num[order[0]]}')
        src.append(' while True:')
        def tree(lo, hi, ind):
            if hi - lo == 1:
                for l in code[labels[lo]]:
                    m = re.match(r'( *)@@GOTO (.*)$', l)
                    if m: src.append(' ' * ind + m[1] + f'bb = {num[m[2]]}'); src.append(' ' * ind + m[1] + 'continue')
                    else: src.append(' ' * ind + l)
                return
            mid = (lo + hi) // 2
            src.append(' ' * ind + f'if bb < {mid}:'); tree(lo, mid, ind + 1)
            src.append(' ' * ind + 'else:'); tree(mid, hi, ind + 1)
        tree(0, len(labels), 2)
        s = '\n'.join(src); self.src = s
        try: exec(compile(s, self.name[:60], 'exec'), self.m.G)
        except SyntaxError as ex: raise Unsupported(f'codegen {self.name}: {ex}\n' + s.split('\n')[ex.lineno - 1])
        return self.m.G[pyname]

    def edge(self, frm, to, out, ind):
        ph = [(r, d[frm]) for r, d in self.phis[to]]
        ph = [(r, v) for r, v in ph if r != v]
        if ph: out.append(' ' * ind + ', '.join(r for r, _ in ph) + ' = ' + ', '.join(v for _, v in ph))
        if self.preds[to] == 1 and ind < 24 and to not in self.top:
            self.emit_block(to, out, ind)
        else:
            if to not in self.top: self.top.append(to); self.queue.append(to)
            out.append(' ' * ind + f'@@GOTO {to}')
    def emit_block(self, b, out, ind):
        p = ' ' * ind
        ins = self.blocks[b]
        for l in ins[:-1]:
            for s in self.instr(l): out.append(p + s)
        self.term(b, ins[-1], out, ind)

    def term(self, b, l, out, ind):
        p = ' ' * ind
        t = T(l)
        op = t.next()
        if '=' in l.split(' ')[1:2] or op[0] == '%' or op in ('invoke', 'call', 'tail', 'musttail'):
            # invoke / call used as terminator
            if ' invoke ' in ' ' + l:
                m = re.search(r'to label (%"[^"]*"|%[-\w.$]+) unwind label', l)
                c = l[:m.start()].replace('invoke ', 'call ', 1)
                for s in self.instr(c): out.append(p + s)
                self.edge(b, m[1], out, ind); return
            for s in self.instr(l): out.append(p + s)
            return
        if op == 'ret':
            if self.has_alloca: out.append(p + 'S[0] = sp0')
            if t.peek() == 'void': out.append(p + 'return None'); return
            ty, v = self.tval(t); out.append(p + 'return ' + v); return
        if op == 'br':
            if t.peek() == 'label':
                t.next(); self.edge(b, t.next(), out, ind); return
            ty, c = self.tval(t); t.need(','); t.need('label'); x = t.next(); t.need(','); t.need('label'); y = t.next()
            out.append(p + f'if {c}:'); self.edge(b, x, out, ind + 1)
            out.append(p + 'else:'); self.edge(b, y, out, ind + 1); return
        if op == 'switch':
            ty, v = self.tval(t); t.need(','); t.need('label'); d = t.next(); t.need('[')
            cases = {}
            while not t.eat(']'):
                ct = ptype(t); c = self.m.cval(t, ct); t.need(','); t.need('label'); lab = t.next()
                cases.setdefault(lab, []).append(c)
            first = True
            # a switch counts each case as a predecessor; force shared targets to the top
            for lab, cs in cases.items():
                if len(cs) > 1 or lab == d: self.preds[lab] = max(self.preds[lab], 2)
            for lab, cs in cases.items():
                if lab == d: continue
                c = f'{v} == {cs[0]}' if len(cs) == 1 else f'{v} in ({", ".join(map(str, cs))})'
                out.append(p + ('if ' if first else 'elif ') + c + ':'); first = False
                self.edge(b, lab, out, ind + 1)
            if first: self.edge(b, d, out, ind)
            else:
                out.append(p + 'else:'); self.edge(b, d, out, ind + 1)
            return
        if op == 'unreachable': out.append(p + 'unreachable()'); return
        if op in ('resume', 'cleanupret'): out.append(p + 'unreachable()'); return
        raise Unsupported('terminator ' + l[:80])

    def instr(self, l):
        m = re.match(r'(%"[^"]*"|%[-\w.$]+) = ', l)
        dst = None
        if m: dst = self.reg(m[1]); l = l[m.end():]
        t = T(l); op = t.next()
        A = (dst + ' = ') if dst else ''
        if op in ('tail', 'musttail', 'notail'): op = t.next()
        if op == 'call': return self.call(t, A)
        f = getattr(self, 'i_' + op, None)
        if f: return f(t, dst)
        if op in BIN: return self.binop(op, t, dst)
        if op in FBIN:
            self.fm(t); ty = ptype(t); a = self.val(t, ty); t.need(','); b = self.val(t, ty)
            if ty[0] == 'v': return [f'{dst} = tuple({FBIN[op]}(x, y) for x, y in zip({a}, {b}))']
            if ty[0] != 'd': return [f'{dst} = unsupported("float op")']
            return [f'{dst} = {FBIN[op]}({a}, {b})']
        if op in CASTS: return self.cast(op, t, dst)
        raise Unsupported('instruction ' + op + ' ' + l[:80])
    def fm(self, t):
        while t.peek() in ('nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'fast'): t.next()
    def i_alloca(self, t, d):
        ty = ptype(t); n = size(ty); cnt = '1'
        while t.eat(','):
            if t.peek() == 'align': break
            _, cnt = self.tval(t)
        return [f'{d} = (S[0] + 15) & -16', f'S[0] = {d} + {n} * {cnt}']
    def i_load(self, t, d):
        if t.peek() == 'atomic': t.next()
        if t.peek() == 'volatile': t.next()
        ty = ptype(t); t.need(','); _, a = self.tval(t)
        return [f'{d} = {self.load(ty, a)}']
    def load(self, ty, a):
        k = ty[0]
        if k == 'p' or (k == 'i' and ty[1] == 64): return f'ld8({a})'
        if k == 'd': return f'ldd({a})'
        if k == 'i':
            n = size(ty)
            r = f'ldn({a}, {n})'
            if ty[1] != n * 8: r = f'{r} & {(1 << ty[1]) - 1}'
            return r
        if k == 's': return '(' + ''.join(self.load(e, f'{a} + {o}') + ', ' for o, e in zip(offsets(ty)[0], ty[1])) + ')'
        if k in ('v', 'a'):
            s = size(ty[2])
            if k == 'v' and ty[2] == ('i', 1): return f'unsupported("load of bit vector")'
            return '(' + ''.join(self.load(ty[2], f'{a} + {j * s}') + ', ' for j in range(ty[1])) + ')'
        return f'unsupported("load {k}")'
    def store(self, ty, a, v):
        k = ty[0]
        if k == 'p' or k == 'd' or (k == 'i' and ty[1] == 64): return [f'st8({a}, {v})']
        if k == 'i': return [f'stn({a}, {size(ty)}, {v})']
        if k == 's': return [x for j, (o, e) in enumerate(zip(offsets(ty)[0], ty[1])) for x in self.store(e, f'{a} + {o}', f'{v}[{j}]')]
        if k in ('v', 'a'):
            s = size(ty[2]); return [x for j in range(ty[1]) for x in self.store(ty[2], f'{a} + {j * s}', f'{v}[{j}]')]
        return [f'unsupported("store {k}")']
    def i_store(self, t, d):
        if t.peek() == 'atomic': t.next()
        if t.peek() == 'volatile': t.next()
        ty, v = self.tval(t); t.need(','); _, a = self.tval(t)
        return self.store(ty, a, v)
    def i_getelementptr(self, t, d):
        while t.peek() in ('inbounds', 'nuw', 'nusw', 'inrange'):
            t.next()
            if t.peek() == '(': skip_paren(t)
        ety = ptype(t); t.need(','); _, b = self.tval(t)
        off = 0; terms = []; cur = ety; first = True
        while t.eat(','):
            it = ptype(t); x = t.peek()
            if x[0] == '%': i = self.val(t, it); c = None
            else:
                c = self.m.cval(t, it)
                if c >= 1 << (it[1] - 1): c -= 1 << it[1]
            if first: s = size(ety); first = False
            elif cur[0] == 's': off += offsets(cur)[0][c]; cur = cur[1][c]; continue
            else: cur = cur[2]; s = size(cur)
            if c is not None: off += c * s
            else:
                if it[1] < 64: i = f'sx({i}, {it[1]})'
                terms.append(i if s == 1 else f'{i} * {s}')
        e = ' + '.join([b] + terms + ([str(off)] if off else []))
        return [f'{d} = ({e}) & {M64}']
    def i_select(self, t, d):
        self.fm(t)
        ct, c = self.tval(t); t.need(','); ty, a = self.tval(t); t.need(','); _, b = self.tval(t)
        if ct[0] == 'v': return [f'{d} = tuple(x if c else y for c, x, y in zip({c}, {a}, {b}))']
        return [f'{d} = {a} if {c} else {b}']
    def i_icmp(self, t, d):
        if t.peek() == 'samesign': t.next()
        p = t.next(); ty = ptype(t); a = self.val(t, ty); t.need(','); b = self.val(t, ty)
        n = ty[1] if ty[0] == 'i' else 64
        if ty[0] == 'v':
            n = ty[2][1] if ty[2][0] == 'i' else 64
            return [f'{d} = tuple({self.icmp(p, "x", "y", n)} for x, y in zip({a}, {b}))']
        return [f'{d} = {self.icmp(p, a, b, n)}']
    def icmp(self, p, a, b, n):
        o = {'eq': '==', 'ne': '!=', 'ult': '<', 'ule': '<=', 'ugt': '>', 'uge': '>=', 'slt': '<', 'sle': '<=', 'sgt': '>', 'sge': '>='}[p]
        if p[0] == 's':
            s = 1 << (n - 1)
            if n == 64: return f'scmp64({a}, {b}, "{p}")'
            return f'(({a} ^ {s}) {o} ({b} ^ {s}))'
        return f'({a} {o} {b})'
    def i_fcmp(self, t, d):
        self.fm(t); p = t.next(); ty = ptype(t); a = self.val(t, ty); t.need(','); b = self.val(t, ty)
        if ty[0] != 'd': return [f'{d} = unsupported("fcmp")']
        return [f'{d} = fcmp("{p}", {a}, {b})']
    def i_fneg(self, t, d):
        self.fm(t); ty, a = self.tval(t)
        return [f'{d} = fneg({a})']
    def i_freeze(self, t, d):
        ty, a = self.tval(t); return [f'{d} = {a}']
    def i_extractvalue(self, t, d):
        ty, a = self.tval(t)
        while t.eat(','): a += f'[{t.next()}]'
        return [f'{d} = {a}']
    def i_insertvalue(self, t, d):
        ty, a = self.tval(t); t.need(','); _, v = self.tval(t); ix = []
        while t.eat(','): ix.append(int(t.next()))
        return [f'{d} = insv({a}, {v}, {tuple(ix)})']
    def i_extractelement(self, t, d):
        ty, a = self.tval(t); t.need(','); _, i = self.tval(t); return [f'{d} = {a}[{i}]']
    def i_insertelement(self, t, d):
        ty, a = self.tval(t); t.need(','); _, v = self.tval(t); t.need(','); _, i = self.tval(t)
        return [f'{d} = insv({a}, {v}, ({i},))']
    def i_shufflevector(self, t, d):
        ty, a = self.tval(t); t.need(','); _, b = self.tval(t); t.need(','); mt, m = self.tval(t)
        return [f'{d} = tuple(({a} + {b})[i] for i in {m})']
    def i_fence(self, t, d): return []
    def i_landingpad(self, t, d): return ['unreachable()']
    def i_cmpxchg(self, t, d):
        while t.peek() in ('weak', 'volatile'): t.next()
        _, a = self.tval(t); t.need(','); ty, c = self.tval(t); t.need(','); _, n = self.tval(t)
        return [f'{d} = ({self.load(ty, a)}, 0)', f'{d} = ({d}[0], int({d}[0] == {c}))', f'if {d}[1]:'] + [' ' + x for x in self.store(ty, a, n)]
    def i_atomicrmw(self, t, d):
        if t.peek() == 'volatile': t.next()
        op = t.next(); _, a = self.tval(t); t.need(','); ty, v = self.tval(t)
        n = ty[1] if ty[0] == 'i' else 64; M = (1 << n) - 1
        e = {'xchg': v, 'add': f'({d} + {v}) & {M}', 'sub': f'({d} - {v}) & {M}', 'and': f'{d} & {v}', 'or': f'{d} | {v}', 'xor': f'{d} ^ {v}',
             'umax': f'max({d}, {v})', 'umin': f'min({d}, {v})'}[op]
        return [f'{d} = {self.load(ty, a)}'] + self.store(ty, a, e)
    def binop(self, op, t, d):
        while t.peek() in ('nuw', 'nsw', 'exact', 'disjoint'): t.next()
        ty = ptype(t); a = self.val(t, ty); t.need(','); b = self.val(t, ty)
        if ty[0] == 'v': return [f'{d} = tuple({BIN[op](ty[2][1], "x", "y")} for x, y in zip({a}, {b}))']
        return [f'{d} = {BIN[op](ty[1], a, b)}']
    def cast(self, op, t, d):
        while t.peek() in ('nneg', 'nuw', 'nsw'): t.next()
        self.fm(t)
        st = ptype(t); v = self.val(t, st); t.need('to'); dt = ptype(t)
        if st[0] == 'v' or dt[0] == 'v':
            if st[0] == 'v' and dt[0] == 'v' and st[1] == dt[1]:
                return [f'{d} = tuple({self.cast1(op, st[2], dt[2], "x")} for x in {v})']
            if op == 'bitcast' and st[0] == 'v' and dt[0] == 'i':
                n = st[2][1] if st[2][0] == 'i' else 64
                return [f'{d} = sum(int(x) << ({n} * i) for i, x in enumerate({v}))']
            if op == 'bitcast' and dt[0] == 'v' and st[0] == 'i':
                n = dt[2][1] if dt[2][0] == 'i' else 64
                return [f'{d} = tuple(({v} >> ({n} * i)) & {(1 << n) - 1} for i in range({dt[1]}))']
            return [f'{d} = unsupported("vector cast")']
        return [f'{d} = {self.cast1(op, st, dt, v)}']
    def cast1(self, op, st, dt, v):
        if op in ('zext',): return f'int({v})' if st[1] == 1 else v
        if op in ('inttoptr', 'ptrtoint', 'addrspacecast', 'ptrtoaddr'): return v if dt[0] != 'i' or dt[1] == 64 else f'{v} & {(1 << dt[1]) - 1}'
        if op == 'sext':
            if st[1] == 1: return f'({(1 << dt[1]) - 1} if {v} else 0)'
            return f'sx({v}, {st[1]}) & {(1 << dt[1]) - 1}'
        if op == 'trunc': return f'{v} & {(1 << dt[1]) - 1}'
        if op == 'bitcast':
            if dt[0] == 'd' and st[0] == 'i': return f'asd({v})'
            return v
        if dt[0] == 'f' or st[0] == 'f': return 'unsupported("f32")'
        if op == 'sitofp': return f'i2f(sx({v}, {st[1]}))'
        if op == 'uitofp': return f'i2f({v})'
        if op in ('fptosi', 'fptoui'): return f'f2i({v}, {dt[1]}, {op == "fptosi"})'
        return v
    def call(self, t, A):
        self.fm(t)
        skip_callattrs(t)
        rt = ptype(t)
        skip_attrs(t)
        x = t.peek()
        if x == 'asm': return ['']
        if x[0] == '%': t.next(); fn = f'icall({self.reg(x)})'
        elif x[0] == '@':
            t.next()
            n = x
            if n.startswith('@llvm.'):
                return self.intrinsic(n[6:], t, A, rt)
            fn = self.m.fname(n)
        else:
            fn = f'icall({self.const(self.m.cval(t, ("p",)))})'
        args = self.args(t)
        s = f'{A}{fn}({", ".join(a for _, a in args)})'
        return [s]
    def args(self, t):
        t.need('('); out = []
        while not t.eat(')'):
            ty = ptype(t)
            if ty[0] == 'metadata':
                while t.peek() not in (',', ')'): t.next()
                t.eat(','); out.append((ty, '0')); continue
            out.append((ty, self.val(t, ty))); t.eat(',')
        return out
    def intrinsic(self, n, t, A, rt):
        if n.startswith(('experimental.noalias', 'dbg', 'assume')): return [A + '0'] if A else []
        args = self.args(t); a = [x for _, x in args]
        for pre in ('lifetime', 'experimental.noalias', 'dbg', 'prefetch', 'invariant', 'x86.sse2.pause', 'assume', 'donothing'):
            if n.startswith(pre): return [A + '0'] if A else []
        base = n.split('.')[0]
        if base in ('memcpy', 'memmove'): return [f'memmove({a[0]}, {a[1]}, {a[2]})']
        if base == 'memset': return [f'memset({a[0]}, {a[1]}, {a[2]})']
        if base == 'threadlocal': return [f'{A}{a[0]}']
        if n.startswith('is.constant'): return [A + '0']
        if base == 'expect': return [A + a[0]]
        if base == 'trap': return ['unreachable()']
        if n.startswith('vector.reduce.'):
            k = n.split('.')[2]; N = (1 << args[0][0][2][1]) - 1 if args[0][0][2][0] == 'i' else 0
            return [f'{A}vreduce("{k}", {a[0]}, {N})']
        ty = args[0][0]
        vec = ty[0] == 'v'
        if vec:
            e = ty[2]; f = self.intr1(base, n, [(e if q[0] == 'v' else q, f'z[{i}]' if q[0] == 'v' else s) for i, (q, s) in enumerate(args)], rt[2] if rt[0] == 'v' else rt)
            return [f'{A}tuple({f} for z in zip({", ".join(s for q, s in args if q[0] == "v")},))']
        return [A + self.intr1(base, n, args, rt)]
    def intr1(self, base, n, args, rt):
        a = [x for _, x in args]; ty = args[0][0]
        N = ty[1] if ty[0] == 'i' else 64
        M = (1 << N) - 1
        parts = n.split('.')
        if ty[0] == 'd':
            if base in ('fabs', 'sqrt', 'exp', 'log', 'pow', 'powi', 'maxnum', 'minnum', 'maximum', 'minimum', 'maximumnum', 'minimumnum', 'fma', 'fmuladd', 'copysign', 'sin', 'cos', 'exp2', 'log2', 'log10', 'round', 'floor', 'ceil', 'trunc', 'rint', 'nearbyint', 'roundeven', 'tan', 'tanh', 'sinh', 'cosh', 'atan'):
                return f'fn_{base}({", ".join(a)})'
            if n.startswith('fptosi.sat'): return f'f2isat({a[0]}, {rt[1]}, True)'
            if n.startswith('fptoui.sat'): return f'f2isat({a[0]}, {rt[1]}, False)'
            if n.startswith('is.fpclass'): return f'fpclass({a[0]}, {a[1]})'
        if ty[0] == 'i' or ty[0] == 'p':
            k = base
            if k in ('uadd', 'usub', 'umul', 'sadd', 'ssub', 'smul') and 'with' in n: return f'ovf("{k}", {a[0]}, {a[1]}, {N})'
            if k in ('uadd', 'usub', 'sadd', 'ssub') and 'sat' in n: return f'sat("{k}", {a[0]}, {a[1]}, {N})'
            if k == 'umax': return f'max({a[0]}, {a[1]})'
            if k == 'umin': return f'min({a[0]}, {a[1]})'
            if k == 'smax': return f'smax({a[0]}, {a[1]}, {N})'
            if k == 'smin': return f'smin({a[0]}, {a[1]}, {N})'
            if k == 'abs': return f'(abs(sx({a[0]}, {N})) & {M})'
            if k in ('ucmp', 'scmp'):
                R = (1 << rt[1]) - 1
                c = f'({a[0]} > {a[1]}) - ({a[0]} < {a[1]})' if k == 'ucmp' else f'(sx({a[0]}, {N}) > sx({a[1]}, {N})) - (sx({a[0]}, {N}) < sx({a[1]}, {N}))'
                return f'(({c}) & {R})'
            if k == 'ctlz': return f'({N} - int({a[0]}).bit_length())'
            if k == 'cttz': return f'cttz({a[0]}, {N})'
            if k == 'ctpop': return f'bin({a[0]}).count("1")'
            if k == 'bswap': return f'int.from_bytes(int({a[0]}).to_bytes({N // 8}, "little"), "big")'
            if k == 'bitreverse': return f'int(format({a[0]}, "0{N}b")[::-1], 2)'
            if k in ('fshl', 'fshr'): return f'{k}({a[0]}, {a[1]}, {a[2]}, {N})'
        return f'unsupported("intrinsic {n}")'

def skip_callattrs(t):
    """return attributes and calling conventions before the return type"""
    while True:
        x = t.peek()
        if x in ('fastcc', 'coldcc', 'ccc', 'noundef', 'noalias', 'nonnull', 'zeroext', 'signext', 'inreg', 'nofree', 'nofpclass', 'dereferenceable', 'dereferenceable_or_null', 'range', 'align', 'preserve_mostcc', 'preserve_allcc', 'allocptr', 'captures', 'returned', 'unnamed_addr') or (x == 'cc'):
            t.next()
            if x == 'cc' or x == 'align': t.next() if t.peek() != '(' else skip_paren(t)
            elif t.peek() == '(': skip_paren(t)
            continue
        return

def _m(n): return (1 << n) - 1
BIN = {
    'add': lambda n, a, b: f'({a} + {b}) & {_m(n)}', 'sub': lambda n, a, b: f'({a} - {b}) & {_m(n)}', 'mul': lambda n, a, b: f'({a} * {b}) & {_m(n)}',
    'and': lambda n, a, b: f'{a} & {b}', 'or': lambda n, a, b: f'{a} | {b}', 'xor': lambda n, a, b: f'{a} ^ {b}',
    'shl': lambda n, a, b: f'({a} << {b}) & {_m(n)}' , 'lshr': lambda n, a, b: f'{a} >> {b}',
    'ashr': lambda n, a, b: f'(sx({a}, {n}) >> {b}) & {_m(n)}',
    'udiv': lambda n, a, b: f'{a} // {b}', 'urem': lambda n, a, b: f'{a} % {b}',
    'sdiv': lambda n, a, b: f'sdiv({a}, {b}, {n})', 'srem': lambda n, a, b: f'srem({a}, {b}, {n})'}
FBIN = {'fadd': 'fadd', 'fsub': 'fsub', 'fmul': 'fmul', 'fdiv': 'fdiv', 'frem': 'frem'}
