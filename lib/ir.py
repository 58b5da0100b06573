"""Parser for textual LLVM 18 IR (opaque pointers): the verified text is what clang++ emits for /repo's sources."""
import re, struct, subprocess
from fractions import Fraction

class IRError(Exception):
    pass

TOK = re.compile(r'''
   (?P<ws>[ \t]+)
 | (?P<cstr>c"[^"]*")
 | (?P<gq>@"[^"]*") | (?P<lq>%"[^"]*")
 | (?P<g>@[-a-zA-Z$._0-9]+) | (?P<l>%[-a-zA-Z$._0-9]+)
 | (?P<hex>0x[KMHL]?[0-9A-Fa-f]+)
 | (?P<num>-?[0-9]+\.[0-9]+(?:e[+-]?[0-9]+)?|-?[0-9]+)
 | (?P<meta>!(?:[-a-zA-Z$._0-9]+|"[^"]*")?)
 | (?P<attr>\#[0-9]+)
 | (?P<comdat>\$[-a-zA-Z$._0-9"]+)
 | (?P<ell>\.\.\.)
 | (?P<id>[a-zA-Z_][-a-zA-Z$._0-9]*)
 | (?P<str>"[^"]*")
 | (?P<p>[()\[\]{}<>,=*|:])
''', re.X)

def tokenize(s):
    out = []
    i, n = 0, len(s)
    while i < n:
        if s[i] == ';':
            break
        m = TOK.match(s, i)
        if not m:
            raise IRError('tokenize: ' + s[i:i+60])
        k = m.lastgroup
        if k != 'ws':
            out.append((k, m.group()))
        i = m.end()
    return out

# types: ('int',n) ('fp','double') ('ptr',) ('void',) ('struct',(types),packed) ('array',n,t) ('named',name) ('vec',n,t)
PARAM_ATTRS = {'noundef','nonnull','readonly','writeonly','nocapture','noalias','zeroext','signext','inreg','returned','nest',
  'immarg','swiftself','readnone','dead_on_unwind','writable','noreturn','nounwind','inbounds','nuw','nsw','exact','volatile',
  'fast','nnan','ninf','nsz','arcp','contract','afn','reassoc','tail','musttail','notail','disjoint','nneg','samesign','dso_local',
  'local_unnamed_addr','unnamed_addr','fastcc','coldcc','ccc'}
PAREN_ATTRS = {'align','dereferenceable','dereferenceable_or_null','sret','byval','byref','elementtype','inalloca','preallocated','range','allocsize','memory'}

class Cur:
    __slots__ = ('t', 'i', 'm')
    def __init__(self, toks, mod):
        self.t = toks; self.i = 0; self.m = mod
    def peek(self):
        return self.t[self.i][1] if self.i < len(self.t) else None
    def peekk(self):
        return self.t[self.i] if self.i < len(self.t) else (None, None)
    def next(self):
        x = self.t[self.i]; self.i += 1
        return x
    def accept(self, s):
        if self.i < len(self.t) and self.t[self.i][1] == s:
            self.i += 1
            return True
        return False
    def expect(self, s):
        if not self.accept(s):
            raise IRError('expected %s got %s in %s' % (s, self.peekk(), ' '.join(x[1] for x in self.t)))
    def skip_parens(self):
        self.expect('(')
        d = 1
        while d:
            x = self.next()[1]
            if x == '(': d += 1
            elif x == ')': d -= 1
    def skip_attrs(self):
        info = {}
        while True:
            k, v = self.peekk()
            if v in PARAM_ATTRS:
                self.i += 1
            elif v in PAREN_ATTRS:
                self.i += 1
                nm = v
                if self.peek() == '(':
                    if nm in ('sret', 'byval'):
                        self.next(); info[nm] = self.type(); self.expect(')')
                    else:
                        self.skip_parens()
                elif nm == 'align':
                    self.next()
            elif k == 'attr' or (k == 'str'):
                self.i += 1
            else:
                return info
    def type(self):
        k, v = self.next()
        if k == 'id':
            if v[0] == 'i' and v[1:].isdigit():
                t = ('int', int(v[1:]))
            elif v in ('double', 'float', 'half', 'x86_fp80'):
                t = ('fp', v)
            elif v == 'ptr':
                t = ('ptr',)
            elif v in ('void', 'label', 'metadata', 'token', 'opaque'):
                t = (v,)
            else:
                raise IRError('type ' + v)
        elif k in ('l', 'lq'):
            t = ('named', v)
        elif v == '[':
            n = int(self.next()[1]); self.expect('x'); e = self.type(); self.expect(']')
            t = ('array', n, e)
        elif v == '{':
            t = ('struct', tuple(self.types('}')), False)
        elif v == '<':
            if self.accept('{'):
                ts = tuple(self.types('}')); self.expect('>')
                t = ('struct', ts, True)
            else:
                n = int(self.next()[1]); self.expect('x'); e = self.type(); self.expect('>')
                t = ('vec', n, e)
        else:
            raise IRError('type tok ' + v)
        if self.peek() == '(':   # function type
            self.skip_parens()
            t = ('func', t)
        return t
    def types(self, end):
        out = []
        if self.accept(end):
            return out
        while True:
            out.append(self.type())
            if self.accept(end):
                return out
            self.expect(',')
    def value(self, t):
        k, v = self.next()
        if k in ('l', 'lq'):
            return ('loc', v)
        if k in ('g', 'gq'):
            return ('glob', v)
        if k == 'num':
            if t[0] == 'fp':
                return ('const', fp_const(float(v)))
            return ('const', int(v))
        if k == 'hex':
            if v.startswith('0xK') or v.startswith('0xM') or v.startswith('0xL'):
                return ('const', x87(v))
            f = struct.unpack('>d', bytes.fromhex(v[2:].rjust(16, '0')))[0]
            return ('const', fp_const(f))
        if k == 'cstr':
            return ('cstr', cbytes(v[2:-1]))
        if v == 'true': return ('const', True)
        if v == 'false': return ('const', False)
        if v == 'null': return ('null',)
        if v in ('undef', 'poison'): return ('undef',)
        if v == 'zeroinitializer': return ('zero',)
        if v == '[' or v == '{' or v == '<':
            close = {'[': ']', '{': '}', '<': '>'}[v]
            packed = False
            if v == '<' and self.accept('{'):
                close = '}'; packed = True
            items = []
            if not self.accept(close):
                while True:
                    et = self.type(); items.append((et, self.value(et)))
                    if self.accept(close): break
                    self.expect(',')
            if packed: self.expect('>')
            return ('agg', items)
        if v == 'getelementptr':
            while self.peek() in ('inbounds', 'nuw', 'nusw', 'inrange'):
                self.next()
            if self.peek() == '(' and False: pass
            self.expect('(')
            bt = self.type(); self.expect(',')
            ops = []
            while True:
                if self.accept('inrange'):
                    if self.peek() == '(': self.skip_parens()
                et = self.type(); ops.append((et, self.value(et)))
                if self.accept(')'): break
                self.expect(',')
            return ('gep', bt, ops)
        if v in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'addrspacecast'):
            self.expect('(')
            ft = self.type(); x = self.value(ft); self.expect('to'); tt = self.type(); self.expect(')')
            return ('cast', v, ft, x, tt)
        if v in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl'):
            while self.peek() in ('nsw', 'nuw'): self.next()
            self.expect('(')
            ft = self.type(); a = self.value(ft); self.expect(','); ft2 = self.type(); b = self.value(ft2); self.expect(')')
            return ('cbin', v, ft, a, b)
        if v in ('dso_local_equivalent', 'no_cfi'):
            return self.value(t)
        raise IRError('value tok %s %s in %s' % (k, v, ' '.join(x[1] for x in self.t)))
    def tv(self):
        t = self.type()
        self.skip_attrs()
        return t, self.value(t)

def cbytes(s):
    out = bytearray(); i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i+1] == '\\':
                out.append(92); i += 2
            else:
                out.append(int(s[i+1:i+3], 16)); i += 3
        else:
            out.append(ord(s[i])); i += 1
    return bytes(out)

SNAPPED = {}
def fp_const(f):
    """A double literal is read as the simplest rational it abbreviates (1/3, 0.1, ...) when that rational rounds to it."""
    if f != f: return 'nan'
    if f in (float('inf'), float('-inf')): return 'inf' if f > 0 else '-inf'
    ex = Fraction(f)
    if ex.denominator == 1: return ex
    # shortest decimal
    d = Fraction(repr(f))
    cand = ex.limit_denominator(2000)
    if float(cand) == f and cand.denominator <= 2000:
        if cand != ex: SNAPPED[f] = cand
        return cand
    if float(d) == f:
        if d != ex: SNAPPED[f] = d
        return d
    return ex

def x87(v):
    b = int(v[3:], 16)
    s = b >> 79; e = (b >> 64) & 0x7fff; m = b & ((1 << 64) - 1)
    if m == 0: return Fraction(0)
    r = Fraction(m) * (Fraction(2) ** (e - 16383 - 63))
    return -r if s else r

class Func:
    __slots__ = ('name', 'mod', 'header', 'body', 'parsed', 'params', 'ret', 'blocks', 'order', 'entry', 'loops', 'ipdom', 'dem', 'vararg')
    def __init__(self, name, mod, header, body):
        self.name = name; self.mod = mod; self.header = header; self.body = body; self.parsed = False
        self.dem = None

class Module:
    def __init__(self, path):
        self.path = path
        txt = open(path).read()
        self.types = {}
        self.globals = {}
        self.funcs = {}
        self.decls = set()
        self.aliases = {}
        self.layout_cache = {}
        self._split(txt)
        self._demangle()

    def _split(self, txt):
        lines = txt.split('\n')
        i, n = 0, len(lines)
        while i < n:
            l = lines[i]
            if l.startswith('define '):
                j = i + 1
                while lines[j] != '}':
                    j += 1
                m = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', l)
                name = '@' + m.group(1)
                self.funcs[name] = Func(name, self, l, lines[i+1:j])
                i = j + 1
                continue
            if l.startswith('declare '):
                m = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', l)
                self.decls.add('@' + m.group(1))
            elif l.startswith('%') and ' = type ' in l:
                nm, rest = l.split(' = type ', 1)
                self.types[nm] = rest
            elif l.startswith('@'):
                m = re.match(r'(@(?:"[^"]*"|[-a-zA-Z$._0-9]+)) = (.*)$', l)
                nm, rest = m.group(1), m.group(2)
                if ' alias ' in ' ' + rest:
                    mm = re.findall(r'ptr (@(?:"[^"]*"|[-a-zA-Z$._0-9]+))', rest)
                    if mm: self.aliases[nm] = mm[-1]
                else:
                    self.globals[nm] = rest
            i += 1

    def _demangle(self):
        names = list(self.funcs) + list(self.decls) + list(self.aliases)
        inp = '\n'.join(x[1:].strip('"') for x in names) + '\n'
        out = subprocess.run(['c++filt'], input=inp, capture_output=True, text=True).stdout.split('\n')
        self.dem = {n: o for n, o in zip(names, out)}
        for n, f in self.funcs.items():
            f.dem = self.dem[n]

    def resolve(self, t):
        while t[0] == 'named':
            r = self.types.get(t[1])
            if r is None:
                raise IRError('type ' + t[1])
            if isinstance(r, str):
                r = Cur(tokenize(r), self).type()
                self.types[t[1]] = r
            t = r
        return t

    def sizealign(self, t):
        c = self.layout_cache.get(t)
        if c: return c
        r = self.resolve(t)
        k = r[0]
        if k == 'int':
            b = (r[1] + 7) // 8
            s = 1
            while s < b: s *= 2
            res = (s, min(s, 16))
        elif k == 'fp':
            res = {'double': (8, 8), 'float': (4, 4), 'half': (2, 2), 'x86_fp80': (16, 16)}[r[1]]
        elif k == 'ptr':
            res = (8, 8)
        elif k == 'array' or k == 'vec':
            s, a = self.sizealign(r[2])
            res = (s * r[1], a)
        elif k == 'struct':
            off = 0; al = 1
            for e in r[1]:
                s, a = self.sizealign(e)
                if r[2]: a = 1
                off = (off + a - 1) // a * a
                off += s
                al = max(al, a)
            off = (off + al - 1) // al * al
            res = (off, al)
        elif k == 'opaque':
            res = (8, 8)
        else:
            raise IRError('sizeof %s' % (t,))
        self.layout_cache[t] = res
        return res

    def sizeof(self, t):
        return self.sizealign(t)[0]

    def field_off(self, t, i):
        r = self.resolve(t)
        off = 0
        for j, e in enumerate(r[1]):
            s, a = self.sizealign(e)
            if r[2]: a = 1
            off = (off + a - 1) // a * a
            if j == i:
                return off, e
            off += s
        raise IRError('field')

    # ---------------------------------------------------------------- functions
    def parse_func(self, f):
        if f.parsed: return f
        h = f.header
        c = Cur(tokenize(h[len('define '):]), self)
        while True:
            k, v = c.peekk()
            if v in PARAM_ATTRS or v in ('linkonce_odr', 'internal', 'weak_odr', 'available_externally', 'private', 'weak', 'linkonce', 'external', 'hidden', 'protected', 'default'):
                c.next()
            elif v in PAREN_ATTRS:
                c.skip_attrs()
            else:
                break
        f.ret = c.type()
        c.skip_attrs()
        c.next()
        c.expect('(')
        f.params = []; f.vararg = False
        unnamed = 0
        if not c.accept(')'):
            while True:
                if c.accept('...'):
                    f.vararg = True
                    c.expect(')')
                    break
                t = c.type(); info = c.skip_attrs()
                k, v = c.peekk()
                if k in ('l', 'lq'):
                    c.next(); nm = v
                else:
                    nm = '%' + str(unnamed)
                if nm[1:].isdigit(): unnamed = int(nm[1:]) + 1
                f.params.append((nm, t, info))
                if c.accept(')'): break
                c.expect(',')
        # blocks
        f.blocks = {}; f.order = []
        cur = None; label = None
        i = 0
        body = f.body
        # first label implicit: number = count of unnamed params (or named)
        first = True
        while i < len(body):
            l = body[i]
            if not l.strip():
                i += 1; continue
            m = re.match(r'^("[^"]*"|[-a-zA-Z$._0-9]+):', l)
            if m:
                label = '%' + m.group(1); cur = []
                f.blocks[label] = cur; f.order.append(label)
                i += 1; first = False
                continue
            if first:
                label = '%' + str(unnamed); cur = []
                f.blocks[label] = cur; f.order.append(label); first = False
            s = l.strip()
            # joins
            if s.startswith('switch ') or ' switch ' in s:
                while ']' not in body[i]:
                    i += 1; s += ' ' + body[i].strip()
            else:
                while i + 1 < len(body) and (body[i+1].strip().startswith('to label') or
                        (re.match(r'^\s+(cleanup|catch |filter )', body[i+1]) is not None)):
                    i += 1; s += ' ' + body[i].strip()
            cur.append(self.parse_inst(s))
            i += 1
        f.entry = f.order[0]
        f.parsed = True
        f.body = None
        self._cfg(f)
        return f

    def parse_inst(self, s):
        c = Cur(tokenize(s), self)
        dest = None
        k, v = c.peekk()
        if k in ('l', 'lq') and c.t[1][1] == '=':
            dest = v; c.next(); c.next()
        while c.peek() in ('tail', 'musttail', 'notail'):
            c.next()
        op = c.next()[1]
        if op in ('call', 'invoke'):
            c.skip_attrs()
            rt = c.type()
            if rt[0] == 'func': rt = rt[1]
            c.skip_attrs()
            kk, vv = c.next()
            callee = ('glob', vv) if kk in ('g', 'gq') else ('loc', vv)
            if vv in ('asm',):
                return ('asm', dest, s)
            c.expect('(')
            args = []
            if not c.accept(')'):
                while True:
                    t = c.type()
                    if t[0] == 'metadata':
                        d = 0
                        while not (d == 0 and c.peek() in (',', ')')):
                            x = c.next()[1]
                            if x in '([{': d += 1
                            if x in ')]}': d -= 1
                        args.append((t, ('undef',)))
                    else:
                        info = c.skip_attrs()
                        args.append((t, c.value(t)))
                    if c.accept(')'): break
                    c.expect(',')
            normal = unwind = None
            if op == 'invoke':
                while c.peek() != 'to': c.next()
                c.next(); c.next(); normal = c.next()[1]
                c.expect('unwind'); c.next(); unwind = c.next()[1]
            return ('call', dest, rt, callee, args, normal, unwind)
        if op == 'alloca':
            t = c.type(); n = None
            if c.accept(','):
                if c.peek() != 'align':
                    nt, nv = c.tv(); n = nv
            return ('alloca', dest, t, n)
        if op == 'load':
            while c.peek() in ('volatile', 'atomic'): c.next()
            t = c.type(); c.expect(','); pt, p = c.tv()
            return ('load', dest, t, p)
        if op == 'store':
            while c.peek() in ('volatile', 'atomic'): c.next()
            t, v = c.tv(); c.expect(','); pt, p = c.tv()
            return ('store', None, t, v, p)
        if op == 'getelementptr':
            c.skip_attrs()
            bt = c.type(); c.expect(',')
            ops = []
            while True:
                t, v = c.tv(); ops.append((t, v))
                if not c.accept(','): break
                if c.peekk()[0] == 'meta': break
            return ('gep', dest, bt, ops)
        if op == 'br':
            if c.accept('label'):
                return ('br', None, c.next()[1])
            t, v = c.tv(); c.expect(','); c.expect('label'); a = c.next()[1]; c.expect(','); c.expect('label'); b = c.next()[1]
            return ('condbr', None, v, a, b)
        if op == 'switch':
            t, v = c.tv(); c.expect(','); c.expect('label'); d = c.next()[1]; c.expect('[')
            cases = []
            while not c.accept(']'):
                ct, cv = c.tv(); c.expect(','); c.expect('label'); cases.append((cv[1], c.next()[1]))
            return ('switch', None, t, v, d, cases)
        if op == 'ret':
            t = c.type()
            if t[0] == 'void': return ('ret', None, None, None)
            c.skip_attrs()
            return ('ret', None, t, c.value(t))
        if op == 'phi':
            c.skip_attrs()
            t = c.type(); inc = []
            while True:
                c.expect('['); v = c.value(t); c.expect(','); b = c.next()[1]; c.expect(']')
                inc.append((v, b))
                if not c.accept(','): break
                if c.peekk()[0] == 'meta': break
            return ('phi', dest, t, inc)
        if op == 'select':
            c.skip_attrs()
            t, v = c.tv(); c.expect(','); t1, a = c.tv(); c.expect(','); t2, b = c.tv()
            return ('select', dest, t1, v, a, b)
        if op in ('icmp', 'fcmp'):
            c.skip_attrs()
            pr = c.next()[1]
            t, a = c.tv(); c.expect(','); b = c.value(t)
            return (op, dest, pr, t, a, b)
        if op in ('add','sub','mul','sdiv','udiv','srem','urem','shl','lshr','ashr','and','or','xor','fadd','fsub','fmul','fdiv','frem'):
            c.skip_attrs()
            t, a = c.tv(); c.expect(','); b = c.value(t)
            return ('bin', dest, op, t, a, b)
        if op == 'fneg':
            c.skip_attrs()
            t, a = c.tv()
            return ('fneg', dest, t, a)
        if op in ('trunc','zext','sext','fptosi','fptoui','sitofp','uitofp','fpext','fptrunc','ptrtoint','inttoptr','bitcast','addrspacecast'):
            c.skip_attrs()
            t, a = c.tv(); c.expect('to'); tt = c.type()
            return ('cast', dest, op, t, a, tt)
        if op == 'extractvalue':
            t, a = c.tv(); idx = []
            while c.accept(','):
                if c.peekk()[0] == 'meta': break
                idx.append(int(c.next()[1]))
            return ('extractvalue', dest, t, a, idx)
        if op == 'insertvalue':
            t, a = c.tv(); c.expect(','); t2, b = c.tv(); idx = []
            while c.accept(','):
                if c.peekk()[0] == 'meta': break
                idx.append(int(c.next()[1]))
            return ('insertvalue', dest, t, a, t2, b, idx)
        if op == 'landingpad':
            return ('landingpad', dest, s)
        if op == 'resume':
            return ('resume', None)
        if op == 'unreachable':
            return ('unreachable', None)
        if op == 'freeze':
            t, a = c.tv()
            return ('freeze', dest, t, a)
        if op == 'fence':
            return ('nop', None)
        if op == 'atomicrmw':
            while c.peek() == 'volatile': c.next()
            rmw = c.next()[1]
            pt, p = c.tv(); c.expect(','); t, v = c.tv()
            return ('atomicrmw', dest, rmw, t, p, v)
        return ('unsupported', dest, s)

    def succs(self, inst):
        op = inst[0]
        if op == 'br': return [inst[2]]
        if op == 'condbr': return [inst[3], inst[4]]
        if op == 'switch': return [inst[4]] + [b for _, b in inst[5]]
        if op == 'call' and inst[5]: return [inst[5]]      # unwind edges are not followed: a throw ends the path
        return []

    def _cfg(self, f):
        succ = {b: self.succs(f.blocks[b][-1]) for b in f.order}
        # reachable
        reach = set(); st = [f.entry]
        while st:
            b = st.pop()
            if b in reach: continue
            reach.add(b); st += succ[b]
        pred = {b: [] for b in reach}
        for b in reach:
            for s in succ[b]: pred[s].append(b)
        # rpo
        seen = set(); po = []
        def dfs(b):
            stack = [(b, iter(succ[b]))]; seen.add(b)
            while stack:
                x, it = stack[-1]
                for s in it:
                    if s not in seen:
                        seen.add(s); stack.append((s, iter(succ[s]))); break
                else:
                    po.append(x); stack.pop()
        dfs(f.entry)
        rpo = po[::-1]
        def idoms(nodes, preds, root):
            num = {b: i for i, b in enumerate(nodes)}
            idom = {root: root}
            ch = True
            while ch:
                ch = False
                for b in nodes:
                    if b == root: continue
                    new = None
                    for p in preds.get(b, ()):
                        if p in idom:
                            if new is None: new = p
                            else:
                                x, y = p, new
                                while x != y:
                                    while num[x] > num[y]: x = idom[x]
                                    while num[y] > num[x]: y = idom[y]
                                new = x
                    if new is not None and idom.get(b) != new:
                        idom[b] = new; ch = True
            return idom
        dom = idoms(rpo, pred, f.entry)
        def dominates(a, b):
            while True:
                if a == b: return True
                if b == f.entry: return False
                b = dom[b]
        loops = {}
        for b in rpo:
            for s in succ[b]:
                if dominates(s, b):
                    body = loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x in body: continue
                        body.add(x); st += pred[x]
        f.loops = loops
        # post dominators with virtual exit; only 'ret' blocks and no-succ blocks connect to the exit.
        EX = '<exit>'
        # blocks that only throw/abort (unreachable) are not counted as exits, so joins after error checks are found
        rsucc = {}
        rets = [b for b in reach if f.blocks[b][-1][0] == 'ret']
        canret = set(rets); st = list(rets)
        while st:
            b = st.pop()
            for p in pred[b]:
                if p not in canret: canret.add(p); st.append(p)
        rp = {b: [s for s in succ[b] if s in canret] for b in canret}
        for b in rets: rp[b] = rp[b] + [EX]
        # rpo of reverse graph
        rs = {b: [] for b in canret}; rs[EX] = list(rets)
        for b in canret:
            for s in rp[b]:
                if s != EX: rs[s].append(b)
        seen = set(); po = []
        st = [(EX, iter(rs[EX]))]; seen.add(EX)
        while st:
            x, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s); st.append((s, iter(rs[s]))); break
            else:
                po.append(x); st.pop()
        pd = idoms(po[::-1], {b: rp[b] for b in canret}, EX)
        f.ipdom = {b: (pd.get(b) if pd.get(b) != EX else None) for b in reach}
        return f
