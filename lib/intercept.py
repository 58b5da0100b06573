"""Assumed contracts of the dependencies (Kokkos, Teuchos, libstdc++): every handler used is reported as trusted."""
import re
import z3
from fractions import Fraction
from terms import *
from views import *
from sym import *

OPS = [('operator()', '\x01'), ('operator<<', '\x02'), ('operator<=', '\x03'), ('operator<', '\x04'), ('operator>>', '\x05'),
       ('operator->', '\x06'), ('operator>=', '\x07'), ('operator>', '\x08')]

def split_name(dem):
    """(qualified name with template args, parameter string, suffix)"""
    s = dem.replace('(anonymous namespace)', '\x10')
    for a, b in OPS: s = s.replace(a, b)
    # lambda "{lambda(...)#1}" : treat braces as brackets
    depth = 0; br = 0; ang = 0
    lastspace = -1; par = -1
    spaces = []
    i = 0
    n = len(s)
    tops = []
    while i < n:
        ch = s[i]
        if ch in '{': br += 1
        elif ch in '}': br -= 1
        elif br == 0:
            if ch == '<': ang += 1
            elif ch == '>' and not (i and s[i-1] == '-'): ang -= 1
            elif ang == 0:
                if ch == '(':
                    if depth == 0: tops.append(i)
                    depth += 1
                elif ch == ')': depth -= 1
                elif ch == ' ' and depth == 0: spaces.append(i)
        i += 1
    if not tops: return undo(s), '', ''
    # parameter list: last top-level '(' group that is followed only by qualifiers; inner functions (local lambdas) have "(..)::"
    par = tops[-1]
    # find its end
    d = 0; j = par; br = 0
    while j < n:
        if s[j] == '{': br += 1
        elif s[j] == '}': br -= 1
        if br == 0:
            if s[j] == '(': d += 1
            elif s[j] == ')':
                d -= 1
                if d == 0: break
        j += 1
    params = s[par+1:j]
    sp = [x for x in spaces if x < par]
    # the name starts after the last top-level space not preceded by "const" qualifiers of an enclosing function "f() const::{lambda"
    start = 0
    for x in reversed(sp):
        if s[:x].endswith('operator') or (s[x-1] in '\x01\x02\x03\x04\x05\x06\x07\x08') or s[x+1:].startswith('const::'): continue
        start = x + 1; break
    return undo(s[start:par]), undo(params), undo(s[j+1:])

def undo(s):
    for a, b in OPS: s = s.replace(b, a)
    return s.replace('\x10', '(anonymous namespace)')

def strip_targs(q):
    out = []; dep = 0
    s = q
    for a, b in OPS: s = s.replace(a, b)
    for i, ch in enumerate(s):
        if ch == '<': dep += 1
        elif ch == '>': dep -= 1
        elif dep == 0: out.append(ch)
    r = undo(''.join(out))
    r = r.replace('[abi:cxx11]', '').replace('std::__cxx11::', 'std::').replace(' ', '')
    return r

def split_args(p):
    out = []; d = 0; cur = ''
    for ch in p:
        if ch in '<({[': d += 1
        elif ch in '>)}]': d -= 1
        if ch == ',' and d == 0:
            out.append(cur.strip()); cur = ''
        else: cur += ch
    if cur.strip(): out.append(cur.strip())
    return out

def targs_of(q, cls):
    """template arguments of the last occurrence of cls<...> in q"""
    i = q.rfind(cls + '<')
    if i < 0: return []
    j = i + len(cls) + 1; d = 1; k = j
    while d and k < len(q):
        if q[k] == '<': d += 1
        elif q[k] == '>': d -= 1
        k += 1
    return split_args(q[j:k-1])

HANDLERS = {}
PATTERNS = []
def on(*names, trust=None):
    def d(fn):
        for n in names: HANDLERS[n] = (fn, trust)
        return fn
    return d
def onre(rx, trust=None):
    def d(fn):
        PATTERNS.append((re.compile(rx), fn, trust)); return fn
    return d

class Intercepts:
    def __init__(self, extra=None):
        self.extra = extra or {}
    def find(self, eng, name, dem):
        if name.startswith('@llvm.'):
            return llvm_intrinsic(name)
        q, params, suf = split_name(dem)
        base = strip_targs(q)
        if base in self.extra: 
            fn = self.extra[base]
            if fn is None: return None
            return (lambda e, st, n, d, a, rt: fn(e, st, n, d, a, rt)), 'contract of ' + base
        h = HANDLERS.get(base)
        if h is None:
            h = HANDLERS.get(name[1:])
        if h is None:
            for rx, fn, tr in PATTERNS:
                if rx.match(base): h = (fn, tr); break
        if h is None: return None
        fn, tr = h
        ctx = Ctx(q, base, params)
        return (lambda e, st, n, d, a, rt: fn(e, st, ctx, a, rt)), tr
class Ctx:
    __slots__ = ('q', 'base', 'params')
    def __init__(self, q, base, params): self.q = q; self.base = base; self.params = params

def nop(e, st, c, a, rt): return None

def llvm_intrinsic(name):
    n = name[6:]
    def W_(f): return (lambda e, st, nm, d, a, rt: f(e, st, a)), None
    if n.startswith('lifetime.'): return W_(lambda e, st, a: e.scope(st, a[1], n.startswith('lifetime.end')))
    if n.startswith(('dbg', 'assume', 'experimental.noalias', 'stackrestore', 'prefetch', 'invariant', 'donothing')): return W_(lambda e, st, a: None)
    if n.startswith('stacksave'): return W_(lambda e, st, a: NULL)
    if n.startswith(('memcpy', 'memmove')): return W_(lambda e, st, a: e.memcpy(st, a[0], a[1], a[2]))
    if n.startswith('memset'): return W_(do_memset)
    if n.startswith('fabs'): return W_(lambda e, st, a: f_abs(a[0]))
    if n.startswith('sqrt'): return W_(lambda e, st, a: f_sqrt(a[0]))
    if n.startswith('pow'): return W_(lambda e, st, a: f_pow(a[0], a[1]))
    if n.startswith('fmuladd') or n.startswith('fma.'): return W_(lambda e, st, a: radd(rmul(a[0], a[1]), a[2]))
    if n.startswith('maxnum'): return W_(lambda e, st, a: rmax(a[0], a[1]))
    if n.startswith('minnum'): return W_(lambda e, st, a: rmin(a[0], a[1]))
    for m in ('exp', 'log', 'sin', 'cos'):
        if n.startswith(m + '.'): return W_(lambda e, st, a, m=m: f_uf(m)(a[0]))
    if n.startswith('is.fpclass'): return W_(lambda e, st, a: isfp(a[0], a[1]))
    if n.startswith('is.constant'): return W_(lambda e, st, a: False)
    if n.startswith('expect'): return W_(lambda e, st, a: a[0])
    if n.startswith('trap'): return (lambda e, st, nm, d, a, rt: [Outcome(st, 'abort', 'trap')]), None
    if n.startswith(('umul.with.overflow', 'smul.with.overflow')): return W_(lambda e, st, a: [imul(a[0], a[1]), False])
    if n.startswith(('uadd.with.overflow', 'sadd.with.overflow')): return W_(lambda e, st, a: [iadd(a[0], a[1]), False])
    if n.startswith('eh.typeid'): return W_(lambda e, st, a: 1)
    def lim(e, st, a): raise EngineLimit('intrinsic ' + n)
    return W_(lim)

def isfp(x, mask):
    if not isinstance(mask, int): raise EngineLimit('fpclass')
    # finite classes: 0x1f8 ; nan 0x3 ; inf 0x204
    fin = (mask & 0x1f8) == 0x1f8; nan = mask & 3; inf = mask & 0x204
    if fin and not nan and not inf: return isfinite(x)
    if not fin and (nan or inf):
        if nan and inf: return b_not(isfinite(x))
        if nan: return b_and(b_not(isfinite(x)), ISNAN(zr(x))) if isz(x) else False
        return b_and(b_not(isfinite(x)), z3.Not(ISNAN(zr(x)))) if isz(x) else False
    raise EngineLimit('fpclass mask')
ISNAN = z3.Function('isnan', z3.RealSort(), z3.BoolSort())
def isfinite(x):
    if isinstance(x, Fraction): return True
    if x is None: raise EngineLimit('isfinite')
    return ISFIN(zr(simp(x)))

def rmax(a, b):
    if isinstance(a, Fraction) and isinstance(b, Fraction): return max(a, b)
    return z3.If(zr(a) < zr(b), zr(b), zr(a))
def rmin(a, b):
    if isinstance(a, Fraction) and isinstance(b, Fraction): return min(a, b)
    return z3.If(zr(b) < zr(a), zr(b), zr(a))

def do_memset(e, st, a):
    p, v, n = a[0], a[1], a[2]
    if not isinstance(p, Ptr) or not isinstance(n, int): raise EngineLimit('memset')
    b = st.wblock(p.blk)
    for o in [o for o in b.cells if p.off <= o < p.off + n]: del b.cells[o]
    if v == 0: b.zero.append((p.off, p.off + n))
    else:
        for i in range(n): b.cells[p.off + i] = (v, 1)

# ------------------------------------------------------------------ libc / libm
for nm in ('exp', 'log', 'sin', 'cos', 'tan', 'tanh', 'acos', 'asin', 'atan', 'sinh', 'cosh', 'cbrt', 'log10', 'floor', 'ceil'):
    def mk(nm):
        def f(e, st, c, a, rt): return f_uf(nm)(a[0])
        return f
    HANDLERS[nm] = (mk(nm), 'libm ' + nm)
    HANDLERS['std::' + nm] = (None, None) if False else (mk(nm), 'libm ' + nm)
on('sqrt', 'std::sqrt', trust='libm sqrt')(lambda e, st, c, a, rt: f_sqrt(a[0] if isreal(a[0]) else zr(a[0])))
on('pow', trust='libm pow')(lambda e, st, c, a, rt: f_pow(a[0], a[1]))
on('std::pow', trust='libm pow')(lambda e, st, c, a, rt: f_pow(a[0] if isreal(a[0]) else tofrac(a[0]), a[1]))
on('fabs', 'std::fabs')(lambda e, st, c, a, rt: f_abs(a[0] if isreal(a[0]) else tofrac(a[0])))
@on('std::abs', 'abs')
def _(e, st, c, a, rt):
    if isreal(a[0]): return f_abs(a[0])
    if isinstance(a[0], int): return abs(a[0])
    return z3.If(a[0] >= 0, a[0], -a[0])
on('atan2', 'std::atan2', trust='libm atan2')(lambda e, st, c, a, rt: uf('atan2', a[0], a[1]))
on('fmax', 'std::fmax')(lambda e, st, c, a, rt: rmax(a[0], a[1]))
on('fmin', 'std::fmin')(lambda e, st, c, a, rt: rmin(a[0], a[1]))
on('std::isfinite', 'isfinite')(lambda e, st, c, a, rt: isfinite(a[0]))
@on('std::isnan', 'isnan')
def _(e, st, c, a, rt):
    if isinstance(a[0], Fraction): return False
    return b_and(b_not(isfinite(a[0])), ISNAN(zr(a[0])))
def tofrac(x):
    return Fraction(x) if isinstance(x, int) else z3.ToReal(x)

@on('__cxa_allocate_exception', '_Znwm', '_Znam', 'operatornew', 'operatornew[]', 'malloc')
def _(e, st, c, a, rt):
    n = a[0]
    return e.alloc(st, n if isinstance(n, int) else None, 'heap')
on('_ZdlPv', '_ZdlPvm', '_ZdaPv', '_ZdaPvm', 'operatordelete', 'operatordelete[]', '__cxa_free_exception', 'free', '__cxa_guard_release', '__cxa_guard_abort',
   '__cxa_atexit', '__cxa_end_catch', '__cxa_guard_acquire_dummy')(nop)
@on('__cxa_guard_acquire')
def _(e, st, c, a, rt):
    g = a[0]
    if st.ghost.get(('guard', g.blk)): return 0
    st.ghost[('guard', g.blk)] = True
    return 1
@on('__cxa_throw', '__cxa_rethrow')
def _(e, st, c, a, rt): return [Outcome(st, 'throw', e.where())]
@onre(r'^std::__throw_')
def _(e, st, c, a, rt): return [Outcome(st, 'throw', c.base)]
@on('__assert_fail', 'abort', 'std::terminate', '__clang_call_terminate', 'Kokkos::abort', 'Kokkos::Impl::throw_runtime_exception', 'exit')
def _(e, st, c, a, rt): return [Outcome(st, 'abort', c.base)]
@on('strlen')
def _(e, st, c, a, rt): return len(cstring(e, st, a[0]))
@on('memcmp', 'strncmp')
def _(e, st, c, a, rt):
    x, y, n = a
    for i in range(n):
        u = e.load(st, ('int', 8), Ptr(x.blk, x.off + i)); v = e.load(st, ('int', 8), Ptr(y.blk, y.off + i))
        if isz(u) or isz(v): raise EngineLimit('memcmp on symbolic bytes')
        if u != v: return -1 if (u & 255) < (v & 255) else 1
    return 0
@on('memcpy', 'memmove')
def _(e, st, c, a, rt):
    e.memcpy(st, a[0], a[1], a[2]); return a[0]
@on('strcmp')
def _(e, st, c, a, rt):
    x, y = cstring(e, st, a[0]), cstring(e, st, a[1])
    return 0 if x == y else (-1 if x < y else 1)
@on('printf', 'puts', 'putchar', 'fprintf', 'fflush', 'std::__ioinit')
def _(e, st, c, a, rt): return 0

@on('sscanf', '__isoc99_sscanf', '__isoc23_sscanf', trust='libc sscanf of a decimal number')
def _(e, st, c, a, rt):
    if cstring(e, st, a[1]) != '%lf': raise EngineLimit('sscanf format')
    import re as _re
    m = _re.match(r'\s*[-+]?(\d+\.?\d*([eE][-+]?\d+)?|\.\d+([eE][-+]?\d+)?)', cstring(e, st, a[0]))
    if not m: return 0
    e.store(st, ('fp', 'double'), Fraction(repr(float(m.group(0)))), a[2]); return 1
on('srand')(nop)
@on('rand', trust='libc rand: some value in [0, RAND_MAX]')
def _(e, st, c, a, rt):
    x = e.havoc(st, 'int', 'rand'); g = z3.And(x >= 0, x <= 2147483647)
    if st.ks: e.S.axioms.append(z3.ForAll(list(st.ks), g, patterns=[x]))
    else: st.pc.append(g)
    return x

def cstring(e, st, p):
    if isinstance(p, Str): return p.s
    out = []
    off = p.off
    b = st.mem[p.blk]
    if b.bytes is not None: return b.bytes[off:]
    while True:
        ch = e.load(st, ('int', 8), Ptr(p.blk, off))
        if isz(ch): raise EngineLimit('symbolic string')
        if ch == 0: break
        out.append(chr(ch & 255)); off += 1
    return ''.join(out)

def putobj(e, st, p, v, size=8):
    b = st.wblock(p.blk)
    b.cells[p.off] = (v, size)
def getobj(e, st, p):
    if isinstance(p, Poison): raise EngineLimit('object behind poison pointer')
    c = st.mem[p.blk].cells.get(p.off)
    if c is None: raise EngineLimit('no object at %r' % (p,))
    if isinstance(c[0], Poison): raise EngineLimit('poison object')
    return c[0]

# ------------------------------------------------------------------ std::string
UNKNOWN = '\x00text of a stream that is not followed'
def getstr(e, st, p):
    o = getobj(e, st, p)
    if isinstance(o, SBuf):
        out = [e.load(st, ('int', 8), Ptr(o.p.blk, i)) for i in range(o.n)]
        if any(isz(x) or not isinstance(x, int) for x in out): raise EngineLimit('symbolic string')
        return ''.join(chr(x & 255) for x in out)
    if not isinstance(o, Str): raise EngineLimit('not a string: %r' % (o,))
    return o.s
class SBuf:
    """a string whose characters may be written through an iterator or reference"""
    def __init__(self, p, n): self.p = p; self.n = n
    def __eq__(self, o): return isinstance(o, SBuf) and o.p == self.p and o.n == self.n
    def __hash__(self): return hash((self.p, self.n))
def chars(e, st, p):
    o = getobj(e, st, p)
    if isinstance(o, SBuf): return o
    s = getstr(e, st, p); o = SBuf(newcstr(e, st, s), len(s)); putobj(e, st, p, o, 32)
    return o
def newcstr(e, st, s):
    p = e.alloc(st, len(s) + 1, 'cstr')
    b = st.wblock(p.blk)
    for i, ch in enumerate(s): b.cells[i] = (ord(ch), 1)
    b.cells[len(s)] = (0, 1)
    return p
SS = 'std::basic_string::'
@on(SS + 'basic_string', trust='std::string')
def _(e, st, c, a, rt):
    ps = split_args(c.params)
    this = a[0]
    if not ps or (len(ps) == 1 and 'allocator' in ps[0] and 'basic_string' not in ps[0]): s = ''
    elif ps[0].startswith('char const*'):
        s = cstring(e, st, a[1])
        if len(ps) > 1 and ps[1] == 'unsigned long': s = s[:a[2]]
    elif 'basic_string' in ps[0]:
        s = getstr(e, st, a[1])
        if len(ps) > 1 and ps[1] == 'unsigned long':
            s = s[a[2]:] if len(ps) < 3 or ps[2] != 'unsigned long' else s[a[2]:a[2]+a[3]]
    elif ps[0] == 'unsigned long': s = chr(a[2]) * a[1]
    else: raise EngineLimit('string ctor ' + c.params)
    putobj(e, st, this, Str(s), 32)
@on(SS + 'operator=', SS + 'assign', trust='std::string')
def _(e, st, c, a, rt):
    s = cstring(e, st, a[1]) if c.params.startswith('char const*') else getstr(e, st, a[1])
    putobj(e, st, a[0], Str(s), 32); return a[0]
@on(SS + 'operator+=', SS + 'append', SS + 'push_back', trust='std::string')
def _(e, st, c, a, rt):
    if c.params.startswith('char const*'): s = cstring(e, st, a[1])
    elif c.params == 'char': s = chr(a[1])
    elif 'basic_string' in c.params: s = getstr(e, st, a[1])
    else: raise EngineLimit('string append ' + c.params)
    putobj(e, st, a[0], Str(getstr(e, st, a[0]) + s), 32); return a[0]
@on('std::operator+', trust='std::string')
def _(e, st, c, a, rt):
    ps = split_args(c.params)
    def g(t, x):
        if 'basic_string' in t: return getstr(e, st, x)
        if t.startswith('char const*'): return cstring(e, st, x)
        if t == 'char': return chr(x)
        raise EngineLimit('operator+ ' + c.params)
    putobj(e, st, a[0], Str(g(ps[0], a[1]) + g(ps[1], a[2])), 32)
@on('std::operator==', 'std::operator!=', 'std::operator<', trust='std::string')
def _(e, st, c, a, rt):
    ps = split_args(c.params)
    if ps[0].startswith('std::_Rb_tree_'):
        r = e.icmp(st, 'eq', ('ptr',), e.load(st, ('ptr',), a[0]), e.load(st, ('ptr',), a[1]))
        return r if c.base.endswith('==') else b_not(r)
    if ps[0].startswith('std::shared_ptr') or ps[-1].startswith('std::shared_ptr'):
        g = lambda t, x: e.load(st, ('ptr',), x) if t.startswith('std::shared_ptr') else x
        r = e.icmp(st, 'eq', ('ptr',), g(ps[0], a[0]), g(ps[1], a[1]) if len(a) > 1 else NULL)
        return r if c.base.endswith('==') else b_not(r)
    if 'basic_string' not in c.params:
        raise EngineLimit('std comparison ' + c.params[:80])
    def g(t, x): return getstr(e, st, x) if 'basic_string' in t else cstring(e, st, x)
    x, y = g(ps[0], a[0]), g(ps[1], a[1])
    return x == y if c.base.endswith('==') else (x != y if c.base.endswith('!=') else x < y)
def known(s):
    if UNKNOWN in s: raise EngineLimit('length of a text that is not followed')
    return s
on(SS + 'empty')(lambda e, st, c, a, rt: known(getstr(e, st, a[0])) == '')
on(SS + 'size', SS + 'length')(lambda e, st, c, a, rt: len(known(getstr(e, st, a[0]))))
on(SS + 'c_str', SS + 'data')(lambda e, st, c, a, rt: newcstr(e, st, getstr(e, st, a[0])))
on(SS + 'begin', SS + 'cbegin', trust='std::string')(lambda e, st, c, a, rt: chars(e, st, a[0]).p)
@on(SS + 'end', SS + 'cend', trust='std::string')
def _(e, st, c, a, rt):
    o = chars(e, st, a[0]); return Ptr(o.p.blk, o.n)
@on(SS + 'operator[]', SS + 'at', SS + 'front', SS + 'back', trust='std::string')
def _(e, st, c, a, rt):
    o = chars(e, st, a[0]); i = a[1] if len(a) > 1 else (0 if c.base.endswith('front') else o.n - 1)
    if isz(i): raise EngineLimit('symbolic string index')
    return Ptr(o.p.blk, i)
@on('toupper', 'tolower', 'isspace', 'isdigit', 'isalpha', trust='libc character class')
def _(e, st, c, a, rt):
    if isz(a[0]): raise EngineLimit('symbolic character')
    ch = chr(a[0] & 255); k = c.base
    if k in ('toupper', 'tolower'): return ord(getattr(ch, k[2:])()) if ord(ch) < 128 else a[0]
    return int(getattr(ch, k)()) if ord(ch) < 128 else 0
@on(SS + 'clear')
def _(e, st, c, a, rt): putobj(e, st, a[0], Str(''), 32)
@on(SS + 'compare')
def _(e, st, c, a, rt):
    x = getstr(e, st, a[0]); y = cstring(e, st, a[1]) if c.params.startswith('char') else getstr(e, st, a[1])
    return (x > y) - (x < y)
@on(SS + 'find')
def _(e, st, c, a, rt):
    x = getstr(e, st, a[0])
    y = cstring(e, st, a[1]) if c.params.startswith('char const*') else (chr(a[1]) if c.params.startswith('char') else getstr(e, st, a[1]))
    r = x.find(y, a[2] if len(a) > 2 else 0)
    return r if r >= 0 else -1
on(SS + '~basic_string')(nop)
@on('std::to_string', trust='std::string')
def _(e, st, c, a, rt):
    putobj(e, st, a[0], Str(str(a[1]) if not isz(a[1]) else '<n>'), 32)
onre(r'^std::(allocator|__new_allocator|allocator_traits)::~?(allocator|__new_allocator)$')(nop)

# ------------------------------------------------------------------ iostreams: output has no effect on results
# (the text a string stream of its own storage collects is followed, because code asks whether a message is empty)
onre(r'^std::basic_(istringstream|ofstream|ifstream|ios|streambuf|stringbuf|filebuf|iostream|ostream)::~?basic_')(nop)
on('std::__basic_file::is_open', trust='std::ofstream: a stream that was never opened is closed (opening one is outside the engine)')(lambda e, st, c, a, rt: False)
@onre(r'^std::basic_(stringstream|ostringstream)::~?basic_')
def _(e, st, c, a, rt):
    if isinstance(a[0], Ptr) and '~' not in c.base:
        k = ('ss', a[0].blk)
        if a[0].off == 0 and not (c.params and 'basic_string' in c.params): st.ghost[k] = ''
        else: st.ghost[k] = None
@on('std::__ostream_insert', 'std::basic_ostream::_M_insert', 'std::ostream::_M_insert', 'std::operator<<', 'std::basic_ostream::operator<<', 'std::basic_ostream::put', 'std::basic_ostream::flush', 'std::endl', 'std::flush')
def _(e, st, c, a, rt):
    if isinstance(a[0], Ptr) and isinstance(st.ghost.get(('ss', a[0].blk)), str) and c.base not in ('std::basic_ostream::flush', 'std::flush'):
        t = '\n'; ps = split_args(c.params)
        if c.base == 'std::operator<<' and len(ps) > 1 and len(a) > 1:
            if 'basic_string<' in ps[1]: t = getstr(e, st, a[1])
            elif 'char const*' in ps[1]: t = cstring(e, st, a[1])
            elif ps[1] == 'char' and not isz(a[1]): t = chr(a[1] & 255)
            else: raise EngineLimit('stream insertion ' + c.params[:80])
        elif c.base == 'std::basic_ostream::operator<<' and '(*)' not in c.params: t = str(a[1]) if not isz(a[1]) else '<n>'
        elif c.base != 'std::endl' and '(*)' not in c.params: raise EngineLimit('stream insertion ' + c.base)
        st.ghost[('ss', a[0].blk)] += t
    return a[0]
on('std::ios_base::Init::Init', 'std::ios_base::Init::~Init')(nop)
onre(r'^std::(setprecision|setw|scientific|fixed|setfill)$')(lambda e, st, c, a, rt: 0 if rt[0] == 'int' else None)
@onre(r'^std::basic_(stringstream|ostringstream|stringbuf)::str$', trust='std::stringstream')
def _(e, st, c, a, rt):
    if c.params: st.ghost[('ss', a[0].blk)] = None if a[0].off else getstr(e, st, a[1]); return
    t = st.ghost.get(('ss', a[1].blk)) if isinstance(a[1], Ptr) and a[1].off == 0 else None
    putobj(e, st, a[0], Str(t if isinstance(t, str) else UNKNOWN), 32)
for cls in ('runtime_error', 'logic_error', 'invalid_argument', 'domain_error', 'out_of_range', 'exception', 'length_error'):
    on('std::%s::%s' % (cls, cls), 'std::%s::~%s' % (cls, cls))(nop)

on('Teuchos::TestForException_incrThrowNumber', 'Teuchos::TestForException_break')(nop)
onre(r'^Teuchos::TestForException_get')(lambda e, st, c, a, rt: False if rt == ('int', 1) else 0)
# ------------------------------------------------------------------ Kokkos runtime
onre(r'^Kokkos::(Tools|Profiling)::')(lambda e, st, c, a, rt: False if rt == ('int', 1) else (0 if rt[0] == 'int' else None))
onre(r'^Kokkos::Impl::shared_allocation_tracking_')(nop)
onre(r'^Kokkos::Impl::ParallelConstructName::')(lambda e, st, c, a, rt: a[0])
on('Kokkos::Impl::serial_resize_thread_team_data', 'Kokkos::fence', 'Kokkos::Serial::Serial', 'Kokkos::Serial::~Serial', 'Kokkos::Serial::fence', 'Kokkos::Impl::serial_fence',
   'Kokkos::Serial::impl_static_fence', 'Kokkos::memory_fence', 'Kokkos::Serial::impl_initialize',
   'Kokkos::RangePolicy::set_auto_chunk_size')(nop)
on('Kokkos::Impl::serial_get_thread_team_data')(lambda e, st, c, a, rt: NULL)
def rp_width(c):
    ta = targs_of(c.q, 'Kokkos::RangePolicy') or []
    return 32 if any(t.strip() in ('int', 'unsigned int', 'Kokkos::IndexType<int>') for t in ta) else 64
@on('Kokkos::RangePolicy::RangePolicy', trust='Kokkos::RangePolicy')
def _(e, st, c, a, rt):
    ps = split_args(c.params)
    w = rp_width(c); B = w // 8
    ints = [x for x, t in zip(a[1:], ps) if t in ('unsigned long', 'long', 'int', 'unsigned int')]
    if len(ints) != 2:
        if len(ints) == 0 and len(ps) == 1:        # copy
            e.memcpy(st, a[0], a[1], 40 if w == 64 else 20); return
        raise EngineLimit('RangePolicy ' + c.params)
    b, en = ints
    le = e.icmp(st, 'sle', ('int', w), b, en)
    if le is not True and (not isz(le) or not e.entails(st, le)):
        if le is False: b, en = 0, 0
        else: b, en = ite(le, b, 0), ite(le, en, 0)
    e.store(st, ('int', w), b, Ptr(a[0].blk, iadd(a[0].off, 8)))
    e.store(st, ('int', w), en, Ptr(a[0].blk, iadd(a[0].off, 8 + B)))
on('Kokkos::RangePolicy::begin')(lambda e, st, c, a, rt: e.load(st, rt, Ptr(a[0].blk, a[0].off + 8)))
on('Kokkos::RangePolicy::end')(lambda e, st, c, a, rt: e.load(st, rt, Ptr(a[0].blk, a[0].off + 8 + rt[1] // 8)))
onre(r'^Kokkos::RangePolicy::~?RangePolicy$')(nop)
@on('Kokkos::atomic_add', 'Kokkos::atomic_fetch_add', 'Kokkos::atomic_increment', trust='Kokkos::atomic_add')
def _(e, st, c, a, rt):
    p = a[0]
    inc = 1 if c.base.endswith('increment') else None
    if inc is None:
        v = a[1]
        if isinstance(v, (Ptr, Elem)): v = e.load(st, ('fp', 'double') if 'double' in c.params else ('int', 32), v)
        inc = v
    if isinstance(p, Elem):
        so = e.storages[p.sid]
        st.layers[p.sid] = Acc(st.layers[p.sid], p.idx, inc)
        return None
    t = ('fp', 'double') if isreal(inc) else ('int', 32)
    old = e.load(st, t, p)
    e.store(st, t, radd(old, inc) if isreal(inc) else iadd(old, inc), p)
    return old

# ------------------------------------------------------------------ Kokkos::View
def vinfo(q, cls='Kokkos::View'):
    """element sort, rank, static extents from View<T***[3], ...>"""
    ta = targs_of(q, cls)
    if not ta: raise EngineLimit('view type ' + q[:80])
    d = ta[0].strip()
    m = re.match(r'^(.*?)\s*((?:\*|\s|const)*)((?:\[\d+\])*)$', d)
    et = m.group(1).replace('const', '').strip()
    et = re.sub(r'\(\*\)', '', et)
    rank = m.group(2).count('*')
    st = [int(x) for x in re.findall(r'\[(\d+)\]', m.group(3))]
    mm = re.match(r'^(.*?)\s*\((\*+)\)((?:\s*\[\d+\])*)$', d)
    if mm:
        et = mm.group(1).replace('const', '').strip(); rank = len(mm.group(2)); st = [int(x) for x in re.findall(r'\[(\d+)\]', mm.group(3))]
    fm = re.match(r'^Sacado::Fad::Exp::GeneralFad<Sacado::Fad::Exp::StaticFixedStorage<double, (\d+)> ?>$', et)
    if et in ('double', 'float'): sort = 'real'
    elif fm: sort = 'fad:' + fm.group(1)
    elif et in ('int', 'unsigned long', 'long', 'unsigned int', 'bool', 'char', 'unsigned char', 'short'): sort = 'int'
    else: sort = 'obj:' + et
    return sort, rank, st

def setview(e, st, p, v): 
    b = st.wblock(p.blk)
    b.cells[p.off] = (v, 8)
def getview(e, st, p):
    v = getobj(e, st, p)
    if not isinstance(v, ViewRef): raise EngineLimit('not a view: %r' % (v,))
    return v
def nullview(sort, n): return ViewRef(None, [], [0] * n, '', sort)

@on('Kokkos::View::View', trust='Kokkos::View')
def _(e, st, c, a, rt):
    sort, rank, stat = vinfo(c.q)
    this = a[0]
    ps = split_args(c.params)
    if not ps:
        setview(e, st, this, nullview(sort, rank + len(stat))); return
    if ps[0].startswith('Kokkos::View<') and ('const&' in ps[0] or '&&' in ps[0]):
        setview(e, st, this, getview(e, st, a[1])); return
    if sort.startswith('obj:'): raise EngineLimit('view of ' + sort)
    content = 0
    if 'WithoutInitializing' in c.params or 'ViewCtorProp<std::basic_string' in c.params and 'std::integral_constant<unsigned int, 0u>' in c.params: content = 'undef'
    if ps[0].startswith('double*') or ps[0].startswith('int*') or ' *' in ps[0] or re.match(r'^[\w ]+\*', ps[0]):
        # unmanaged view over raw memory
        return wrap_raw(e, st, this, a, ps, sort, rank, stat)
    ints = [x for x, t in zip(a[1:], ps) if t.replace(' const', '').replace('const ', '') in ('unsigned long', 'long', 'int', 'unsigned int') or (t.startswith('std::enable_if') and isint(x))]
    if any('LayoutLeft' in t or 'LayoutRight' in t for t in ps) and not ints:
        lp = [x for x, t in zip(a[1:], ps) if 'Layout' in t and 'ViewCtorProp' not in t.split('<')[0]]
        ints = [e.load(st, ('int', 64), Ptr(lp[0].blk, lp[0].off + 8 * i)) for i in range(rank)]
    ext = []
    for x in ints[:rank]:
        if isinstance(x, int) and x == -1: raise EngineLimit('view ctor arity %s %s' % (c.params, a))
        ext.append(x)
    if len(ext) < rank: raise EngineLimit('view ctor ' + c.params[:120])
    nm = 'view'
    setview(e, st, this, e.new_view(st, nm, ext + stat, sort, content))
def wrap_raw(e, st, this, a, ps, sort, rank, stat):
    p = a[1]
    ints = [x for x, t in zip(a[2:], ps[1:]) if t.replace(' const', '') in ('unsigned long', 'long', 'int', 'unsigned int')]
    ext = ints[:rank] + stat
    if rank == 0 and not stat:
        v = ViewRef(None, [], [], 'raw scalar', sort); v.raw = p
        setview(e, st, this, v); return
    if isinstance(p, Elem) and rank == 1:
        setview(e, st, this, ViewRef(p.sid, [('d', 0)], ext, 'raw', sort, [p.idx[0]] if len(p.idx) == 1 else None)); return
    raise EngineLimit('unmanaged view over raw memory')
onre(r'^Kokkos::(View|Impl::ViewTracker|Impl::SharedAllocationTracker)::~')(nop)
@on('Kokkos::View::operator=', trust='Kokkos::View')
def _(e, st, c, a, rt):
    setview(e, st, a[0], getview(e, st, a[1])); return a[0]

def view_at(e, st, v, idx, byref=True):
    if v.raw is not None: return v.raw
    if v.sid is None:
        e.oblige(st, 'bounds', False, 'access to an unallocated view'); st.pc.append(False)
        raise EngineLimit('access to an unallocated view')
    idx = list(idx)[:len(v.extents)] if v.extents else []
    for i, (x, n) in enumerate(zip(idx, v.extents)):
        g = b_and(e.icmp(st, 'sge', ('int', 64), x, 0), e.icmp(st, 'slt', ('int', 64), x, n))
        if isz(g): g = simp(g)
        if g is not True:
            e.oblige(st, 'bounds', g, 'index %d of view %s: %s < %s' % (i, v.name, trunc(x), trunc(n)))
            if g is False: st.pc.append(False)
    if str(v.etype).startswith('fad:'): return idx
    return Elem(v.sid, v.index(idx), v)
def trunc(x):
    s = str(x)
    return s if len(s) < 60 else s[:57] + '...'

@on('Kokkos::View::operator()', 'Kokkos::View::operator[]', 'Kokkos::View::access', trust='Kokkos::View')
def _(e, st, c, a, rt):
    ps = split_args(c.params)
    ret = None
    if len(a) > len(ps) + 1: ret = a[0]; a = a[1:]      # element returned through memory
    v = getview(e, st, a[0])
    idx = []
    for x, t in zip(a[1:], ps):
        if '&' in t: x = e.load(st, ('int', 64 if 'long' in t else 32), x)
        elif isinstance(x, (Ptr, Elem)): x = e.load(st, ('int', 32), x)
        idx.append(x)
    p = view_at(e, st, v, idx)
    if ret is None: return p
    if not str(v.etype).startswith('fad:'): raise EngineLimit('view element returned by value')
    n = int(v.etype[4:])                                 # Sacado::Fad::Exp::ViewStorage { size; stride; value pointer; derivatives pointer }
    e.store(st, ('ptr',), Elem(v.sid, v.index(list(p) + [n]), v), Ptr(ret.blk, iadd(ret.off, 8)))
    e.store(st, ('ptr',), Elem(v.sid, v.index(list(p) + [0]), v), Ptr(ret.blk, iadd(ret.off, 16)))
@on('Kokkos::View::extent', 'Kokkos::View::extent_int', trust='Kokkos::View')
def _(e, st, c, a, rt):
    v = getview(e, st, a[0]); i = a[1]
    if isinstance(i, (Ptr, Elem)): i = e.load(st, ('int', 32), i)
    if not isinstance(i, int): raise EngineLimit('symbolic extent index')
    return v.extents[i] if i < len(v.extents) else 1
@on('Kokkos::View::size', 'Kokkos::View::span', trust='Kokkos::View')
def _(e, st, c, a, rt):
    v = getview(e, st, a[0]); r = 1
    for x in v.extents: r = imul(r, x)
    return r
@on('Kokkos::View::label', trust='Kokkos::View')
def _(e, st, c, a, rt): putobj(e, st, a[0], Str(getview(e, st, a[1]).name), 32)
@on('Kokkos::View::data', trust='Kokkos::View')
def _(e, st, c, a, rt):
    v = getview(e, st, a[0])
    if v.raw is not None: return v.raw
    if v.sid is None: return NULL
    if len(v.extents) == 1: return Elem(v.sid, v.index((0,)), v)
    return Elem(v.sid, v.index(tuple(0 for _ in v.extents)), v)
onre(r'^Kokkos::View::is_allocated$')(lambda e, st, c, a, rt: getview(e, st, a[0]).sid is not None)
on('Kokkos::View::use_count')(lambda e, st, c, a, rt: 1)
on('Kokkos::View::impl_map', 'Kokkos::View::impl_track')(lambda e, st, c, a, rt: a[0])

@on('Kokkos::create_mirror', 'Kokkos::create_mirror_view', 'Kokkos::create_mirror_view_and_copy', trust='Kokkos::create_mirror / deep_copy')
def _(e, st, c, a, rt):
    # sret result, source view is the last view argument
    src = None
    for x in a[1:]:
        if isinstance(x, Ptr):
            o = st.mem[x.blk].cells.get(x.off)
            if o is not None and isinstance(o[0], ViewRef): src = o[0]; break
    if src is None: raise EngineLimit('create_mirror')
    if c.base.endswith('create_mirror'):
        v = e.new_view(st, 'mirror of ' + src.name, src.extents, src.etype, 'undef')
    else: v = src       # host space: same allocation
    setview(e, st, a[0], v)
@on('Kokkos::resize', 'Kokkos::realloc', trust='Kokkos::resize')
def _(e, st, c, a, rt):
    ps = split_args(c.params); v = getview(e, st, a[0])
    if v.sid is not None and c.base.endswith('resize'):
        if eq(v.extents[0], 0) is not True: raise EngineLimit('resize of an allocated view')
    n = [x for x, t in zip(a[1:], ps[1:]) if isint(x)][:len(v.extents)]
    if len(n) < len(v.extents): raise EngineLimit('resize ' + c.params[:80])
    setview(e, st, a[0], e.new_view(st, 'resized', n, v.etype, 0))
@on('Kokkos::deep_copy', trust='Kokkos::create_mirror / deep_copy')
def _(e, st, c, a, rt):
    ps = split_args(c.params)
    args = list(zip(ps, a))
    if not ps[0].startswith('Kokkos::View'): args = args[1:]
    dv = getview(e, st, args[0][1])
    t, s = args[1]
    if isinstance(s, Ptr) and s.off in st.mem[s.blk].cells and isinstance(st.mem[s.blk].cells[s.off][0], ViewRef):
        sv = getview(e, st, s)
        if dv.sid == sv.sid: return None
        for x, y in zip(dv.extents, sv.extents):
            g = eq(x, y)
            if g is not True: e.oblige(st, 'bounds', g, 'deep_copy extents agree')
        if dv.sid is None or sv.sid is None: return None
        if str(dv.etype).startswith('fad:') or str(sv.etype).startswith('fad:'):
            if dv.etype != sv.etype: raise EngineLimit('deep_copy between element types')
            n = int(dv.etype[4:]) + 1
            dv = ViewRef(dv.sid, dv.dims, list(dv.extents) + [n], dv.name, 'real', dv.offs); sv = ViewRef(sv.sid, sv.dims, list(sv.extents) + [n], sv.name, 'real', sv.offs)
        copy_layer(e, st, dv, sv)
        return None
    # scalar
    if isinstance(s, (Ptr, Elem)): s = e.load(st, ('fp', 'double') if dv.etype == 'real' or str(dv.etype).startswith('fad:') else ('int', 32), s)
    if dv.sid is None: return None
    if str(dv.etype).startswith('fad:'):
        if 'double' not in t: raise EngineLimit('deep_copy of a derivative-carrying scalar')
        full = ViewRef(dv.sid, dv.dims, list(dv.extents) + [int(dv.etype[4:]) + 1], dv.name, 'real', dv.offs)
        if s != 0: raise EngineLimit('deep_copy of a nonzero scalar to a derivative-carrying view')
        fill_layer(e, st, full, s); return None
    fill_layer(e, st, dv, s)

def whole(dv): return all(k == 'd' for k, _ in dv.dims) and not dv.offs

class CopyL(Layer):
    """content read through a mapping of another storage's layer (whole copy)"""
    __slots__ = ('src', 'f')
    def __init__(self, src, f): self.prev = None; self.src = src; self.f = f
    def read(self, idx, S): return self.src.read(self.f(idx), S)

def copy_layer(e, st, dv, sv):
    srcl = st.layers[sv.sid]
    if whole(dv) and [d for d in dv.dims] == [('d', i) for i in range(len(dv.dims))] and e_same_ext(e.storages[dv.sid].extents, dv.extents) and not st.tracing:
        st.layers[dv.sid] = CopyL(srcl, lambda idx, sv=sv: sv.index(idx))
        return
    family(e, st, dv, lambda idx: read(srcl, sv.index(idx), e.S))
def fill_layer(e, st, dv, s):
    if whole(dv) and e_same_ext(e.storages[dv.sid].extents, dv.extents) and not st.tracing:
        st.layers[dv.sid] = Base(const=s); return
    family(e, st, dv, lambda idx: s)
def e_same_ext(a, b):
    return len(a) == len(b) and all((x is y) or (not isz(x) and not isz(y) and x == y) or (isz(x) and isz(y) and x.eq(y)) for x, y in zip(a, b))
def family(e, st, dv, val):
    """write val(idx) for every index of the (sub)view dv"""
    if all(isinstance(x, int) for x in dv.extents):
        import itertools
        for idx in itertools.product(*[range(x) for x in dv.extents]):
            st.layers[dv.sid] = W(st.layers[dv.sid], dv.index(idx), val(idx))
        return
    ks = [e.fresh('int', 'k') for _ in dv.extents]
    rec = Rec('set', [(k, T) for k, T in zip(ks, dv.extents)], True, dv.index(ks), val(tuple(ks)))
    st.layers[dv.sid] = Fam(st.layers[dv.sid], ks[0], dv.extents[0], [rec])

@on('Kokkos::subview', trust='Kokkos::subview')
def _(e, st, c, a, rt):
    ps = split_args(c.params)
    v = getview(e, st, a[1])
    dims = list(v.dims); ext = []; nd = []
    offs = []
    newd = {}
    ax = list(a[2:])
    if len(ax) < len(ps) - 1:      # empty ALL_t arguments do not appear in the IR
        it = iter(ax); ax = [None if 'ALL' in t or 'AllT' in t else next(it) for t in ps[1:]]
    for i, (t, x) in enumerate(zip(ps[1:], ax)):
        if 'ALL' in t or 'AllT' in t:
            newd[i] = ('d', len(ext)); ext.append(v.extents[i]); offs.append(v.offs[i] if v.offs else 0)
        elif 'pair' in t or 'Pair' in t:
            lo = e.load(st, ('int', 32), x); sz = 8 if 'long' in t else 4
            hi = e.load(st, ('int', 32), Ptr(x.blk, iadd(x.off, sz)))
            newd[i] = ('d', len(ext)); ext.append(isub(hi, lo)); offs.append(iadd(lo, v.offs[i] if v.offs else 0))
            g = b_and(e.icmp(st, 'sge', ('int', 64), lo, 0), e.icmp(st, 'sle', ('int', 64), lo, hi), e.icmp(st, 'sle', ('int', 64), hi, v.extents[i]))
            if g is not True: e.oblige(st, 'bounds', g, 'subview range')
        else:
            if isinstance(x, (Ptr, Elem)): x = e.load(st, ('int', 32), x)
            g = b_and(e.icmp(st, 'sge', ('int', 64), x, 0), e.icmp(st, 'slt', ('int', 64), x, v.extents[i]))
            if isz(g): g = simp(g)
            if g is not True: e.oblige(st, 'bounds', g, 'subview index %d: %s < %s' % (i, trunc(x), trunc(v.extents[i])))
            newd[i] = ('f', iadd(x, v.offs[i]) if v.offs and v.offs[i] != 0 else x)
    if str(v.etype).startswith('fad:'): newd[len(v.extents)] = ('d', len(ext)); offs.append(0)
    out = []
    for k, d in dims:
        out.append((k, d) if k == 'f' else newd[d])
    setview(e, st, a[0], ViewRef(v.sid, out, ext, 'subview of ' + v.name, v.etype, offs if any(o != 0 for o in offs) else None))

@on('Teuchos::RCPNodeHandle::unbindOneStrong', 'Teuchos::RCPNodeHandle::unbindOneTotal', 'Teuchos::RCPNodeHandle::unbind', trust='Teuchos::RCP reference counting (lifetime not modelled)')
def _(e, st, c, a, rt): return None

# ------------------------------------------------------------------ KokkosBatched serial kernels (textbook definitions, no pivoting)
def vget(e, st, v, *idx): return e.load_elem(st, Elem(v.sid, v.index(idx), v), ('fp', 64))
def vset(e, st, v, val, *idx): e.store_elem(st, Elem(v.sid, v.index(idx), v), val)
def matdims(v):
    if len(v.extents) != 2 or not all(isinstance(x, int) for x in v.extents): raise EngineLimit('batched kernel on symbolic extents')
    return v.extents
@on('KokkosBatched::SerialLU::invoke', trust='KokkosBatched::SerialLU')
def _(e, st, c, a, rt):
    v = getview(e, st, a[0]); n, m = matdims(v)
    A = [[vget(e, st, v, i, j) for j in range(m)] for i in range(n)]
    for p in range(min(n, m)):
        for i in range(p + 1, n):
            A[i][p] = rdiv(A[i][p], A[p][p])
            for j in range(p + 1, m): A[i][j] = rsub(A[i][j], rmul(A[i][p], A[p][j]))
    for i in range(n):
        for j in range(m): vset(e, st, v, A[i][j], i, j)
    return 0
@on('KokkosBatched::SerialTrsm::invoke', trust='KokkosBatched::SerialTrsm')
def _(e, st, c, a, rt):
    al = a[0] if not isinstance(a[0], (Ptr, Elem)) else e.load(st, ('fp', 64), a[0])
    A = getview(e, st, a[1]); B = getview(e, st, a[2])
    n, _ = matdims(A); nb, m = matdims(B)
    ta = targs_of(c.q, 'SerialTrsm')
    if 'Left' not in ta[0] or 'NoTranspose' not in ta[2]: raise EngineLimit('Trsm variant')
    lower = 'Lower' in ta[1]; unit = 'NonUnit' not in ta[3]
    for j in range(m):
        x = [rmul(al, vget(e, st, B, i, j)) for i in range(n)]
        for i in (range(n) if lower else range(n - 1, -1, -1)):
            for k in (range(i) if lower else range(i + 1, n)): x[i] = rsub(x[i], rmul(vget(e, st, A, i, k), x[k]))
            if not unit: x[i] = rdiv(x[i], vget(e, st, A, i, i))
        for i in range(n): vset(e, st, B, x[i], i, j)
    return 0

# ------------------------------------------------------------------ Teuchos::ParameterList
class PL:
    """ghost parameter list: name -> (type, value term or pointer, presence condition)"""
    def __init__(self, entries=None, name='list'): self.e = dict(entries or {}); self.name = name
    def merge(self, c, o, eng):
        if self.name != o.name: return None
        out = PL({}, self.name)
        for n in list(self.e) + [k for k in o.e if k not in self.e]:
            x, y = self.e.get(n), o.e.get(n)
            if x is not None and y is not None:
                if x is y: out.e[n] = x; continue
                m = {}
                vx, vy = alts(x), alts(y)
                for t in list(vx) + [t for t in vy if t not in vx]:
                    if t in vx and t in vy:
                        v = vx[t][1] if vx[t][1] is vy[t][1] else eng.merge_vals(c, vx[t][1], vy[t][1])
                        if isinstance(v, Poison): return None
                        m[t] = (t, v, ite(c, vx[t][2], vy[t][2]))
                    elif t in vx: m[t] = (t, vx[t][1], b_and(c, vx[t][2]))
                    else: m[t] = (t, vy[t][1], b_and(b_not(c), vy[t][2]))
                out.e[n] = next(iter(m.values())) if len(m) == 1 else ('alt', m, b_or(*[v[2] for v in m.values()]))
            elif x is not None: out.e[n] = (x[0], x[1], b_and(c, x[2]))
            else: out.e[n] = (y[0], y[1], b_and(b_not(c), y[2]))
        return out
def alts(x): return x[1] if x[0] == 'alt' else {x[0]: x}
def variants(e, st, x, g):
    """[(state, entry or None)] over the possible types of an entry and its absence"""
    out = []
    for v in (alts(x).values() if x is not None else []):
        if st is None: break
        s1, st = fork(e, st, simp(v[2]) if isz(v[2]) else v[2])
        if s1 is not None: out.append((s1, v))
    if st is not None: out.append((st, None))
    return out
TMAP = {'double': 'double', 'int': 'int', 'bool': 'bool', 'float': 'double', 'Teuchos::ParameterList': 'list'}
def ttype(t):
    t = t.strip()
    if t.endswith('const&'): t = t[:-6].strip()
    if t.startswith('char') or ('basic_string' in t and 'Array' not in t and 'vector' not in t): return 'string'
    return TMAP.get(t, t)
def ptype(c):
    m = re.search(r'::(get|isType|set|getPtr)<(.*)>$', c.q)
    if m: return ttype(m.group(2))
    ps = split_args(c.params)
    if c.base.endswith('::set') and len(ps) > 1: return ttype(ps[1])
    return ''
def getpl(e, st, p):
    o = getobj(e, st, p)
    if not isinstance(o, PL): raise EngineLimit('not a ParameterList: %r' % (o,))
    return o
def pname(e, st, c, a, i):
    t = split_args(c.params)[i - 1]
    return getstr(e, st, a[i]) if 'basic_string' in t else cstring(e, st, a[i])
TP = 'Teuchos::ParameterList::'
def present(st, pl, name):
    """(entry, presence condition)"""
    x = pl.e.get(name)
    if x is None: return None, False
    return x, (simp(x[2]) if isz(x[2]) else x[2])
@on(TP + 'isType', 'Teuchos::isParameterType', trust='Teuchos::ParameterList')
def _(e, st, c, a, rt):
    pl = getpl(e, st, a[0]); n = pname(e, st, c, a, 1); t = ptype(c)
    x, g = present(st, pl, n)
    if x is None or t not in alts(x): return False
    return alts(x)[t][2]
@on(TP + 'isParameter', trust='Teuchos::ParameterList')
def _(e, st, c, a, rt):
    pl = getpl(e, st, a[0]); n = pname(e, st, c, a, 1)
    return present(st, pl, n)[1]
@on(TP + 'isSublist', trust='Teuchos::ParameterList')
def _(e, st, c, a, rt):
    pl = getpl(e, st, a[0]); n = pname(e, st, c, a, 1)
    x, g = present(st, pl, n)
    return alts(x)['list'][2] if x is not None and 'list' in alts(x) else False
def box(e, st, x):
    """a memory cell holding the parameter's value (references are returned)"""
    if x[0] == 'string':
        p = e.alloc(st, 32, 'param'); putobj(e, st, p, Str(x[1]), 32)
    elif x[0] == 'double':
        p = e.alloc(st, 8, 'param'); e.store(st, ('fp', 'double'), x[1], p)
    elif x[0] == 'bool':
        p = e.alloc(st, 1, 'param'); e.store(st, ('int', 8), x[1], p)
    elif x[0] == 'int':
        p = e.alloc(st, 4, 'param'); e.store(st, ('int', 32), x[1], p)
    elif isinstance(x[1], Ptr): return x[1]
    else: raise EngineLimit('parameter of type ' + x[0])
    return p
def unbox(e, st, t, p, pt=''):
    if t == 'string':
        if isinstance(p, Str): return p.s
        return cstring(e, st, p) if pt.startswith('char') else getstr(e, st, p)
    if not isinstance(p, (Ptr, Elem)): return p
    if t == 'double': return e.load(st, ('fp', 'double'), p)
    if t == 'int': return e.load(st, ('int', 32), p)
    if t == 'bool': return e.load(st, ('int', 8), p)
    if t == 'list': return copylist(e, st, p)
    if t.startswith('Teuchos::Array<'):
        q = e.alloc(st, 24, 'param'); clone_array(e, st, q, p); return q
    raise EngineLimit('parameter of type ' + t)
def clone_array(e, st, q, p):
    """copy of a Teuchos::Array<double> (a std::vector inside) of known length"""
    pt = ('ptr',); b = e.load(st, pt, p); en = e.load(st, pt, Ptr(p.blk, p.off + 8))
    if not isinstance(b, Ptr) or not isinstance(en, Ptr) or b.blk != en.blk or isz(b.off) or isz(en.off): raise EngineLimit('Array of unknown length')
    n = en.off - b.off; nb = e.alloc(st, n, 'array') if n else b
    for o in range(0, n, 8): e.store(st, ('fp', 'double'), e.load(st, ('fp', 'double'), Ptr(b.blk, b.off + o)), Ptr(nb.blk, nb.off + o))
    e.store(st, pt, nb, q)
    for o in (8, 16): e.store(st, pt, Ptr(nb.blk, nb.off + n), Ptr(q.blk, q.off + o))
def copylist(e, st, p, q=None):
    if q is None: q = e.alloc(st, 8, 'list')
    pl = getpl(e, st, p); out = PL({}, pl.name)
    cp = lambda x: (x[0], copylist(e, st, x[1]) if x[0] == 'list' else x[1], x[2]) if x[0] != 'alt' else ('alt', {t: cp(v) for t, v in x[1].items()}, x[2])
    for n, x in pl.e.items(): out.e[n] = cp(x)
    putobj(e, st, q, out, 8); return q
def fork(e, st, g):
    """states where g holds / does not hold (None when impossible)"""
    if g is True: return st, None
    if g is False: return None, st
    s1 = st.clone(); s1.pc.append(g); s2 = st.clone(); s2.pc.append(b_not(g))
    return (s1 if e.check(s1) != 'unsat' else None), (s2 if e.check(s2) != 'unsat' else None)
@on(TP + 'get', TP + 'getPtr', trust='Teuchos::ParameterList')
def _(e, st, c, a, rt):
    pl = getpl(e, st, a[0]); n = pname(e, st, c, a, 1); t = ptype(c)
    ps = split_args(c.params)
    x, g = present(st, pl, n)
    hasdef = len(ps) > 1
    if t == '' and hasdef: t = ttype(ps[1])
    outs = []
    s2 = None
    for s1, v in variants(e, st, x, g):
        if v is None: s2 = s1
        elif v[0] != t: outs.append(Outcome(s1, 'throw', 'ParameterList::get wrong type for ' + n))
        else: outs.append(Outcome(s1, 'ret', box(e, s1, v)))
    if s2 is not None:
        if not hasdef: outs.append(Outcome(s2, 'throw', 'ParameterList::get missing ' + n))
        else:
            v = unbox(e, s2, t, a[2], ps[1])
            q = PL(pl.e, pl.name); q.e[n] = (t, v, True); putobj(e, s2, a[0], q, 8)
            outs.append(Outcome(s2, 'ret', box(e, s2, (t, v))))
    # merge the value when both are possible
    if len(outs) == 2 and x[0] != 'alt' and all(o.kind == 'ret' for o in outs) and t in ('double', 'int'):
        ty = ('fp', 'double') if t == 'double' else ('int', 32)
        v = ite(g, e.load(outs[0].st, ty, outs[0].val), e.load(outs[1].st, ty, outs[1].val))
        q = PL(pl.e, pl.name); q.e[n] = (t, v, True); putobj(e, st, a[0], q, 8)
        return [Outcome(st, 'ret', box(e, st, (t, v)))]
    return outs
@on(TP + 'sublist', trust='Teuchos::ParameterList')
def _(e, st, c, a, rt):
    pl = getpl(e, st, a[0]); n = pname(e, st, c, a, 1)
    const = len(split_args(c.params)) == 1
    x, g = present(st, pl, n)
    outs = []; s2 = None
    for s1, v in variants(e, st, x, g):
        if v is None: s2 = s1
        else: outs.append(Outcome(s1, 'ret', v[1]) if v[0] == 'list' else Outcome(s1, 'throw', 'ParameterList::sublist not a list'))
    if s2 is not None:
        if const or (len(a) > 2 and a[2] is True): outs.append(Outcome(s2, 'throw', 'ParameterList::sublist missing ' + n))
        else:
            p = e.alloc(s2, 8, 'sublist'); putobj(e, s2, p, PL({}, n), 8)
            q = PL(pl.e, pl.name); q.e[n] = ('list', p, True); putobj(e, s2, a[0], q, 8)
            outs.append(Outcome(s2, 'ret', p))
    return outs
class PLIt:
    """ghost iterator of a parameter list: the list and a position in insertion order"""
    def __init__(self, p, i): self.p = p; self.i = i
    def merge(self, c, o, eng): return self if isinstance(o, PLIt) and (self.p, self.i) == (o.p, o.i) else None
class PEntry:
    def __init__(self, x): self.x = x
    def merge(self, c, o, eng): return self if isinstance(o, PEntry) and self.x is o.x else None
def plkeys(e, st, p):
    l = getpl(e, st, p).e
    if any(x[2] is not True for x in l.values()): raise EngineLimit('iteration over a list with conditional entries')
    return list(l)
def plit(e, st, p):
    o = getobj(e, st, p)
    if not isinstance(o, PLIt): raise EngineLimit('not a ParameterList iterator')
    return o
FI = 'Teuchos::FilteredIterator::'
@on(TP + 'begin', TP + 'end', trust='Teuchos::ParameterList')
def _(e, st, c, a, rt): putobj(e, st, a[0], PLIt(a[1], 0 if c.base.endswith('begin') else len(plkeys(e, st, a[1]))), 104)
@on(TP + 'numParams', trust='Teuchos::ParameterList')
def _(e, st, c, a, rt): return len(plkeys(e, st, a[0]))
@on('Teuchos::operator!=', 'Teuchos::operator==', trust='Teuchos::ParameterList')
def _(e, st, c, a, rt):
    if 'RCP<' in c.params and 'ENull' in c.params:    # first member: the raw pointer
        r = e.load(st, ('ptr',), a[0]) == NULL; return r if c.base.endswith('==') else not r
    x, y = plit(e, st, a[0]), plit(e, st, a[1]); r = x.p == y.p and x.i == y.i; return r if c.base.endswith('==') else not r
@on(FI + 'operator++', trust='Teuchos::ParameterList')
def _(e, st, c, a, rt):
    post = 'int' in c.params; t = a[1] if post else a[0]; x = plit(e, st, t)
    if post: putobj(e, st, a[0], x, 104)
    putobj(e, st, t, PLIt(x.p, x.i + 1), 104)
    return None if post else t
@on(FI + 'FilteredIterator', FI + 'operator=', trust='Teuchos::ParameterList')
def _(e, st, c, a, rt):
    if len(a) > 1: putobj(e, st, a[0], plit(e, st, a[1]), 104)
    return a[0]
on(FI + '~FilteredIterator')(nop)
@on(TP + 'entry', trust='Teuchos::ParameterList')
def _(e, st, c, a, rt):
    x = plit(e, st, a[1]); k = plkeys(e, st, x.p)
    if x.i >= len(k): raise EngineLimit('parameter iterator past the end')
    p = e.alloc(st, 72, 'entry'); putobj(e, st, p, PEntry(getpl(e, st, x.p).e[k[x.i]]), 72); return p
@on('Teuchos::ParameterEntry::isList', trust='Teuchos::ParameterList')
def _(e, st, c, a, rt): return getobj(e, st, a[0]).x[0] == 'list'
@on(TP + 'name', trust='Teuchos::ParameterList')
def _(e, st, c, a, rt):
    if 'FilteredIterator' in c.params:
        x = plit(e, st, a[1]); p = e.alloc(st, 32, 'plname'); putobj(e, st, p, Str(plkeys(e, st, x.p)[x.i]), 32); return p
    p = e.alloc(st, 32, 'plname'); putobj(e, st, p, Str(getpl(e, st, a[0]).name), 32); return p
@on(TP + 'set', trust='Teuchos::ParameterList')
def _(e, st, c, a, rt):
    pl = getpl(e, st, a[0]); n = pname(e, st, c, a, 1); t = ptype(c)
    v = unbox(e, st, t, a[2], split_args(c.params)[1])
    q = PL(pl.e, pl.name); q.e[n] = (t, v, True)
    putobj(e, st, a[0], q, 8); return a[0]
@on(TP + 'ParameterList', trust='Teuchos::ParameterList')
def _(e, st, c, a, rt):
    if 'ParameterList const&' in c.params: copylist(e, st, a[1], a[0])
    else: putobj(e, st, a[0], PL({}), 8)
@on(TP + 'operator=', trust='Teuchos::ParameterList')
def _(e, st, c, a, rt): copylist(e, st, a[1], a[0]); return a[0]
on(TP + '~ParameterList')(nop)

# ------------------------------------------------------------------ std::map
class MapG:
    """ghost std::map: key -> (pointer to the node = pair<key, value>, presence condition)"""
    def __init__(self, d=None, end=None): self.d = dict(d or {}); self.end = end
    def merge(self, c, o, eng):
        out = MapG({}, self.end)
        for n in list(self.d) + [k for k in o.d if k not in self.d]:
            x, y = self.d.get(n), o.d.get(n)
            if x is not None and y is not None:
                if x[0] != y[0]: return None
                out.d[n] = (x[0], ite(c, x[1], y[1]) if x[1] is not y[1] else x[1])
            elif x is not None: out.d[n] = (x[0], b_and(c, x[1]))
            else: out.d[n] = (y[0], b_and(b_not(c), y[1]))
        return out
def getmap(e, st, p):
    o = getobj(e, st, p)
    if not isinstance(o, MapG): raise EngineLimit('not a map: %r' % (o,))
    return o
def newmap(e, st, p, d=None):
    putobj(e, st, p, MapG(d, e.alloc(st, 0, 'map end')), 8)
def valoff(c):
    ta = targs_of(c.q, 'std::map')
    if 'basic_string' in ta[0]: return 32
    return 4 if ta[1] in ('int', 'unsigned int', 'float') and ta[0] in ('int', 'unsigned int') else 8
@on('std::map::map', trust='std::map')
def _(e, st, c, a, rt):
    if split_args(c.params) and 'std::map<' in split_args(c.params)[0]: copymap(e, st, c, a)
    elif 'initializer_list' in c.params: raise EngineLimit('map initializer_list')
    else: newmap(e, st, a[0])
def copymap(e, st, c, a):
    out = {}
    for k, (p, g) in getmap(e, st, a[1]).d.items():
        b = st.mem[p.blk]
        q = e.alloc(st, b.size, 'mapnode'); e.memcpy(st, q, p, b.size); out[k] = (q, g)
    newmap(e, st, a[0], out)
@on('std::map::operator=', trust='std::map')
def _(e, st, c, a, rt): copymap(e, st, c, a); return a[0]
on('std::map::~map')(nop)
def mapkey(e, st, p, c=None):
    ta = targs_of(c.q, 'std::map') if c else ['basic_string']
    if 'basic_string' in ta[0]: return getstr(e, st, p)
    k = e.load(st, ('int', 32), p)
    if isz(k): raise EngineLimit('symbolic map key')
    return k
@on('std::map::operator[]', trust='std::map')
def _(e, st, c, a, rt):
    m = getmap(e, st, a[0]); k = mapkey(e, st, a[1], c); vo = valoff(c)
    x = m.d.get(k)
    if x is not None and x[1] is True: return Ptr(x[0].blk, vo)
    if x is not None:
        s1, s2 = fork(e, st, x[1]); outs = []
        if s1 is not None: outs.append(Outcome(s1, 'ret', Ptr(x[0].blk, vo)))
        if s2 is not None:
            r = map_insert(e, s2, c, a, m, k, vo)
            outs += r if isinstance(r, list) else [Outcome(s2, 'ret', r)]
        return outs
    return map_insert(e, st, c, a, m, k, vo)
def map_insert(e, st, c, a, m, k, vo):
    ta = targs_of(c.q, 'std::map')
    vt = ta[1]
    if not hasattr(e, 'mapnodes'): e.mapnodes = {}
    p = e.mapnodes.get((m.end.blk, k))
    if p is None: p = e.mapnodes[m.end.blk, k] = e.alloc(st, 256, 'mapnode')
    else: st.mem[p.blk] = Block(256, 'mapnode', st.tok)
    if vo == 32: putobj(e, st, p, Str(k), 32)
    else: e.store(st, ('int', 32), k, p)
    v = Ptr(p.blk, vo)
    if vt.startswith('Kokkos::View'):
        sort, rank, stat = vinfo(vt); setview(e, st, v, nullview(sort, rank + len(stat)))
    elif 'basic_string' in vt: putobj(e, st, v, Str(''), 32)
    else: st.wblock(p.blk).zero.append((vo, 256))
    nm = MapG(m.d, m.end); nm.d[k] = (p, True)
    putobj(e, st, a[0], nm, 8)
    if vt.startswith('Plato::'):
        outs = default_construct(e, st, vt, v)
        if outs is not None: return [Outcome(o.st, o.kind, v if o.kind == 'ret' else o.val) for o in outs]
    return v
def default_construct(e, st, vt, v):
    """run the value type's own default constructor when the module has one"""
    last = vt.split('<')[0].split('::')[-1]
    for nm in e.m.funcs:
        d = e.m.dem[nm]
        if d == '%s::%s()' % (vt, last): return e.call(st, nm, [v], ('void',))
    return None
@on('std::map::find', trust='std::map')
def _(e, st, c, a, rt):
    m = getmap(e, st, a[0]); k = mapkey(e, st, a[1], c)
    x = m.d.get(k)
    s1, s2 = fork(e, st, x[1] if x is not None else False); outs = []
    if s1 is not None: outs.append(Outcome(s1, 'ret', x[0]))
    if s2 is not None: outs.append(Outcome(s2, 'ret', m.end))
    return outs
on('std::map::end', 'std::map::cend')(lambda e, st, c, a, rt: getmap(e, st, a[0]).end)
def mapcount(e, st, c, a, rt):
    x = getmap(e, st, a[0]).d.get(mapkey(e, st, a[1], c))
    g = False if x is None else x[1]
    return int(g) if not isz(g) else z3.If(g, z3.IntVal(1), z3.IntVal(0))
on('std::map::count', trust='std::map')(mapcount)
@on('std::map::size', 'std::map::empty', trust='std::map')
def _(e, st, c, a, rt):
    n = 0
    for k, (p, g) in getmap(e, st, a[0]).d.items(): n = n + (int(g) if not isz(g) else z3.If(g, z3.IntVal(1), z3.IntVal(0)))
    return n if c.base.endswith('size') else (n == 0)
@on('std::map::at', trust='std::map')
def _(e, st, c, a, rt):
    m = getmap(e, st, a[0]); k = mapkey(e, st, a[1], c)
    x = m.d.get(k)
    s1, s2 = fork(e, st, x[1] if x is not None else False); outs = []
    if s1 is not None: outs.append(Outcome(s1, 'ret', Ptr(x[0].blk, valoff(c))))
    if s2 is not None: outs.append(Outcome(s2, 'throw', 'map::at'))
    return outs
@onre(r'^std::_Rb_tree_(const_)?iterator::operator(->|\*)$', trust='std::map iterator')
def _(e, st, c, a, rt):
    p = e.load(st, ('ptr',), a[0])
    if not isinstance(p, Ptr): raise EngineLimit('map iterator %r' % (p,))
    if st.mem[p.blk].name == 'map end': return [Outcome(st, 'abort', 'dereference of the end of a map')]
    return p
