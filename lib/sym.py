"""Symbolic executor / verification-condition generator over LLVM IR of the real sources."""
import sys, re, time
import z3
from fractions import Fraction
from terms import *
from views import *
import ir

import os
DBG = os.environ.get('VP_DBG')
class NotIndependent(EngineLimit): pass
class Ptr:
    __slots__ = ('blk', 'off')
    def __init__(self, blk, off): self.blk = blk; self.off = off
    def __repr__(self): return 'Ptr(%s+%s)' % (self.blk, self.off)
    def __eq__(self, o): return isinstance(o, Ptr) and self.blk == o.blk and (self.off is o.off or (not isz(self.off) and not isz(o.off) and self.off == o.off))
    def __hash__(self): return hash(self.blk)
NULL = Ptr(0, 0)
class FnPtr:
    __slots__ = ('name',)
    def __init__(self, name): self.name = name
    def __eq__(self, o): return isinstance(o, FnPtr) and self.name == o.name
    def __hash__(self): return hash(self.name)
class Str:
    """ghost std::string"""
    __slots__ = ('s',)
    def __init__(self, s): self.s = s
    def __repr__(self): return 'Str(%r)' % self.s
    def __eq__(self, o): return isinstance(o, Str) and o.s == self.s
    def __hash__(self): return hash(self.s)
class Ghost:
    """opaque ghost object"""
    def __init__(self, kind, **kw):
        self.kind = kind; self.__dict__.update(kw)
    def __repr__(self): return 'Ghost(%s)' % self.kind

class Block:
    __slots__ = ('cells', 'size', 'zero', 'own', 'name', 'ro', 'bytes', 'dead')
    def __init__(self, size, name='', own=None):
        self.cells = {}; self.size = size; self.zero = []; self.own = own; self.name = name; self.ro = False; self.bytes = None; self.dead = False
    def copy(self, own):
        b = Block(self.size, self.name, own)
        b.cells = dict(self.cells); b.zero = list(self.zero); b.bytes = self.bytes; b.dead = self.dead
        return b

class State:
    ntok = 0
    def __init__(self):
        self.mem = {}; self.layers = {}; self.pc = []; self.reads = []; self.obl = []; self.tracing = 0; self.ks = ()
        self.tok = self._tok()
        self.ghost = {}
    @classmethod
    def _tok(cls):
        cls.ntok += 1
        return cls.ntok
    def clone(self):
        s = State.__new__(State)
        s.mem = dict(self.mem); s.layers = dict(self.layers); s.pc = list(self.pc); s.reads = list(self.reads); s.obl = list(self.obl)
        s.tracing = self.tracing; s.ks = self.ks; s.ghost = dict(self.ghost)
        s.tok = self._tok(); self.tok = self._tok()
        return s
    def wblock(self, bid):
        b = self.mem[bid]
        if b.own != self.tok:
            b = b.copy(self.tok); self.mem[bid] = b
        return b

class Path:
    __slots__ = ('st', 'regs', 'blk', 'i', 'prev', 'trip')
    def __init__(self, st, regs, blk, i, prev, trip=None):
        self.st = st; self.regs = regs; self.blk = blk; self.i = i; self.prev = prev; self.trip = trip or {}
    def clone(self):
        return Path(self.st.clone(), dict(self.regs), self.blk, self.i, self.prev, dict(self.trip))

class Outcome:
    __slots__ = ('st', 'kind', 'val')
    def __init__(self, st, kind, val): self.st = st; self.kind = kind; self.val = val

class Obligation:
    __slots__ = ('kind', 'where', 'hyps', 'goal', 'info')
    def __init__(self, kind, where, hyps, goal, info=''):
        self.kind = kind; self.where = where; self.hyps = hyps; self.goal = goal; self.info = info

class Engine:
    def __init__(self, mod, intercepts, max_unroll=4000, timeout_ms=4000, deadline=None):
        self.m = mod
        self.ic = intercepts
        self.iccache = {}
        self.nblk = 0; self.nsid = 0; self.nfresh = 0
        self.globals = {}
        self.storages = {}
        self.S = Sums()
        self.max_unroll = max_unroll
        self.stack = []
        self.extra_hyps = []      # contract-level facts (quantified preconditions) usable in every query
        self.qcount = 0; self.qtime = 0.0
        self.timeout = timeout_ms
        self.deadline = deadline
        self.trusted = set()      # intercepted externals actually used
        self.executed = set()     # repo functions executed
        self.merge = True
        self.recursion = {}       # modular contracts: demangled-name prefix -> handler (assume callee contract)
        self.feas_cache = {}
        self.initial = State(); self.invariant = None; self.discover = 0
        self.ninst = 0

    # ------------------------------------------------------------------ basics
    def fresh(self, sort, hint='v'):
        self.nfresh += 1
        n = '%s~%d' % (hint, self.nfresh)
        return {'real': z3.Real, 'int': z3.Int, 'bool': z3.Bool}[sort](n)

    def havoc(self, st, sort, hint):
        """an arbitrary value; inside a summarised loop it may differ per iteration"""
        if not st.ks: return self.fresh(sort, hint)
        self.nfresh += 1
        rng = {'real': z3.RealSort(), 'int': z3.IntSort(), 'bool': z3.BoolSort()}[sort]
        return z3.Function('%s~%d' % (hint, self.nfresh), *([z3.IntSort()] * len(st.ks) + [rng]))(*st.ks)

    def alloc(self, st, size, name=''):
        self.nblk += 1
        st.mem[self.nblk] = Block(size, name, st.tok)
        return Ptr(self.nblk, 0)

    def new_storage(self, st, name, extents, sort, content=0):
        self.nsid += 1
        s = Storage(self.nsid, name, extents, sort)
        self.storages[self.nsid] = s
        if isinstance(content, Layer): st.layers[self.nsid] = content
        elif content == 'undef':
            n = 'undef_%s!%d' % (name, self.nsid)
            rng = z3.RealSort() if sort == 'real' else z3.IntSort()
            fn = z3.Function(n, *([z3.IntSort()] * max(1, len(extents)) + [rng])) if extents else None
            st.layers[self.nsid] = Base(fn=fn, const=None if fn is not None else self.fresh(sort, n))
        else:
            st.layers[self.nsid] = Base(const=(Fraction(content) if sort == 'real' else content))
        return self.nsid

    def new_view(self, st, name, extents, sort, content=0):
        if isinstance(sort, str) and sort.startswith('fad:'):      # derivative-carrying elements: N derivatives, then the value
            n = int(sort[4:])
            sid = self.new_storage(st, name, list(extents) + [n + 1], 'real', content)
            return ViewRef(sid, [('d', i) for i in range(len(extents) + 1)], list(extents), name, sort)
        sid = self.new_storage(st, name, extents, sort, content)
        return ViewRef(sid, [('d', i) for i in range(len(extents))], list(extents), name, sort)

    def check(self, st, *extra):
        """z3 status of path condition plus extra; 'unknown' counts as satisfiable"""
        ex = [e for e in extra]
        for e in ex:
            if e is False: return 'unsat'
        fs = [c for c in st.pc if not isinstance(c, bool)] + [e for e in ex if not isinstance(e, bool)]
        if any(c is False for c in st.pc): return 'unsat'
        if not fs: return 'sat'
        key = frozenset(f.get_id() for f in fs)
        hit = self.feas_cache.get(key)
        if hit: return hit[0]
        if self.deadline and time.time() > self.deadline: raise EngineLimit('time budget exhausted')
        t0 = time.time()
        s = z3.Solver(); s.set('timeout', 1500)
        hy = self.extra_hyps + self.S.axioms
        if hy: s.set('auto_config', False); s.set('mbqi', False)     # quantified facts by pattern instantiation only
        for f in hy: s.add(f)
        for f in fs: s.add(f)
        for f in math_axioms(fs): s.add(f)
        r = str(s.check())
        self.qcount += 1; self.qtime += time.time() - t0
        self.feas_cache[key] = (r, fs)
        return r

    def entails(self, st, c):
        if isinstance(c, bool): return c
        return self.check(st, z3.Not(c)) == 'unsat'

    # ------------------------------------------------------------------ memory
    def glob(self, st, name):
        name = self.m.aliases.get(name, name)
        if name in self.m.funcs or name in self.m.decls:
            return FnPtr(name)
        if name in self.globals:
            bid = self.globals[name]
            if bid not in st.mem: st.mem[bid] = self.initial.mem[bid]
            return Ptr(bid, 0)
        rest = self.m.globals.get(name)
        if rest is None: raise EngineLimit('global ' + name)
        m = re.match(r'(?:(?:private|internal|linkonce_odr|external|dso_local|unnamed_addr|local_unnamed_addr|constant|global|weak_odr|available_externally|hidden|weak|linkonce|common|thread_local(?:\(\w+\))?)\s+)*', rest)
        ext = 'external' in rest[:m.end()]
        body = rest[m.end():]
        c = ir.Cur(ir.tokenize(body), self.m)
        t = c.type()
        b = Block(self.m.sizeof(t), name, None)
        self.nblk += 1
        bid = self.nblk
        self.globals[name] = bid
        self.initial.mem[bid] = b
        st.mem[bid] = b
        if not ext and c.peek() is not None and c.peek() != ',':
            v = c.value(t)
            self.init_const(st, b, 0, t, v)
        return Ptr(bid, 0)

    def init_const(self, st, b, off, t, v):
        r = self.m.resolve(t)
        k = v[0]
        if k == 'zero':
            b.zero.append((off, off + self.m.sizeof(t)))
        elif k == 'cstr':
            for i, ch in enumerate(v[1]): b.cells[off + i] = (ch if ch < 128 else ch - 256, 1)
        elif k == 'agg':
            if r[0] == 'struct':
                for i, (et, ev) in enumerate(v[1]):
                    o, _ = self.m.field_off(r, i)
                    self.init_const(st, b, off + o, et, ev)
            else:
                es = self.m.sizeof(r[2])
                for i, (et, ev) in enumerate(v[1]):
                    self.init_const(st, b, off + i * es, et, ev)
        elif k == 'undef':
            pass
        else:
            b.cells[off] = (self.val(st, None, t, v), self.m.sizeof(t))

    def conv(self, v, t):
        """reinterpret a stored value at type t"""
        k = t[0]
        if isinstance(v, Poison): return v
        if k == 'fp':
            if isreal(v): return v
            if isinstance(v, int) and v == 0: return Fraction(0)
            if isinstance(v, str): return special(v)
            raise EngineLimit('load fp from %r' % (v,))
        if k == 'int':
            if t[1] == 1:
                return zb(v) if isz(v) else bool(v)
            if isinstance(v, bool): return int(v)
            if isinstance(v, z3.BoolRef): return z3.If(v, z3.IntVal(1), z3.IntVal(0))
            if isint(v): return v
            if isinstance(v, (Ptr, FnPtr, ViewRef, Str, Ghost)) or hasattr(v, 'merge'): return v
            if isreal(v) and isinstance(v, Fraction) and v == 0: return 0
            if isreal(v) and t[1] == 64: return v
            raise EngineLimit('load int from %r' % (v,))
        if k == 'ptr':
            if isinstance(v, int) and v == 0: return NULL
            return v
        return v

    def load(self, st, t, p):
        t = self.m.resolve(t)
        if isinstance(p, Poison): raise EngineLimit('load through ' + repr(p))
        if isinstance(p, Elem): return self.load_elem(st, p, t)
        if not isinstance(p, Ptr): raise EngineLimit('load through %r' % (p,))
        if p.blk == 0: raise EngineLimit('null dereference')
        b = st.mem[p.blk]
        off = p.off
        if isz(off):
            return self.load_symoff(st, t, p, b)
        if t[0] in ('struct', 'array'):
            out = []
            if t[0] == 'struct':
                for i, e in enumerate(t[1]):
                    o, _ = self.m.field_off(t, i); out.append(self.load(st, e, Ptr(p.blk, off + o)))
            else:
                es = self.m.sizeof(t[2])
                for i in range(t[1]): out.append(self.load(st, t[2], Ptr(p.blk, off + i * es)))
            return out
        size = self.m.sizeof(t)
        c = b.cells.get(off)
        if c is not None and (c[1] == size or not isinstance(c[0], (int, bool, Fraction)) or c[0] == 0):
            return self.conv(c[0], t)
        if c is not None and isinstance(c[0], int) and c[1] > size and t[0] == 'int':
            v = c[0] & ((1 << (8 * size)) - 1)
            return wrap(v, 8 * size)
        if c is None:
            for a, e in b.zero:
                if a <= off and off + size <= e:
                    return self.conv(Fraction(0) if t[0] == 'fp' else (False if t == ('int', 1) else 0), t)
        if t[0] == 'int' and size > 1:    # assemble bytes
            bs = []
            for i in range(size):
                if i < len(bs): continue
                cc = b.cells.get(off + i)
                if cc is not None and i + cc[1] <= size and isinstance(cc[0], int): bs += list((int(cc[0]) & ((1 << 8 * cc[1]) - 1)).to_bytes(cc[1], 'little'))
                elif cc is None and any(a <= off + i < e for a, e in b.zero): bs.append(0)
                else: bs = None; break
            if bs is not None: return wrap(int.from_bytes(bytes(bs), 'little'), 8 * size)
        if c is None:
            # uninitialised
            if b.dead:
                self.oblige(st, 'lifetime', False, 'read of %s after its scope ended' % b.name)
                st.pc.append(False)
            if isinstance(p.off, int) and (off < 0 or (b.size is not None and off + size > b.size)):
                self.oblige(st, 'bounds', False, 'load at offset %s of %s (%s bytes)' % (off, b.name, b.size))
                st.pc.append(False)
            if t[0] == 'fp': v = self.havoc(st, 'real', 'undef')
            elif t[0] == 'int': v = self.havoc(st, 'bool' if t[1] == 1 else 'int', 'undef')
            else: return Poison('uninitialised pointer')
            return v
        raise EngineLimit('partial load %s from %r' % (t, c))

    def scope(self, st, p, ends):
        """llvm.lifetime.start / end of a local object"""
        if not isinstance(p, Ptr) or p.blk == 0 or isz(p.off) or p.off != 0: return
        b = st.wblock(p.blk)
        b.cells = {}; b.zero = []; b.dead = ends

    def load_symoff(self, st, t, p, b):
        size = self.m.sizeof(t)
        res = None
        offs = sorted(o for o, (v, s) in b.cells.items() if s == size)
        for a, e in b.zero:
            for o in range(a, e, size):
                if o not in b.cells: offs.append(o)
        if len(offs) > 300: raise EngineLimit('symbolic offset')
        for o in offs:
            if self.check(st, p.off == o) == 'unsat': continue
            v = self.load(st, t, Ptr(p.blk, o))
            res = v if res is None else ite(simp(p.off == o), v, res)
            if res is None: raise EngineLimit('symbolic offset merge')
        self.oblige(st, 'bounds', b_or(*[simp(p.off == o) for o in offs]), 'array index in bounds of ' + b.name)
        if res is None: raise EngineLimit('symbolic offset: no cell')
        return res

    def store(self, st, t, v, p):
        t = self.m.resolve(t)
        if isinstance(p, Poison): raise EngineLimit('store through poison')
        if isinstance(p, Elem): return self.store_elem(st, p, v)
        if not isinstance(p, Ptr): raise EngineLimit('store through %r' % (p,))
        if p.blk == 0: raise EngineLimit('null store')
        if t[0] in ('struct', 'array') and isinstance(v, list):
            for i, e in enumerate(v):
                if t[0] == 'struct': o, et = self.m.field_off(t, i)
                else: et = t[2]; o = i * self.m.sizeof(et)
                self.store(st, et, e, Ptr(p.blk, iadd(p.off, o)))
            return
        b = st.wblock(p.blk)
        size = self.m.sizeof(t)
        if isz(p.off):
            offs = sorted(o for o, (x, s) in b.cells.items() if s == size)
            for a, e in b.zero:
                for o in range(a, e, size):
                    if o not in b.cells: offs.append(o)
            if b.size is not None and b.size // size <= 64: offs = list(range(0, b.size, size))
            if len(offs) > 300: raise EngineLimit('symbolic offset store')
            hit = []
            for o in offs:
                if self.check(st, p.off == o) == 'unsat': continue
                hit.append(o)
                old = b.cells.get(o, (None, size))[0]
                if old is None: old = self.load(st, t, Ptr(p.blk, o))
                nv = ite(simp(p.off == o), v, old)
                if nv is None: raise EngineLimit('symbolic store merge')
                b.cells[o] = (nv, size)
            self.oblige(st, 'bounds', b_or(*[simp(p.off == o) for o in hit]), 'array index in bounds of ' + b.name)
            return
        if b.size is not None and (p.off < 0 or p.off + size > b.size):
            self.oblige(st, 'bounds', False, 'store at offset %s of %s (%s bytes)' % (p.off, b.name, b.size))
            st.pc.append(False)
            return
        self.clear(b, p.off, size)
        b.cells[p.off] = (v, size)

    def clear(self, b, off, size):
        c = b.cells
        if size <= 16:
            for o in range(off - 15, off + size):
                x = c.get(o)
                if x is not None and o + x[1] > off and not (o == off):
                    if o >= off: del c[o]
                    elif isinstance(x[0], int) and not isinstance(x[0], bool):
                        # split a wider integer cell into bytes
                        del c[o]
                        bs = (x[0] & ((1 << (8 * x[1])) - 1)).to_bytes(x[1], 'little')
                        for i, y in enumerate(bs): c[o + i] = (wrap(y, 8), 1)
                        for i in range(size): c.pop(off + i, None)
                    elif isinstance(x[0], (ViewRef, Str, Ghost)): pass
                    else: del c[o]
        else:
            for o in [o for o in c if off <= o < off + size]: del c[o]

    def memcpy(self, st, d, s, n):
        if isinstance(d, Elem) or isinstance(s, Elem):
            raise EngineLimit('memcpy on view memory')
        if not isinstance(n, int) or isz(d.off) or isz(s.off): raise EngineLimit('symbolic memcpy')
        if n == 0: return
        sb = st.mem[s.blk]
        items = [(o - s.off, x) for o, x in sb.cells.items() if s.off <= o < s.off + n]
        zs = [(max(a, s.off) - s.off, min(e, s.off + n) - s.off) for a, e in sb.zero if a < s.off + n and e > s.off]
        db = st.wblock(d.blk)
        for o in [o for o in db.cells if d.off <= o < d.off + n]: del db.cells[o]
        for a, e in zs:
            for o in range(a, e): pass
            db.zero.append((d.off + a, d.off + e))
        for o, x in items: db.cells[d.off + o] = x

    # -------------------------------------------------------------- views
    def load_elem(self, st, p, t=None):
        idx = p.idx
        if st.tracing: st.reads.append((p.sid, idx, len(st.pc), tuple(st.pc)))
        v = read(st.layers[p.sid], idx, self.S)
        if t is not None and t[0] == 'int' and isint(v): return v
        return v

    def store_elem(self, st, p, v):
        so = self.storages[p.sid]
        if so.sort == 'real' and not isreal(v): v = self.conv(v, ('fp', 'double'))
        if isinstance(v, Poison): raise EngineLimit('poison stored to view')
        st.layers[p.sid] = W(st.layers[p.sid], p.idx, v)

    def oblige(self, st, kind, goal, info):
        if goal is True: return
        st.obl.append(Obligation(kind, self.where(), list(st.pc), goal, info))

    def where(self):
        for f in reversed(self.stack):
            d = f.dem or f.name
            if 'Plato' in d or d.startswith('h_'): return short(d)
        return short(self.stack[-1].dem) if self.stack else ''

    # -------------------------------------------------------------- values
    def val(self, st, regs, t, v):
        k = v[0]
        if k == 'loc':
            r = regs.get(v[1], None)
            if r is None and v[1] not in regs: raise EngineLimit('undefined register ' + v[1])
            return r
        if k == 'const':
            c = v[1]
            if isinstance(c, str): return special(c)
            if t[0] == 'fp' and not isinstance(c, Fraction): return Fraction(c)
            return c
        if k == 'glob': return self.glob(st, v[1])
        if k == 'null': return NULL
        if k == 'undef':
            r = self.m.resolve(t)
            if r[0] == 'fp': return Fraction(0)
            if r[0] == 'int': return 0 if r[1] != 1 else False
            if r[0] == 'ptr': return NULL
            if r[0] == 'struct': return [self.val(st, regs, e, v) for e in r[1]]
            if r[0] == 'array': return [self.val(st, regs, r[2], v) for _ in range(r[1])]
            return Poison('undef')
        if k == 'zero':
            r = self.m.resolve(t)
            if r[0] == 'struct': return [self.val(st, regs, e, v) for e in r[1]]
            if r[0] == 'array': return [self.val(st, regs, r[2], v) for _ in range(r[1])]
            if r[0] == 'fp': return Fraction(0)
            if r[0] == 'ptr': return NULL
            return 0
        if k == 'agg': return [self.val(st, regs, et, ev) for et, ev in v[1]]
        if k == 'gep':
            ops = v[2]
            return self.gep(st, v[1], self.val(st, regs, ops[0][0], ops[0][1]), [self.val(st, regs, a, b) for a, b in ops[1:]])
        if k == 'cast':
            x = self.val(st, regs, v[2], v[3])
            return x
        if k == 'cbin':
            a = self.val(st, regs, v[2], v[3]); b = self.val(st, regs, v[2], v[4])
            if v[1] == 'sub' and isinstance(a, Ptr) and isinstance(b, Ptr): return a.off - b.off
            return self.binop(st, v[1], v[2], a, b)
        raise EngineLimit('value %r' % (v,))

    def gep(self, st, bt, p, idx):
        if isinstance(p, Poison): raise EngineLimit('gep on poison in ' + short(self.stack[-1].dem))
        if isinstance(p, Elem):
            if len(idx) == 1 and self.m.sizeof(bt) in (4, 8):
                if idx[0] == 0: return p
                if p.view is not None and str(p.view.etype).startswith('fad:'):     # along the derivative components
                    j = iadd(p.idx[-1], idx[0]); n = int(p.view.etype[4:])
                    g = b_and(self.icmp(st, 'sge', ('int', 64), j, 0), self.icmp(st, 'sle', ('int', 64), j, n))
                    if g is not True: self.oblige(st, 'bounds', g, 'derivative component %s of %d' % (j, n))
                    return Elem(p.sid, p.idx[:-1] + (j,), p.view)
                if len(p.idx) == 1: return Elem(p.sid, (iadd(p.idx[0], idx[0]),), p.view)
            if len(idx) == 1 and self.m.resolve(bt) == ('int', 8) and isinstance(idx[0], int):
                es = 8 if self.storages[p.sid].sort == 'real' else 4
                if idx[0] % es == 0 and len(p.idx) == 1: return Elem(p.sid, (iadd(p.idx[0], idx[0] // es),), p.view)
            raise EngineLimit('gep on view element')
        if not isinstance(p, Ptr): raise EngineLimit('gep on %r' % (p,))
        off = p.off
        t = bt
        off = iadd(off, imul(self.m.sizeof(t), idx[0]))
        for i in idx[1:]:
            r = self.m.resolve(t)
            if r[0] == 'struct':
                o, t = self.m.field_off(r, i); off = iadd(off, o)
            else:
                t = r[2]; off = iadd(off, imul(self.m.sizeof(t), i))
        return Ptr(p.blk, off)

    def nonneg(self, st, a):
        if not isz(a): return a >= 0
        return self.entails(st, zi(a) >= 0)

    def binop(self, st, op, t, a, b):
        t = self.m.resolve(t)
        if isinstance(a, Poison) or isinstance(b, Poison): raise EngineLimit('poison operand')
        if t[0] == 'fp':
            if isinstance(a, int): a = Fraction(a)
            if isinstance(b, int): b = Fraction(b)
            if op == 'fadd': return radd(a, b)
            if op == 'fsub': return rsub(a, b)
            if op == 'fmul': return rmul(a, b)
            if op == 'fdiv': return rdiv(a, b)
            raise EngineLimit(op)
        n = t[1]
        if n == 1:
            if op == 'and': return b_and(bool(a) if not isz(a) else a, bool(b) if not isz(b) else b)
            if op == 'or': return b_or(bool(a) if not isz(a) else a, bool(b) if not isz(b) else b)
            if op == 'xor':
                if isz(a) or isz(b): return simp(z3.Xor(zb(a), zb(b)))
                return bool(a) != bool(b)
        if isinstance(a, (Ptr, Elem)) or isinstance(b, (Ptr, Elem)):
            if op == 'sub' and isinstance(a, Ptr) and isinstance(b, Ptr) and a.blk == b.blk: return isub(a.off, b.off)
            if op == 'sub' and isinstance(a, Elem) and isinstance(b, Elem) and a.sid == b.sid and len(a.idx) == 1:
                return imul(8 if self.storages[a.sid].sort == 'real' else 4, isub(a.idx[0], b.idx[0]))
            if op == 'add' and isinstance(a, Ptr): return Ptr(a.blk, iadd(a.off, b))
            raise EngineLimit('pointer arithmetic ' + op)
        if isinstance(a, bool): a = int(a)
        if isinstance(b, bool): b = int(b)
        if isinstance(a, z3.BoolRef): a = zi(a)
        if isinstance(b, z3.BoolRef): b = zi(b)
        conc = isinstance(a, int) and isinstance(b, int)
        if conc:
            ua, ub = a & ((1 << n) - 1), b & ((1 << n) - 1)
            if op == 'add': return wrap(a + b, n)
            if op == 'sub': return wrap(a - b, n)
            if op == 'mul': return wrap(a * b, n)
            if op in ('sdiv', 'srem', 'udiv', 'urem'):
                if b == 0: raise EngineLimit('division by zero')
                if op == 'udiv': return wrap(ua // ub, n)
                if op == 'urem': return wrap(ua % ub, n)
                q = abs(a) // abs(b)
                if (a < 0) != (b < 0): q = -q
                return wrap(q, n) if op == 'sdiv' else wrap(a - b * q, n)
            if op == 'shl': return wrap(ua << ub, n)
            if op == 'lshr': return wrap(ua >> ub, n)
            if op == 'ashr': return wrap(a >> ub, n)
            if op == 'and': return wrap(ua & ub, n)
            if op == 'or': return wrap(ua | ub, n)
            if op == 'xor': return wrap(ua ^ ub, n)
        if op == 'add': return iadd(a, b)
        if op == 'sub': return isub(a, b)
        if op == 'mul': return imul(a, b)
        if op in ('sdiv', 'udiv', 'srem', 'urem'):
            if not isinstance(b, int): 
                self.oblige(st, 'divzero', simp(zi(b) != 0), 'integer division by zero')
            if self.nonneg(st, a) and (b > 0 if isinstance(b, int) else self.entails(st, zi(b) > 0)):
                return simp(zi(a) / zi(b)) if op.endswith('div') else simp(zi(a) % zi(b))
            if op == 'sdiv' and isinstance(b, int) and self.entails(st, zi(a) % b == 0): return simp(zi(a) / b)
            raise EngineLimit('signed division of a possibly negative value')
        if op == 'shl' and isinstance(b, int): return imul(a, 1 << b)
        if op in ('lshr', 'ashr') and isinstance(b, int) and self.nonneg(st, a): return simp(zi(a) / (1 << b))
        if op == 'and' and isinstance(b, int) and b > 0 and (b & (b + 1)) == 0 and self.nonneg(st, a): return simp(zi(a) % (b + 1))
        if op == 'and' and isinstance(a, z3.ArithRef) and isint(b):
            # bool-like values
            za, zb_ = boolish(a), boolish(b)
            if za is not None and zb_ is not None: return z3.If(z3.And(zb(za), zb(zb_)), z3.IntVal(1), z3.IntVal(0))
        if op == 'or':
            za, zb_ = boolish(a), boolish(b)
            if za is not None and zb_ is not None: return z3.If(z3.Or(zb(za), zb(zb_)), z3.IntVal(1), z3.IntVal(0))
        if op == 'xor' and (b == 1 or b == -1):
            za = boolish(a)
            if za is not None and b == 1: return z3.If(zb(za), z3.IntVal(0), z3.IntVal(1))
            if b == -1: return simp(-zi(a) - 1)
        raise EngineLimit('symbolic integer %s' % op)

    def icmp(self, st, pr, t, a, b):
        if isinstance(a, Poison) or isinstance(b, Poison): raise EngineLimit('poison compare')
        if isinstance(a, (Ptr, FnPtr, Elem)) or isinstance(b, (Ptr, FnPtr, Elem)):
            if isinstance(a, Ptr) and isinstance(b, Ptr):
                if a.blk == b.blk:
                    if pr == 'eq': return eq(a.off, b.off)
                    if pr == 'ne': return b_not(eq(a.off, b.off))
                    return self.icmp(st, pr, ('int', 64), a.off, b.off)
                same = False
            elif isinstance(a, Elem) and isinstance(b, Elem) and a.sid == b.sid:
                if pr in ('eq', 'ne'):
                    r = idx_eq(a.idx, b.idx)
                    return r if pr == 'eq' else b_not(r)
                if len(a.idx) == 1: return self.icmp(st, pr, ('int', 64), a.idx[0], b.idx[0])
                same = False
            else:
                same = (a == b)
            if pr == 'eq': return same
            if pr == 'ne': return not same
            raise EngineLimit('pointer comparison')
        n = t[1] if t[0] == 'int' else 64
        if n == 1:
            e = eq(zb(a) if isz(a) else bool(a), zb(b) if isz(b) else bool(b))
            if pr == 'eq': return e
            if pr == 'ne': return b_not(e)
        if not isz(a) and not isz(b):
            a = int(a); b = int(b)
            if pr[0] == 'u':
                a &= (1 << n) - 1; b &= (1 << n) - 1
            return {'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[pr if pr in ('eq', 'ne') else pr[1:]]
        if isinstance(a, z3.BoolRef): a = zi(a)
        if isinstance(b, z3.BoolRef): b = zi(b)
        if isinstance(a, (ViewRef, Str, Ghost)) or isinstance(b, (ViewRef, Str, Ghost)): raise EngineLimit('compare ghost')
        if pr == 'eq': return simp(zi(a) == zi(b))
        if pr == 'ne': return simp(zi(a) != zi(b))
        f = {'lt': lambda x, y: x < y, 'le': lambda x, y: x <= y, 'gt': lambda x, y: x > y, 'ge': lambda x, y: x >= y}[pr[1:]]
        if pr[0] == 'u':
            na, nb = self.nonneg(st, a), self.nonneg(st, b)
            if not (na and nb):
                r = z3.If(zi(a) >= 0, z3.If(zi(b) >= 0, f(zi(a), zi(b)), z3.BoolVal(pr[1] == 'l')),
                          z3.If(zi(b) >= 0, z3.BoolVal(pr[1] == 'g'), f(zi(a), zi(b))))
                return simp(r)
        return simp(f(zi(a), zi(b)))

    def fcmp(self, st, pr, a, b):
        if isinstance(a, Poison) or isinstance(b, Poison): raise EngineLimit('poison compare')
        if pr in ('ord', 'uno'):
            return pr == 'ord'
        if isinstance(a, int): a = Fraction(a)
        if isinstance(b, int): b = Fraction(b)
        o = pr[1:]
        if isinstance(a, Fraction) and isinstance(b, Fraction):
            return {'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[o]
        x, y = zr(a), zr(b)
        return simp({'eq': x == y, 'ne': x != y, 'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[o])

    def cast(self, st, op, ft, v, tt):
        if isinstance(v, Poison): return v
        if op in ('ptrtoint', 'inttoptr', 'bitcast', 'addrspacecast', 'fpext', 'fptrunc', 'freeze'):
            if op == 'inttoptr' and isinstance(v, int) and v == 0: return NULL
            return v
        n = tt[1] if tt[0] == 'int' else None
        if op == 'trunc':
            if n == 1:
                if isz(v):
                    bo = boolish(v)
                    if bo is not None: return bo
                    return simp(zi(v) % 2 == 1)
                return bool(v & 1)
            if isz(v) or not isinstance(v, int): return v
            return wrap(v, n)
        if op == 'zext':
            if isinstance(v, bool): return int(v)
            if isinstance(v, z3.BoolRef): return z3.If(v, z3.IntVal(1), z3.IntVal(0))
            if isinstance(v, int): return v & ((1 << ft[1]) - 1)
            return v      # symbolic: value assumed non-negative in its type (recorded assumption)
        if op == 'sext':
            if isinstance(v, bool): return -int(v)
            if isinstance(v, z3.BoolRef): return z3.If(v, z3.IntVal(-1), z3.IntVal(0))
            return v
        if op in ('sitofp', 'uitofp'):
            if isinstance(v, bool): return Fraction(int(v))
            if isinstance(v, int):
                if op == 'uitofp': v &= (1 << ft[1]) - 1
                return Fraction(v)
            if isinstance(v, z3.BoolRef): return z3.If(v, z3.RealVal(1), z3.RealVal(0))
            return z3.ToReal(v)
        if op in ('fptosi', 'fptoui'):
            if isinstance(v, Fraction):
                return int(v)
            v = zr(v)
            if v.decl().kind() == z3.Z3_OP_TO_REAL: return v.arg(0)
            return simp(z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v)))
        raise EngineLimit('cast ' + op)

    # -------------------------------------------------------------- calls
    def call(self, st, name, args, rt, argtypes=None):
        """returns list of Outcome"""
        name = self.m.aliases.get(name, name)
        dem = self.m.dem.get(name, name)
        h = self.iccache.get(name)
        if h is None:
            h = self.ic.find(self, name, dem)
            self.iccache[name] = h if h is not None else False
        if h:
            fn, label = h
            if label: self.trusted.add(label)
            r = fn(self, st, name, dem, args, rt)
            if isinstance(r, list) and r and isinstance(r[0], Outcome): return r
            return [Outcome(st, 'ret', r)]
        f = self.m.funcs.get(name)
        if f is None:
            raise EngineLimit('external function ' + short(dem))
        return self.run_function(f, args, st)

    def run_function(self, f, args, st):
        self.m.parse_func(f)
        if len(self.stack) > 120: raise EngineLimit('call depth')
        if 'Plato' in f.dem: self.executed.add(short(f.dem))
        self.stack.append(f)
        try:
            regs = {}
            for (nm, t, info), a in zip(f.params, args): regs[nm] = a
            outs = []; exits = []
            arr = self.run(f, [Path(st, regs, f.entry, 0, None)], None, None, outs, exits)
            rets = [o for o in outs if o.kind == 'ret']
            others = [o for o in outs if o.kind != 'ret']
            if len(rets) > 1 and self.merge:
                rets = self.merge_outcomes(rets)
            return rets + others
        finally:
            self.stack.pop()

    # -------------------------------------------------------------- interpreter
    def run(self, f, paths, stop, region, outs, exits):
        """run paths until they reach `stop` (returned, merged into one when possible) or leave the function"""
        work = list(paths); arrived = []
        while work:
            p = work.pop()
            self.step_path(f, p, stop, region, outs, exits, work, arrived)
        if len(arrived) > 1 and self.merge:
            arrived = self.merge_paths(arrived)
        return arrived

    def goto(self, p, target):
        p.prev = p.blk; p.blk = target; p.i = 0

    def step_path(self, f, p, stop, region, outs, exits, work, arrived):
        M = self.m
        while True:
            if self.deadline and time.time() > self.deadline: raise EngineLimit('time budget exhausted')
            if p.i == 0:
                if p.blk == stop:
                    self.do_phis(f, p)
                    arrived.append(p); return
                if region is not None and p.blk not in region:
                    exits.append(p); return
                if p.blk in f.loops and (p.prev is None or p.prev not in f.loops[p.blk]):
                    r = self.try_loop(f, p, outs)
                    if r is not None:
                        if r == []: return
                        p = r[0]; work.extend(r[1:])
                        continue
                if p.blk in f.loops:
                    p.trip[p.blk] = p.trip.get(p.blk, 0) + 1
                    if p.trip[p.blk] > self.max_unroll: raise EngineLimit('loop unrolled beyond %d' % self.max_unroll)
                self.do_phis(f, p)
            insts = f.blocks[p.blk]
            st, regs = p.st, p.regs
            n = len(insts)
            jumped = False
            while p.i < n:
                inst = insts[p.i]
                op = inst[0]
                self.ninst += 1
                if op == 'call':
                    _, dest, rt, callee, args, normal, unwind = inst
                    av = [self.val(st, regs, t, v) for t, v in args]
                    if callee[0] == 'glob': cn = callee[1]
                    else:
                        fp = regs[callee[1]]
                        if not isinstance(fp, FnPtr): raise EngineLimit('indirect call through %r' % (fp,))
                        cn = fp.name
                    res = self.call(st, cn, av, rt)
                    rets = []
                    for o in res:
                        if o.kind == 'ret': rets.append(o)
                        elif o.kind == 'throw' and unwind and self.catches(f, unwind):
                            # a handler exists in this frame
                            raise EngineLimit('exception caught by handler in ' + short(f.dem))
                        else: outs.append(o)
                    if not rets: return
                    for o in rets[1:]:
                        q = Path(o.st, dict(regs), p.blk, p.i + 1, p.prev, dict(p.trip))
                        if dest: q.regs[dest] = o.val
                        if normal: self.goto(q, normal)
                        work.append(q)
                    o = rets[0]
                    p.st = st = o.st
                    if dest: regs[dest] = o.val
                    if normal:
                        self.goto(p, normal); jumped = True; break
                elif op == 'load':
                    regs[inst[1]] = self.load(st, inst[2], self.val(st, regs, None, inst[3]))
                elif op == 'store':
                    self.store(st, inst[2], self.val(st, regs, inst[2], inst[3]), self.val(st, regs, None, inst[4]))
                elif op == 'gep':
                    ops = inst[3]
                    regs[inst[1]] = self.gep(st, inst[2], self.val(st, regs, ops[0][0], ops[0][1]), [self.val(st, regs, a, b) for a, b in ops[1:]])
                elif op == 'alloca':
                    cnt = 1 if inst[3] is None else self.val(st, regs, None, inst[3])
                    if not isinstance(cnt, int): raise EngineLimit('symbolic alloca')
                    regs[inst[1]] = self.alloc(st, M.sizeof(inst[2]) * cnt, short(f.dem) + inst[1])
                elif op == 'bin':
                    regs[inst[1]] = self.binop(st, inst[2], inst[3], self.val(st, regs, inst[3], inst[4]), self.val(st, regs, inst[3], inst[5]))
                elif op == 'icmp':
                    regs[inst[1]] = self.icmp(st, inst[2], M.resolve(inst[3]), self.val(st, regs, inst[3], inst[4]), self.val(st, regs, inst[3], inst[5]))
                elif op == 'fcmp':
                    regs[inst[1]] = self.fcmp(st, inst[2], self.val(st, regs, inst[3], inst[4]), self.val(st, regs, inst[3], inst[5]))
                elif op == 'fneg':
                    regs[inst[1]] = rneg(self.val(st, regs, inst[2], inst[3]))
                elif op == 'cast':
                    regs[inst[1]] = self.cast(st, inst[2], M.resolve(inst[3]), self.val(st, regs, inst[3], inst[4]), M.resolve(inst[5]))
                elif op == 'freeze':
                    regs[inst[1]] = self.val(st, regs, inst[2], inst[3])
                elif op == 'select':
                    c = self.val(st, regs, ('int', 1), inst[3])
                    a = self.val(st, regs, inst[2], inst[4]); b = self.val(st, regs, inst[2], inst[5])
                    if isz(c):
                        r = ite(zb(c), a, b)
                        if r is None:
                            s1 = self.check(st, zb(c)); s2 = self.check(st, z3.Not(zb(c)))
                            if s1 == 'unsat': r = b
                            elif s2 == 'unsat': r = a
                            else:
                                q = p.clone(); st = p.st; regs = p.regs
                                q.st.pc.append(z3.Not(zb(c))); q.regs[inst[1]] = b; q.i += 1
                                work.append(q)
                                st.pc.append(zb(c)); r = a
                        regs[inst[1]] = r
                    else: regs[inst[1]] = a if c else b
                elif op == 'br':
                    self.goto(p, inst[2]); jumped = True; break
                elif op == 'condbr' or op == 'switch':
                    if op == 'condbr':
                        c = self.val(st, regs, ('int', 1), inst[2])
                        if isinstance(c, Poison): raise EngineLimit('branch on poison')
                        if isz(c): c = simp(zb(c))
                        if not isz(c):
                            self.goto(p, inst[3] if c else inst[4]); jumped = True; break
                        alts = [(c, inst[3]), (b_not(c), inst[4])]
                    else:
                        v = self.val(st, regs, inst[2], inst[3])
                        if isinstance(v, bool): v = int(v)
                        if isinstance(v, int):
                            tgt = inst[4]
                            for cv, b in inst[5]:
                                if wrap(int(cv), 64) == v: tgt = b
                            self.goto(p, tgt); jumped = True; break
                        alts = []; none = True
                        for cv, b in inst[5]:
                            alts.append((eq(v, int(cv)), b)); none = b_and(none, b_not(eq(v, int(cv))))
                        alts.append((none, inst[4]))
                    feas = []
                    for c, b in alts:
                        if c is False: continue
                        if self.check(st, c) != 'unsat': feas.append((c, b))
                    if not feas: return           # infeasible path
                    if len(feas) == 1:
                        st.pc.append(feas[0][0])
                        self.goto(p, feas[0][1]); jumped = True; break
                    J = f.ipdom.get(p.blk)
                    subs = []
                    for c, b in feas:
                        q = p.clone(); q.st.pc.append(c); self.goto(q, b); subs.append(q)
                    if J is not None and J != stop and self.merge and not (region is not None and J not in region) and \
                            not (J in f.loops and p.blk not in f.loops[J]):
                        arr = self.run(f, subs, J, region, outs, exits)
                        if not arr: return
                        # continue from J (phis are done)
                        for q in arr[1:]:
                            q.i = self.first_nonphi(f, J); work.append(q)
                        p = arr[0]; p.i = self.first_nonphi(f, J)
                        jumped = True; break
                    work.extend(subs[1:]); p = subs[0]
                    jumped = True; break
                elif op == 'ret':
                    outs.append(Outcome(st, 'ret', None if inst[2] is None else self.val(st, regs, inst[2], inst[3])))
                    return
                elif op == 'extractvalue':
                    v = self.val(st, regs, inst[2], inst[3])
                    for i in inst[4]: v = v[i]
                    regs[inst[1]] = v
                elif op == 'insertvalue':
                    v = self.val(st, regs, inst[2], inst[3])
                    v = deepset(v, inst[6], self.val(st, regs, inst[4], inst[5]))
                    regs[inst[1]] = v
                elif op == 'unreachable':
                    outs.append(Outcome(st, 'abort', 'unreachable')); return
                elif op == 'landingpad' or op == 'resume':
                    return
                elif op == 'phi' or op == 'nop':
                    pass
                elif op == 'atomicrmw':
                    ptr = self.val(st, regs, None, inst[4]); v = self.val(st, regs, inst[3], inst[5])
                    old = self.load(st, inst[3], ptr)
                    if inst[2] == 'add': nv = self.binop(st, 'add', inst[3], old, v)
                    elif inst[2] == 'fadd': nv = radd(old, v)
                    else: raise EngineLimit('atomicrmw ' + inst[2])
                    self.store(st, inst[3], nv, ptr); regs[inst[1]] = old
                else:
                    raise EngineLimit('instruction %s %s' % (op, inst[-1] if op in ('asm', 'unsupported') else ''))
                p.i += 1
            if not jumped:
                raise EngineLimit('fell off block')

    def catches(self, f, unwind):
        for inst in f.blocks[unwind]:
            if inst[0] == 'landingpad': return ' catch ' in inst[2]
        return False

    def first_nonphi(self, f, b):
        i = 0
        for inst in f.blocks[b]:
            if inst[0] != 'phi': return i
            i += 1
        return i

    def do_phis(self, f, p):
        insts = f.blocks[p.blk]
        vals = []
        for inst in insts:
            if inst[0] != 'phi': break
            for v, b in inst[3]:
                if b == p.prev:
                    try: vals.append((inst[1], self.val(p.st, p.regs, inst[2], v)))
                    except EngineLimit: vals.append((inst[1], Poison('phi')))
                    break
            else:
                raise EngineLimit('phi without edge from %s' % p.prev)
        for d, v in vals: p.regs[d] = v
        p.i = len(vals)
        if p.i == 0 and False: pass

    # -------------------------------------------------------------- merging
    def merge_vals(self, c, a, b):
        if a is b: return a
        if isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
            return [self.merge_vals(c, x, y) for x, y in zip(a, b)]
        try:
            if isinstance(a, (Ptr, FnPtr, Str)) and a == b: return a
            if isinstance(a, Elem) and isinstance(b, Elem) and a.sid == b.sid and idx_eq(a.idx, b.idx) is True: return a
            if isinstance(a, ViewRef) and a.same(b): return a
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.blk == b.blk: return Ptr(a.blk, ite(c, a.off, b.off))
            if isinstance(a, Elem) and isinstance(b, Elem) and a.sid == b.sid:
                return Elem(a.sid, tuple(ite(c, x, y) for x, y in zip(a.idx, b.idx)), a.view)
        except EngineLimit: pass
        if hasattr(a, 'merge') and type(a) is type(b):
            r = a.merge(c, b, self)
            return Poison('merge of ' + type(a).__name__) if r is None else r
        r = None
        try: r = ite(c, a, b)
        except EngineLimit: pass
        if r is None: return Poison('merge %r / %r' % (type(a).__name__, type(b).__name__))
        return r

    def merge_states(self, a, b):
        n = 0
        pa, pb = a.pc, b.pc
        while n < len(pa) and n < len(pb) and (pa[n] is pb[n] or (isz(pa[n]) and isz(pb[n]) and pa[n].eq(pb[n])) ): n += 1
        ca = b_and(*pa[n:]) ; cb = b_and(*pb[n:])
        if ca is False: return b, None
        if cb is False: return a, None
        cond = ca
        if cond is True: cond = z3.BoolVal(True)
        s = State.__new__(State)
        s.tok = State._tok(); s.tracing = a.tracing; s.ks = a.ks
        s.pc = list(pa[:n])
        if not (isz(ca) and isz(cb) and (b_not(ca).eq(cb) or b_not(cb).eq(ca))):
            d = simp(b_or(ca, cb))
            if d is not True: s.pc.append(d)
        if b.reads:
            have = set(map(id, a.reads)); s.reads = a.reads + [r for r in b.reads if id(r) not in have]
        else: s.reads = a.reads
        so = set(map(id, a.obl)); s.obl = a.obl + [o for o in b.obl if id(o) not in so]
        s.ghost = dict(a.ghost)
        for k, v in b.ghost.items():
            if k in s.ghost and s.ghost[k] is not v and s.ghost[k] != v: s.ghost[k] = Poison('ghost')
            else: s.ghost[k] = v
        s.mem = {}
        for bid in a.mem.keys() | b.mem.keys():
            x, y = a.mem.get(bid), b.mem.get(bid)
            if x is None or y is None or x is y: s.mem[bid] = x or y; continue
            nb = Block(x.size, x.name, s.tok); nb.dead = x.dead and y.dead
            nb.zero = list(x.zero) if len(x.zero) >= len(y.zero) else list(y.zero)
            for o in x.cells.keys() | y.cells.keys():
                u, v = x.cells.get(o), y.cells.get(o)
                if u is None or v is None:
                    w = u or v
                    zz = (x if u is None else y).zero
                    if any(lo <= o < hi for lo, hi in zz) and isinstance(w[0], (int, Fraction)) or (isz(w[0]) and any(lo <= o < hi for lo, hi in zz)):
                        zero = Fraction(0) if isreal(w[0]) else (False if isbool(w[0]) else 0)
                        nb.cells[o] = (self.merge_vals(cond, u[0] if u else zero, v[0] if v else zero), w[1])
                    elif w[1] == 8 and isreal(w[0]):   # uninitialised on the other side: an arbitrary value there
                        z = self.havoc(a, 'real', 'uninit')
                        nb.cells[o] = (self.merge_vals(cond, u[0] if u else z, v[0] if v else z), 8)
                    elif w[1] == 4 and isint(w[0]):
                        z = self.havoc(a, 'int', 'uninit')
                        nb.cells[o] = (self.merge_vals(cond, u[0] if u else z, v[0] if v else z), 4)
                    else:
                        nb.cells[o] = (Poison('half-initialised'), w[1])
                    continue
                if u[0] is v[0]: nb.cells[o] = u
                elif u[1] != v[1]: nb.cells[o] = (Poison('size'), u[1])
                else: nb.cells[o] = (self.merge_vals(cond, u[0], v[0]), u[1])
            s.mem[bid] = nb
        s.layers = {}
        for sid in a.layers.keys() | b.layers.keys():
            x, y = a.layers.get(sid), b.layers.get(sid)
            if x is None or y is None or x is y: s.layers[sid] = x or y
            else: s.layers[sid] = M(cond, x, y, common_base(x, y))
        return s, cond

    def merge_paths(self, ps):
        acc = ps[0]
        for q in ps[1:]:
            s, cond = self.merge_states(acc.st, q.st)
            if cond is None:
                if s is q.st: acc = q
                continue
            regs = {}
            for k, v in acc.regs.items():
                w = q.regs.get(k)
                if w is None and k not in q.regs: continue
                regs[k] = v if v is w else self.merge_vals(cond, v, w)
            acc = Path(s, regs, acc.blk, acc.i, acc.prev, acc.trip)
        return [acc]

    def merge_outcomes(self, os):
        acc = os[0]; out = []
        for q in os[1:]:
            if isinstance(acc.val, (Str, Ghost)) and acc.val is not q.val: out.append(q); continue
            s, cond = self.merge_states(acc.st, q.st)
            if cond is None:
                if s is q.st: acc = q
                continue
            v = None if acc.val is None else self.merge_vals(cond, acc.val, q.val)
            if isinstance(v, Poison): out.append(q); continue
            acc = Outcome(s, 'ret', v)
        return [acc] + out

    # -------------------------------------------------------------- loops
    def try_loop(self, f, p, outs):
        """p stands at a loop header, coming from outside. None: unroll as usual."""
        H = p.blk
        term = f.blocks[H][-1]
        loop = f.loops[H]
        if term[0] != 'condbr': return None
        inA, inB = term[3] in loop, term[4] in loop
        if inA == inB: return None
        # peek at the exit condition with the real entry values
        q = p.clone()
        q.st.tracing = 0
        try:
            c = self.peek_cond(f, q, H)
        except EngineLimit:
            return None
        if c is None or not isz(c): return None
        if self.check(p.st, c) == 'unsat' or self.check(p.st, b_not(c)) == 'unsat':
            # decided by the path condition; still unbounded if the bound is symbolic
            pass
        return self.summarize(f, p, H, loop, inA, outs)

    def peek_cond(self, f, q, H):
        self.do_phis(f, q)
        o = []
        insts = f.blocks[H]
        r = self.exec_straight(f, q, insts[q.i:-1])
        if r is None: return None
        c = self.val(q.st, q.regs, ('int', 1), insts[-1][2])
        if isz(c): c = simp(zb(c))
        return c

    def exec_straight(self, f, q, insts):
        """execute header instructions without control flow"""
        for inst in insts:
            op = inst[0]
            st, regs = q.st, q.regs
            if op == 'call':
                av = [self.val(st, regs, t, v) for t, v in inst[4]]
                if inst[3][0] != 'glob': return None
                res = self.call(st, inst[3][1], av, inst[2])
                if len(res) != 1 or res[0].kind != 'ret': return None
                q.st = res[0].st
                if inst[1]: regs[inst[1]] = res[0].val
            elif op == 'load': regs[inst[1]] = self.load(st, inst[2], self.val(st, regs, None, inst[3]))
            elif op == 'store': self.store(st, inst[2], self.val(st, regs, inst[2], inst[3]), self.val(st, regs, None, inst[4]))
            elif op == 'gep':
                ops = inst[3]
                regs[inst[1]] = self.gep(st, inst[2], self.val(st, regs, ops[0][0], ops[0][1]), [self.val(st, regs, a, b) for a, b in ops[1:]])
            elif op == 'bin': regs[inst[1]] = self.binop(st, inst[2], inst[3], self.val(st, regs, inst[3], inst[4]), self.val(st, regs, inst[3], inst[5]))
            elif op == 'icmp': regs[inst[1]] = self.icmp(st, inst[2], self.m.resolve(inst[3]), self.val(st, regs, inst[3], inst[4]), self.val(st, regs, inst[3], inst[5]))
            elif op == 'fcmp': regs[inst[1]] = self.fcmp(st, inst[2], self.val(st, regs, inst[3], inst[4]), self.val(st, regs, inst[3], inst[5]))
            elif op == 'cast': regs[inst[1]] = self.cast(st, inst[2], self.m.resolve(inst[3]), self.val(st, regs, inst[3], inst[4]), self.m.resolve(inst[5]))
            elif op == 'phi' or op == 'nop': pass
            else: return None
        return True

    def one_iteration(self, f, p, H, loop, outs, ex=None):
        """p: at H, phis assigned, p.i past phis. Runs header and body once. Returns (arrived at H again, cond, exits)."""
        insts = f.blocks[H]
        r = self.exec_straight(f, p, insts[p.i:-1])
        if r is None: raise EngineLimit('loop header')
        term = insts[-1]
        c = self.val(p.st, p.regs, ('int', 1), term[2])
        if isz(c): c = simp(zb(c))
        inA = term[3] in loop
        cond = c if inA else b_not(c)
        if cond is not True: p.st.pc.append(cond)
        self.goto(p, term[3] if inA else term[4])
        exits = []; o2 = []
        arr = self.run(f, [p], H, loop, o2, exits)
        if exits:
            exits = [e for e in exits if self.check(e.st) != 'unsat']
        if exits:
            if ex is None: raise EngineLimit('loop with early exit in ' + short(f.dem))
            ex += exits
        o2 = [o for o in o2 if self.check(o.st) != 'unsat']
        if len(arr) > 1:
            m = self.merge; self.merge = True
            arr = self.merge_paths(arr); self.merge = m
        return (arr[0] if arr else None), cond, o2

    def havoc_like(self, v, hint):
        if isinstance(v, bool) or isinstance(v, z3.BoolRef): return self.fresh('bool', hint)
        if isint(v): return self.fresh('int', hint)
        if isreal(v): return self.fresh('real', hint)
        return None

    def summarize(self, f, p, H, loop, inA, outs):
        pre = p
        base = pre.clone()
        self.do_phis(f, base)                       # entry values
        phis = [i[1] for i in f.blocks[H] if i[0] == 'phi']
        init = {('r', d): base.regs[d] for d in phis}
        pcn = len(base.st.pc)
        modified = set()
        hv = {}; ex = []
        # ---- discover modified raw cells and induction variables
        for rnd in range(8):
            q = base.clone(); q.st.tracing = 0
            hv = {}
            for key in list(init):
                h = self.havoc_like(init[key], 'L')
                hv[key] = h if h is not None else (init[key] if isinstance(init[key], (Ptr, Elem, ViewRef, FnPtr, Str, Ghost)) and key[0] == 'r' else Poison('loop-carried'))
                self.set_lv(q, key, hv[key])
            self.discover += 1
            try: arr, cond, o2 = self.one_iteration(f, q, H, loop, outs, ex)
            finally: self.discover -= 1
            if arr is None: raise EngineLimit('loop body never completes')
            new = {}
            for bid, b0 in base.st.mem.items():
                b1 = arr.st.mem.get(bid)
                if b1 is None or b1 is b0: continue
                for o in b1.cells.keys() | b0.cells.keys():
                    x, y = b0.cells.get(o), b1.cells.get(o)
                    key = ('m', bid, o)
                    if key in init: continue
                    if (x is None) != (y is None) or (x is not None and x[0] is not y[0]
                            and not (isz(x[0]) and isz(y[0]) and x[0].eq(y[0])) and not (not isz(x[0]) and not isz(y[0]) and type(x[0]) == type(y[0]) and isinstance(x[0], (int, Fraction, Ptr)) and x[0] == y[0])):
                        new[key] = x[0] if x is not None else (Poison('uninit') if y is None or not (isz(y[0]) or isinstance(y[0], (int, bool, Fraction))) else ('undef', y[0]))
            if not new: break
            for k, v in new.items():
                if isinstance(v, tuple) and v[0] == 'undef':
                    v = self.havoc_like(v[1], 'undef')
                init[k] = v
        else:
            raise EngineLimit('loop effects do not stabilise')
        # ---- induction variables and trip count
        ind = {}
        for key, h in hv.items():
            if not (isz(h) and isint(h)): continue
            nv = self.get_lv(arr, key)
            if nv is None or isinstance(nv, (Poison, Ptr)): continue
            if isint(nv):
                d = simp(zi(nv) - h)
                if isinstance(d, int) and d != 0: ind[key] = d
        # iteration k starts with every induction variable at init + step*k (k >= 0); the trip count is read off the exit condition
        T = None
        k = self.fresh('int', 'k')
        q = base.clone(); q.st.tracing = 0
        for key in init: self.set_lv(q, key, iadd(init[key], imul(ind[key], k)) if key in ind else hv[key])
        q.st.pc.append(k >= 0)
        if self.exec_straight(f, q, f.blocks[H][len(phis):-1]) is None: raise EngineLimit('loop header')
        condz = self.val(q.st, q.regs, ('int', 1), f.blocks[H][-1][2])
        if isz(condz): condz = simp(zb(condz))
        if not inA: condz = b_not(condz)
        if isz(condz) and not any(occurs(hv[k2], condz) for k2 in hv if k2 not in ind and isz(hv[k2])):
            T = trip_count(condz, k, 1, 0, self, base.st)
        if T is None: raise EngineLimit('no trip count for loop in ' + short(f.dem))
        T = simp(T) if isz(T) else T
        if isz(T) and T.decl().kind() != z3.Z3_OP_UNINTERPRETED and any(self.entails(base.st, zi(T) == n) for n in (1, 2)): return None   # exactly so many iterations: executed one by one
        # ---- the generic iteration
        if isz(T):
            nn = self.entails(base.st, zi(T) >= 0)
            if not nn: T = simp(z3.If(zi(T) >= 0, zi(T), z3.IntVal(0)))
        if ex: return self.search(f, base, H, loop, inA, outs, init, ind, hv, T, pcn)
        opaque = {}
        for attempt in range(4):
            kind, res = self.generic(f, base, H, loop, inA, outs, init, ind, hv, k, T, pcn, opaque)
            if kind == 'inv': return res
            if kind == 'done': break
            opaque = res
        else: raise EngineLimit('iterations of a loop over a view are not independent')
        # ---- leave through the header
        insts = f.blocks[H]
        res.blk = H; res.i = len(phis)
        self.exec_straight(f, res, insts[res.i:-1])
        term = insts[-1]
        self.goto(res, term[4] if inA else term[3])
        return [res]

    def search(self, f, base, H, loop, inA, outs, init, ind, hv, T, pcn):
        """a loop left early: iterations that neither leave nor change anything but the counter; the iteration that leaves is the first whose guard holds"""
        phis = [i[1] for i in f.blocks[H] if i[0] == 'phi']
        k = self.havoc(base.st, 'int', 'first')
        q = base.clone()
        for key in init: self.set_lv(q, key, iadd(init[key], imul(ind[key], k)) if key in ind else hv[key])
        q.st.pc += [k >= 0, z3.simplify(k < zi(T))]
        lay0 = dict(q.st.layers); ex = []
        arr, cond, o2 = self.one_iteration(f, q, H, loop, outs, ex)
        if o2 or arr is None: raise EngineLimit('loop with early exit in ' + short(f.dem))
        if any(arr.st.layers[sid] is not l0 for sid, l0 in lay0.items()): raise EngineLimit('loop with early exit writes a view in ' + short(f.dem))
        carried = [h for key, h in hv.items() if key not in ind and isz(h)]
        G = z3.Or(*[zb(b_and(*[c for c in x.st.pc[pcn + 2:] if c is not True])) for x in ex])
        if any(occurs(h, G) for h in carried): raise EngineLimit('loop with early exit carries values in ' + short(f.dem))
        j = self.fresh('int', 'j')
        none = lambda n: z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < zi(n)), z3.Not(z3.substitute(G, (k, j)))))
        for x in ex: x.st.pc.append(none(k))
        res = base.clone()
        for key in init:
            if key in ind: self.set_lv(res, key, iadd(init[key], imul(ind[key], T)))
            elif isz(hv[key]) or isinstance(hv[key], Poison): self.set_lv(res, key, Poison('loop temporary'))
        res.st.pc.append(none(T)); res.st.obl = arr.st.obl
        if res.st.tracing: res.st.reads = arr.st.reads
        insts = f.blocks[H]; res.blk = H; res.i = len(phis)
        self.exec_straight(f, res, insts[res.i:-1])
        self.goto(res, insts[-1][4] if inA else insts[-1][3])
        return ex + [res]

    def generic(self, f, base, H, loop, inA, outs, init, ind, hv, k, T, pcn, opaque):
        q = base.clone(); n_outs = len(outs)
        for sid, fn in opaque.items(): q.st.layers[sid] = Base(fn=fn)
        accs = {}
        for key in init:
            if key in ind: self.set_lv(q, key, iadd(init[key], imul(ind[key], k)))
            else:
                self.set_lv(q, key, hv[key])
                if isz(hv[key]): accs[key] = hv[key]
        q.st.pc += [simp(k >= 0) if True else None, z3.simplify(k < zi(T))]
        q.st.pc = [c for c in q.st.pc if c is not True]
        q.st.tracing = 1; q.st.reads = []; q.st.ks = base.st.ks + (k,)
        lay0 = dict(q.st.layers)
        obl0 = len(q.st.obl)
        arr, cond, o2 = self.one_iteration(f, q, H, loop, outs)
        if arr is None: raise EngineLimit('loop body never completes')
        for o in o2:
            outs.append(o)       # e.g. a throw in some iteration
        throw_guards = []
        for o in o2:
            if o.kind == 'throw' or o.kind == 'abort':
                throw_guards.append(b_and(*o.st.pc[pcn:]))
        # ---- loop-carried scalars
        res = base.clone()
        st = res.st
        accsyms = list(accs.values())
        def pure(e, but=None):
            return not isz(e) or not any(occurs(a, e) for a in accsyms if a is not but)
        for key in init:
            if key in ind:
                self.set_lv(res, key, iadd(init[key], imul(ind[key], T))); continue
            h = hv[key]; nv = self.get_lv(arr, key)
            if isinstance(h, Poison) or not isz(h):
                self.set_lv(res, key, Poison('loop temporary') if not (h is nv) else init[key]); continue
            if isinstance(nv, Poison) or nv is None:
                self.set_lv(res, key, Poison('loop temporary')); continue
            if isz(nv) and nv.eq(h):
                self.set_lv(res, key, init[key]); continue
            if not (isz(nv) and occurs(h, nv)):
                # overwritten every iteration
                if not pure(nv): self.set_lv(res, key, Poison('loop temporary')); continue
                last = subst(nv, [(k, isub(T, 1))])
                c = simp(zi(T) > 0) if isz(T) else T > 0
                r = ite(c, last, init[key]) if not isinstance(init[key], Poison) else (last if c is True else None)
                self.set_lv(res, key, r if r is not None else Poison('loop temporary')); continue
            d = delta(nv, h)
            if d is not None and pure(d):
                init_v = init[key]
                s = self.S.sum(k, T, d)
                self.set_lv(res, key, radd(init_v, s) if isreal(h) else iadd(init_v, s)); continue
            mm = minmax(nv, h, self, arr.st)
            if mm is not None and pure(mm[1]):
                self.set_lv(res, key, self.S.extremum(mm[0], k, T, mm[1], init[key])); continue
            self.set_lv(res, key, Poison('loop-carried value not understood in ' + short(f.dem)))
        # ---- views
        reads = arr.st.reads
        allrecs = []
        mod = [sid for sid, l0 in lay0.items() if arr.st.layers[sid] is not l0]
        if mod and self.invariant is not None and not base.st.tracing and not o2 and set(mod) == set(self.invariant[1]) \
                and self.entails(base.st, zi(T) == zi(self.invariant[0])):
            return ('inv', self.by_invariant(f, base, H, loop, inA, outs, init, ind, hv, k, T, mod))
        if DBG and self.invariant is not None and mod: print('NOINV', mod, set(self.invariant[1]), o2, accs, base.st.tracing, T, self.invariant[0])
        for sid, l0 in lay0.items():
            l1 = arr.st.layers[sid]
            if l1 is l0: continue
            recs = flatten(l1, l0)
            if recs is None: raise EngineLimit('view effects not flat')
            recs = self.prune(recs)
            for r in recs:
                if not all(pure(x) for x in r.idx) or not pure(r.guard): raise EngineLimit('view index depends on loop-carried value')
                if not pure(r.val): raise EngineLimit('view value depends on loop-carried value')
            allrecs += recs
            try: lay = self.view_family(st, sid, l0, recs, k, T, [r for r in reads if r[0] == sid], pcn, arr.st)
            except NotIndependent:
                if sid in opaque or isinstance(base.st.layers[sid], Base) and isinstance(base.st.layers[sid].fn, z3.FuncDeclRef): raise
                # retry with unknown content, so that 'old value plus something' can be told from 'something'
                so = self.storages[sid]; del outs[n_outs:]
                self.nopq = getattr(self, 'nopq', 0) + 1
                opq = dict(opaque); opq[sid] = z3.Function('old!%d' % self.nopq, *([z3.IntSort()] * max(1, len(so.extents)) + [z3.RealSort() if so.sort == 'real' else z3.IntSort()]))
                return ('opaque', opq)
            if sid in opaque:
                if not isinstance(lay, AccFam) and not (isinstance(lay, W) and lay.prev is l0): raise EngineLimit('iterations of a loop over a view are not independent')
                lay = AccFam(base.st.layers[sid], lay.recs) if isinstance(lay, AccFam) else AccFam(base.st.layers[sid], [Rec('acc', [], True, lay.idx, delta(lay.val, read(l0, lay.idx, self.S)))])
                allrecs += [r for r in lay.recs]; allrecs = [r for r in allrecs if r not in recs]
            st.layers[sid] = lay
        if opaque:
            names = {fn.name() for fn in opaque.values()}
            vals = [x for r in allrecs for x in list(r.idx) + [r.guard, r.val]] + [self.get_lv(res, key) for key in init]
            _, ap = consts_of(*[v for v in vals if isz(v)])
            if any(x.decl().name() in names for x in ap): raise EngineLimit('loop reads what it accumulates')
        # reads inside this loop are reads of the enclosing iteration too
        if st.tracing: st.reads = st.reads + reads
        # obligations of the generic iteration
        st.obl = arr.st.obl
        # storages/blocks created in the body are dropped; ghost kept
        for g in throw_guards:
            if isz(g): st.pc.append(z3.ForAll([k], z3.Not(z3.And(k >= 0, k < zi(T), g))))
            elif g is True: st.pc.append(simp(zi(T) <= 0) if isz(T) else T <= 0)
        return ('done', res)

    def by_invariant(self, f, base, H, loop, inA, outs, init, ind, hv, k, T, mod):
        """Hoare rule with the invariant the contract gives: content of every written view after k iterations"""
        inv = self.invariant[1]
        phis = [i[1] for i in f.blocks[H] if i[0] == 'phi']
        st = base.st
        U = {}
        for sid in mod:
            so = self.storages[sid]; self.ninv = getattr(self, 'ninv', 0) + 1
            U[sid] = z3.Function('any!%d' % self.ninv, *([z3.IntSort()] * (1 + len(so.extents)) + [z3.RealSort() if so.sort == 'real' else z3.IntSort()]))
        def content(sid, kk):
            def fn(*idx):
                c, v = inv[sid](kk, *idx)
                return v if c is True else ite(c, v, U[sid](zi(kk), *[zi(i) for i in idx]))
            return Base(fn=fn)
        def claim(stx, sid, kk, what):
            so = self.storages[sid]; N = self.invariant[2].get(sid, 1)
            for w in range(N):          # a one-dimensional view stored in groups of N
                ix = []; h = []
                for d in so.extents:
                    x = self.fresh('int', 'x')
                    if N > 1: h += [x >= 0, z3.simplify(N * x + w < zi(d))]; x = z3.simplify(N * x + w)
                    else: h += [x >= 0, x < zi(d)]
                    ix.append(x)
                c, v = inv[sid](kk, *ix)
                g = eq(read(stx.layers[sid], tuple(ix), self.S), v)
                stx.obl = stx.obl + [Obligation('loop invariant', self.where(), list(stx.pc) + h + ([] if c is True else [c]), g, '%s: %s%s' % (what, so.name, ' (%d of %d)' % (w, N) if N > 1 else ''))]
        self.S.peel.add(k.get_id()); self.S.keep.append(k)
        for sid in mod: claim(st, sid, 0, 'holds on entry')
        q = base.clone()
        for key in init: self.set_lv(q, key, iadd(init[key], imul(ind[key], k)) if key in ind else hv[key])
        q.st.pc += [k >= 0, z3.simplify(k < zi(T))]
        for sid in mod: q.st.layers[sid] = content(sid, k)
        arr, cond, o2 = self.one_iteration(f, q, H, loop, outs)
        if arr is None or o2: raise EngineLimit('loop body under the invariant')
        for sid in arr.st.layers:
            if sid in q.st.layers and sid in base.st.layers and sid not in mod and arr.st.layers[sid] is not base.st.layers[sid]: raise EngineLimit('loop writes a view without an invariant')
        for sid in mod: claim(arr.st, sid, z3.simplify(k + 1), 'kept by an iteration')
        res = base
        for key in init: self.set_lv(res, key, iadd(init[key], imul(ind[key], T)) if key in ind else Poison('loop temporary'))
        for sid in mod: st.layers[sid] = content(sid, T)
        st.obl = arr.st.obl
        insts = f.blocks[H]
        res.blk = H; res.i = len(phis)
        self.exec_straight(f, res, insts[res.i:-1])
        term = insts[-1]
        self.goto(res, term[4] if inA else term[3])
        return [res]

    def prune(self, recs):
        """later writes to the same syntactic index in one iteration supersede earlier ones"""
        out = []
        for i, r in enumerate(recs):
            dead = False
            if True:
                for s in recs[i+1:]:
                    if s.kind == 'set' and not s.bvars and s.guard is True and not r.bvars and len(s.idx) == len(r.idx) and idx_eq(s.idx, r.idx) is True:
                        dead = True; break
                    if s.kind == 'set' and [v.get_id() for v, _ in s.bvars] == [v.get_id() for v, _ in r.bvars] and (s.guard is r.guard or (isz(s.guard) and isz(r.guard) and s.guard.eq(r.guard))) and idx_eq(s.idx, r.idx) is True:
                        dead = True; break
            if not dead: out.append(r)
        return out

    def view_family(self, st, sid, l0, recs, k, T, reads, pcn, stin):
        # an accumulation into an element that does not depend on k: a plain sum
        if all(not r.bvars and not any(isz(x) and occurs(k, x) for x in r.idx) for r in recs):
            byidx = []
            ok = True
            for r in recs:
                if r.kind == 'acc': e = r.val
                else:
                    old = l0.read(r.idx, self.S)
                    e = None
                    if isz(r.val) and isz(old): e = delta(r.val, old)
                    elif isz(r.val) or isz(old):
                        e = None
                    if e is not None and isz(e) and occurs(old, e): e = None
                if e is None: ok = False; break
                byidx.append((r.idx, ite(r.guard, e, Fraction(0) if isreal(e) else 0)))
            if ok and len(recs) == 1:
                idx, e = byidx[0]
                s = self.S.sum(k, T, e)
                old = l0.read(idx, self.S)
                return W(l0, idx, radd(old, s) if isreal(s) else iadd(old, s))
            # constant overwritten?  handled below by the general rule (which will fail)
        newrecs = [Rec(r.kind, [(k, T)] + list(r.bvars), r.guard, r.idx, r.val) for r in recs]
        if self.discover: return Fam(l0, k, T, newrecs)     # trial iteration: only the set of written cells is used
        ok = True
        rng = [k >= 0, k < zi(T)]
        # rename copy of the writes
        k2 = self.fresh('int', 'k')
        for w in newrecs:
            ren = [(k, k2)] + [(v, self.fresh('int', 'b')) for v, _ in w.bvars[1:]]
            def rn(e): return subst(e, ren) if isz(e) else e
            wr = [k2 >= 0, k2 < zi(T)]
            for v, TT in w.bvars[1:]:
                vv = rn(v); wr += [vv >= 0, vv < zi(rn(TT))]
            wg = rn(w.guard)
            widx = [rn(x) for x in w.idx]
            for (rs, ridx, rl, rpc) in reads:
                c = idx_eq(ridx, widx)
                if c is False: continue
                fs = list(rpc[pcn:])
                if self.check2(st, rng + wr + [k != k2, wg, c] + fs) != 'unsat':
                    if DBG: print('READ', ridx, 'WRITE', widx, wg, self.where(), [str(x) for x in fs])
                    ok = False; break
            if not ok: break
            for w1 in newrecs:
                c = idx_eq(w1.idx, widx)
                if c is False: continue
                r1 = []
                for v, TT in w1.bvars[1:]: r1 += [v >= 0, v < zi(TT)]
                if self.check2(st, rng + wr + r1 + [k != k2, wg, w1.guard, c]) != 'unsat':
                    if DBG: print('WRITE', w1.idx, w1.guard, 'WRITE', widx, wg, self.where())
                    ok = False; break
            if not ok: break
        if ok:
            return Fam(l0, k, T, newrecs)
        # accumulation family
        out = []
        for r in newrecs:
            if r.kind == 'acc': out.append(r); continue
            old = l0.read(r.idx, self.S)
            e = delta(r.val, old) if isz(r.val) and isz(old) else None
            if e is None or (isz(e) and occurs(old, e)): raise NotIndependent('iterations of a loop over a view are not independent')
            # the only reads of this view may be the accumulated element itself
            out.append(Rec('acc', r.bvars, r.guard, r.idx, e))
        for r in out:
            for (rs, ridx, rl, rpc) in reads:
                if not any(idx_eq(ridx, o.idx) is True for o in out): raise EngineLimit('loop reads what it accumulates')
            if isz(r.val):
                _, apps = consts_of(r.val)
                b = l0
                while b.prev is not None: b = b.prev
                if isinstance(b, Base) and isinstance(b.fn, z3.FuncDeclRef) and any(a.decl().eq(b.fn) for a in apps) and not isinstance(l0, Base):
                    raise EngineLimit('accumulated value reads the accumulated view')
        return AccFam(l0, out)

    def check2(self, st, fs):
        if any(f is False for f in fs): return 'unsat'
        return self.check(st, *[f for f in fs if f is not True])

    def set_lv(self, p, key, v):
        if key[0] == 'r': p.regs[key[1]] = v
        else:
            b = p.st.wblock(key[1])
            old = b.cells.get(key[2])
            size = old[1] if old is not None else (8 if isreal(v) else 4)
            if isinstance(v, Poison) and old is None: return
            b.cells[key[2]] = (v, size)

    def get_lv(self, p, key):
        if key[0] == 'r': return p.regs.get(key[1])
        b = p.st.mem.get(key[1])
        c = b.cells.get(key[2]) if b else None
        return c[0] if c else None

# ------------------------------------------------------------------ helpers
def wrap(v, n):
    v &= (1 << n) - 1
    return v - (1 << n) if v >= (1 << (n - 1)) and n > 1 else v

def boolish(v):
    """z3 Int of the form If(b,1,0) -> b"""
    if isinstance(v, bool): return v
    if isinstance(v, int): return bool(v) if v in (0, 1) else None
    if isinstance(v, z3.BoolRef): return v
    if isz(v) and z3.is_app(v) and v.decl().kind() == z3.Z3_OP_ITE:
        a, b = back(v.arg(1)), back(v.arg(2))
        if a == 1 and b == 0 and not isz(a) and not isz(b): return v.arg(0)
        if a == 0 and b == 1 and not isz(a) and not isz(b): return z3.Not(v.arg(0))
        ba, bb = boolish(a), boolish(b)
        if ba is not None and bb is not None: return z3.If(v.arg(0), zb(ba), zb(bb))
    return None

def short(d):
    if d is None: return '?'
    # drop template arguments and parameters
    out = []; dep = 0
    for ch in d:
        if ch == '<': dep += 1
        elif ch == '>': dep = max(0, dep - 1)
        elif dep == 0: out.append(ch)
    s = ''.join(out)
    s = s.split('(')[0] if not s.startswith('(') else s
    return s.split(' ')[-1] if s.strip() else d[:60]

def deepset(v, idx, x):
    v = list(v)
    if len(idx) == 1: v[idx[0]] = x
    else: v[idx[0]] = deepset(v[idx[0]], idx[1:], x)
    return v

def delta(nv, h):
    """nv = h + d with d free of h; None if not of that form"""
    real = isreal(h)
    def rec(e):
        if not isz(e) or not occurs(h, e): return None
        if e.eq(h): return Fraction(0) if real else 0
        kind = e.decl().kind()
        ch = e.children()
        if kind == z3.Z3_OP_ADD:
            w = [c for c in ch if occurs(h, c)]
            if len(w) != 1: return None
            d = rec(w[0])
            if d is None: return None
            for c in ch:
                if c is not w[0] and not c.eq(w[0]): d = radd(d, back(c)) if real else iadd(d, back(c))
            return d
        if kind == z3.Z3_OP_SUB and len(ch) == 2:
            if occurs(h, ch[1]): return None
            d = rec(ch[0])
            if d is None: return None
            return rsub(d, back(ch[1])) if real else isub(d, back(ch[1]))
        if kind == z3.Z3_OP_ITE:
            if occurs(h, ch[0]): return None
            a, b = rec(ch[1]), rec(ch[2])
            if a is None or b is None: return None
            return ite(ch[0], a, b)
        return None
    d = rec(nv)
    if d is None:
        d = simp(nv - h)
        if isz(d) and occurs(h, d):
            d = back(z3.simplify(nv - h, som=True))
            if isz(d) and occurs(h, d): return None
    return d

def minmax(nv, h, eng, st):
    if not isreal(h): return None
    cands = []
    def leaves(e):
        if isz(e) and z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ITE:
            leaves(e.arg(1)); leaves(e.arg(2))
        else: cands.append(e)
    leaves(nv)
    cands = [c for c in cands if not occurs(h, c)]
    for c in cands[:3]:
        for kind, e in (('max', z3.If(c > h, c, h)), ('min', z3.If(c < h, c, h))):
            if eng.entails(st, nv == e): return kind, c
    return None

def trip_count(cond, h, c, init, eng, st):
    """number of iterations while cond(h) holds, h = init + c*k"""
    # find B with cond <=> h < B (c > 0) or h > B (c < 0)
    neg = False
    e = cond
    while z3.is_not(e):
        e = e.arg(0); neg = not neg
    if not z3.is_app(e): return None
    kd = e.decl().kind()
    ops = {z3.Z3_OP_LE: 'le', z3.Z3_OP_LT: 'lt', z3.Z3_OP_GE: 'ge', z3.Z3_OP_GT: 'gt', z3.Z3_OP_EQ: 'eq', z3.Z3_OP_DISTINCT: 'ne'}
    if kd == z3.Z3_OP_ITE or kd not in ops: return None
    op = ops[kd]
    if neg: op = {'le': 'gt', 'lt': 'ge', 'ge': 'lt', 'gt': 'le', 'eq': 'ne', 'ne': 'eq'}[op]
    d = simp(e.arg(0) - e.arg(1))     # d op 0
    l = linear(d, h)
    if l is None: return None
    a, b = l                          # a*h + b op 0
    if a < 0:
        a = -a; b = isub(0, b); op = {'le': 'ge', 'lt': 'gt', 'ge': 'le', 'gt': 'lt'}.get(op, op)
    if a == 0: return None
    if a != 1:
        if op == 'lt': nb = simp((zi(isub(0, b)) + (a - 1)) / a)     # h < ceil(-b/a)
        elif op == 'le': nb = simp(zi(isub(0, b)) / a)               # h <= floor(-b/a)
        elif op == 'ne' and eng.entails(st, zi(b) % a == 0): nb = simp(zi(isub(0, b)) / a)
        else: return None
    else:
        nb = isub(0, b)               # h op nb
    if c > 0:
        if op == 'lt': B = nb
        elif op == 'le': B = iadd(nb, 1)
        elif op == 'ne':
            if c != 1 or not eng.entails(st, zi(init) <= zi(nb)): return None
            B = nb
        else: return None
        n = isub(B, init)
    else:
        if op == 'gt': B = nb
        elif op == 'ge': B = isub(nb, 1)
        elif op == 'ne':
            if c != -1 or not eng.entails(st, zi(init) >= zi(nb)): return None
            B = nb
        else: return None
        n = isub(init, B)
    c = abs(c)
    if c == 1: return n
    return simp((zi(n) + (c - 1)) / c)
