"""Contracts: one Python text per function, interpreted over three domains
   symbolic  - every size, every value (the proof)
   bounded   - fixed small sizes, every value (counterexample search when the proof does not go through)
   native    - concrete inputs run through the compiled code (replay)"""
import itertools, math, random, z3
from fractions import Fraction
import sym, intercept, ir
from terms import *
from views import *

REG = []
class Contract:
    def __init__(self, prop, name, tu, body, **opt):
        self.prop = prop; self.name = name; self.tu = tu; self.body = body; self.opt = opt
    @property
    def id(self): return '%s/%s' % (self.prop, self.name)

def contract(prop, name, tu, **opt):
    def d(f):
        REG.append(Contract(prop, name, tu, f, **opt)); return f
    return d

class Reject(Exception): pass

class Arg:
    pass
class VArg(Arg):
    def __init__(self, c, name, dims, sort, null=False):
        self.c = c; self.name = name; self.dims = dims; self.sort = sort; self.null = null
    def __call__(self, *idx): return self.c.old(self, idx)
class SArg(Arg):
    def __init__(self, name, sort, v): self.name = name; self.sort = sort; self.v = v

class Base_:
    """common part of the contract language"""
    def __init__(self):
        self.reqs = []; self.ens = []; self.modset = set(); self.thr = None; self.target = None; self.ret = 'void'; self.args = []
        self.views = []; self.mayabort = False; self.inv = None; self.hintf = None
    def vec(self, name, n): return self.view(name, [n])
    def modifies(self, *vs): self.modset |= {v.name for v in vs}
    def call(self, fn, *args, ret='void'): self.target = fn; self.args = list(args); self.ret = ret
    def invariant(self, n, groups={}, **views): self.inv = (n, views, groups)
    def hint(self, f):
        """f(index, ranges): candidate values of the bound variables of a quantified write, one list per bound variable; only a help for the prover"""
        def h(rec, idx):
            cs = f(idx, [T for _, T in rec.bvars])
            return [[(v, t) for (v, _), t in zip(rec.bvars, pick)] for pick in itertools.product(*cs)] if cs else []
        self.hintf = h
    def rowarg(self, T, R):
        """i when T is R(i+1) - R(i)"""
        if not isz(T): return None
        _, apps = consts_of(T)
        args = [a.arg(0) for a in apps if a.decl().eq(R.layer0.fn)]
        for x in args:
            for y in args:
                d = simp(y - x)
                if isinstance(d, int) and d == 1: return x
        return None
    def throws_iff(self, cond): self.thr = cond
    def may_throw(self): self.thr = 'any'
    def ensure(self, name, f): self.ens.append((name, [], f))
    def ensure_all(self, name, dims, f): self.ens.append((name, dims, f))
    def q(self, a, b=1): return Fraction(a, b)

# ------------------------------------------------------------------ symbolic / bounded
class SymC(Base_):
    def __init__(self, eng, sizes=None):
        super().__init__()
        self.e = eng; self.st = eng.initial.clone(); self.sizes = sizes; self.hyps = []
        self.inputs = {}
        self.native = False
    # declarations
    def size(self, name, lo=1, small=(1, 2, 3), gen=None):
        if self.sizes is not None:
            v = self.sizes.setdefault(name, small[0]); self.inputs[name] = v; return v
        n = z3.Int(name); self.hyps.append(n >= lo); self.inputs[name] = n
        return n
    def real(self, name, lo=None, hi=None, nz=False, special=False, gen=None):
        x = z3.Real(name); self.inputs[name] = x
        if lo is not None: self.hyps.append(x >= zr(lo))
        if hi is not None: self.hyps.append(x <= zr(hi))
        if nz: self.hyps.append(x != 0)
        if not special: self.hyps.append(ISFIN(x))
        return x
    def int(self, name, lo=None, hi=None, gen=None):
        x = z3.Int(name); self.inputs[name] = x
        if lo is not None: self.hyps.append(x >= zi(lo))
        if hi is not None: self.hyps.append(x <= zi(hi))
        return x
    def bool(self, name):
        x = z3.Bool(name); self.inputs[name] = x; return x
    def view(self, name, dims, sort='real', lo=None, hi=None, gen=None):
        dims = list(dims)
        v = VArg(self, name, dims, sort)
        rng = z3.RealSort() if sort == 'real' else z3.IntSort()
        if all(isinstance(d, int) for d in dims):
            mk = z3.Real if sort == 'real' else z3.Int
            cont = {}
            for idx in itertools.product(*[range(d) for d in dims]):
                nm = '%s[%s]' % (name, ','.join(map(str, idx))); x = mk(nm); cont[idx] = x; self.inputs[nm] = x
                if lo is not None: self.hyps.append(x >= z(lo))
                if hi is not None: self.hyps.append((x <= z(hi)) if sort == 'real' else (x < zi(hi)))
            layer = Base(fn=cont, const=Fraction(0) if sort == 'real' else 0)
        else:
            fn = z3.Function(name, *([z3.IntSort()] * len(dims) + [rng]))
            layer = Base(fn=fn)
            if lo is not None or hi is not None:
                vs = [z3.Int('q!%d' % i) for i in range(len(dims))]
                g = z3.And(*[z3.And(q >= 0, q < zi(d)) for q, d in zip(vs, dims)])
                cs = []
                if lo is not None: cs.append(fn(*vs) >= z(lo))
                if hi is not None: cs.append((fn(*vs) <= z(hi)) if sort == 'real' else (fn(*vs) < zi(hi)))
                self.hyps.append(z3.ForAll(vs, z3.Implies(g, z3.And(*cs)), patterns=[fn(*vs)]))
        ref = self.e.new_view(self.st, name, dims, sort, layer)
        v.sid = ref.sid; v.layer0 = layer
        v.ptr = self.e.alloc(self.st, 24, name); intercept.setview(self.e, self.st, v.ptr, ref)
        self.views.append(v)
        return v
    def iview(self, name, dims, lo=None, hi=None, gen=None): return self.view(name, dims, 'int', lo, hi, gen)
    def outview(self, name, rank, sort='real'):
        """an unallocated view the callee assigns"""
        v = VArg(self, name, [0] * rank, sort, null=True)
        v.ptr = self.e.alloc(self.st, 24, name); intercept.setview(self.e, self.st, v.ptr, intercept.nullview(sort, rank))
        v.sid = None
        return v
    def pick(self, name, gen): raise EngineLimit('native only')
    def text(self, s):
        p = intercept.newcstr(self.e, self.st, s); a = SArg('text', 'ptr', p); return a
    def requires(self, c): 
        if c is not True: self.hyps.append(zb(c))
    def requires_all(self, dims, f, pat=None):
        if all(isinstance(d, int) for d in dims):
            for idx in itertools.product(*[range(d) for d in dims]):
                c = f(*idx)
                if c is not True: self.hyps.append(zb(c))
            return
        vs = [z3.Int('q!%d' % i) for i in range(len(dims))]
        g = z3.And(*[z3.And(q >= 0, q < zi(d)) for q, d in zip(vs, dims)])
        body = z3.Implies(g, zb(f(*vs)))
        self.hyps.append(z3.ForAll(vs, body, patterns=[pat(*vs)]) if pat else z3.ForAll(vs, body))
    def gen(self, *a, **k): pass
    def ghost(self, name, arity, native=None):
        """a mathematical function used in the specification only; its facts are given by requires_all"""
        f = z3.Function(name, *([z3.IntSort()] * (arity + 1))); return lambda *i: f(*[zi(x) for x in i])
    def assume_all(self, vs, f, pats):
        """facts about ghost functions for every integer"""
        q = [z3.Int('q!%d' % i) for i in range(vs)]
        if self.sizes is not None: self.hyps.append(z3.ForAll(q, zb(f(*q)))); return
        self.hyps.append(z3.ForAll(q, zb(f(*q)), patterns=[z3.MultiPattern(*p) if isinstance(p, list) else p for p in pats(*q)]))
    def native_only(self, why): raise EngineLimit('outside the verifier: ' + why)
    # terms
    def old(self, v, idx): return read(v.layer0, tuple(idx), self.e.S)
    def If(self, c, a, b):
        if isinstance(c, bool): return a if c else b
        a = Fraction(a) if isinstance(a, (int, float)) and (isreal(b) or isinstance(b, float)) else a
        b = Fraction(b) if isinstance(b, (int, float)) and isreal(a) else b
        return ite(c, a, b)
    def And(self, *x): return b_and(*x)
    def Or(self, *x): return b_or(*x)
    def Not(self, x): return b_not(x)
    def implies(self, a, b): return b_or(b_not(a), b)
    def eq(self, a, b):
        if isbool(a) and isbool(b):
            if not isz(a) and not isz(b): return a == b
            return zb(a) == zb(b)
        if not isz(a) and not isz(b): return a == b
        if isint(a) and isint(b): return zi(a) == zi(b)
        return zr(a) == zr(b)
    def _cmp(self, a, b, f):
        if not isz(a) and not isz(b): return f(a, b)
        if isint(a) and isint(b): return f(zi(a), zi(b))
        return f(zr(a), zr(b))
    def le(self, a, b): return self._cmp(a, b, lambda x, y: x <= y)
    def lt(self, a, b): return self._cmp(a, b, lambda x, y: x < y)
    def ge(self, a, b): return self._cmp(a, b, lambda x, y: x >= y)
    def gt(self, a, b): return self._cmp(a, b, lambda x, y: x > y)
    def ne(self, a, b): return b_not(self.eq(a, b))
    def sum(self, n, f):
        if isinstance(n, int):
            r = Fraction(0)
            for i in range(n): r = r + f(i)
            return r
        k = self.e.fresh('int', 'k')
        nn = n if self.e.entails(self.st_h(), zi(n) >= 0) else simp(z3.If(zi(n) >= 0, zi(n), z3.IntVal(0)))
        b = f(k)
        return self.e.S.sum(k, nn, b if isz(b) else (Fraction(b)))
    def st_h(self):
        s = self.st.clone(); s.pc = s.pc + [h for h in self.hyps if not z3.is_quantifier(h)]; return s
    def maxof(self, n, f, init=None): return self._ext('max', n, f, init)
    def minof(self, n, f, init=None): return self._ext('min', n, f, init)
    def _ext(self, kind, n, f, init):
        if isinstance(n, int):
            r = init
            for i in range(n):
                t = f(i)
                r = t if r is None else (z3.If(zr(t) > zr(r), zr(t), zr(r)) if kind == 'max' else z3.If(zr(t) < zr(r), zr(t), zr(r)))
            return r
        k = self.e.fresh('int', 'k')
        if init is None: return self.e.S._mk(kind, k, n, z(f(k)), True)
        return self.e.S.extremum(kind, k, n, f(k), init)
    def real_of(self, i): return zr(i) if isz(i) else Fraction(i)
    def abs(self, x): return f_abs(x if isreal(x) else Fraction(x))
    def sqrt(self, x): return f_sqrt(x if isreal(x) else Fraction(x))
    def pow(self, x, p): return f_pow(x if isreal(x) else Fraction(x), p if isz(p) else Fraction(p))
    def fn(self, name, *a): return f_uf(name)(a[0]) if len(a) == 1 else uf(name, *a)
    def max2(self, a, b): return self.If(self.ge(a, b), a, b)
    def min2(self, a, b): return self.If(self.le(a, b), a, b)
    def isfinite(self, x): return intercept.isfinite(x)
    def num(self, x): return ir.fp_const(x) if isinstance(x, float) else Fraction(x)
    def mod(self, a, b): return a % b if isinstance(a, int) and isinstance(b, int) else divmod_simp(simp(zi(a) % zi(b)))
    def div(self, a, b): return a // b if isinstance(a, int) and isinstance(b, int) else divmod_simp(simp(zi(a) / zi(b)))

    # execution
    def obligations(self):
        """run the code; list of (name, hyps, goal)"""
        e = self.e
        e.extra_hyps = [h for h in self.hyps if z3.is_quantifier(h)]
        st = self.st
        st.pc = [h for h in self.hyps if not z3.is_quantifier(h)]
        f = e.m.funcs.get('@' + self.target)
        if f is None: raise EngineLimit('no harness function ' + self.target)
        av = []
        for a in self.args:
            if isinstance(a, VArg): av.append(a.ptr)
            elif isinstance(a, SArg): av.append(a.v)
            elif isinstance(a, (int, Fraction)) or isz(a): av.append(a)
            else: raise EngineLimit('argument %r' % (a,))
        e.m.parse_func(f)
        for i, (nm, t, info) in enumerate(f.params):
            if t[0] == 'fp' and isinstance(av[i], int): av[i] = Fraction(av[i])
        e.invariant = None; e.S.hint = self.hintf
        if self.inv is not None and self.sizes is None:
            vs = {v.name: v for v in self.views}
            e.invariant = (self.inv[0], {vs[n].sid: fn for n, fn in self.inv[1].items()}, {vs[n].sid: g for n, g in self.inv[2].items()})
        outs = e.run_function(f, av, st.clone())
        obl = []
        nret = 0
        for o in outs:
            hy = list(o.st.pc)
            for ob in o.st.obl: obl.append(('%s: %s (%s)' % (ob.kind, ob.info, ob.where), ob.hyps, ob.goal))
            if o.kind == 'ret':
                nret += 1
                if self.thr is not None and not isinstance(self.thr, str): obl.append(('throws exactly when specified', hy, b_not(self.thr)))
                r = SymR(self, o)
                for nm, dims, fn in self.ens:
                    if not dims:
                        obl.append((nm, hy, fn(r))); continue
                    if all(isinstance(d, int) for d in dims):
                        for idx in itertools.product(*[range(d) for d in dims]):
                            obl.append(('%s%s' % (nm, list(idx)), hy, fn(r, *idx)))
                    else:
                        # concrete dimensions enumerated, symbolic ones skolemised
                        for idx in itertools.product(*[range(d) if isinstance(d, int) else [None] for d in dims]):
                            h2 = list(hy); ix = []
                            for x, d in zip(idx, dims):
                                if x is None:
                                    x = e.fresh('int', 'i'); h2 += [x >= 0, x < zi(d)]
                                ix.append(x)
                            lab = nm + str([x if isinstance(x, int) else '*' for x in ix])
                            obl.append((lab, h2, fn(r, *ix)))
                # frame
                for v in self.views:
                    if v.name in self.modset: continue
                    if o.st.layers[v.sid] is v.layer0: continue
                    h2 = list(hy); ix = []
                    for d in v.dims:
                        x = e.fresh('int', 'i'); h2 += [x >= 0, x < zi(d)]; ix.append(x)
                    obl.append(('frame: %s unchanged' % v.name, h2, eq(read(o.st.layers[v.sid], tuple(ix), e.S), read(v.layer0, tuple(ix), e.S))))
            elif o.kind == 'throw':
                if isinstance(self.thr, str): continue
                obl.append(('no exception' if self.thr is None else 'throws exactly when specified', hy, False if self.thr is None else self.thr))
            else:
                if self.mayabort: continue
                obl.append(('no abort (%s)' % (o.val,), hy, False))
        self.nret = nret
        # vacuity guards: a contract that no input meets, or whose postconditions no outcome reaches, decides nothing
        if self.ens and nret == 0: raise EngineLimit('vacuous: no outcome returns normally')
        sv = z3.Solver(); sv.set('timeout', 2000); sv.add(*[zb(h) for h in self.hyps])
        if sv.check() == z3.unsat: raise EngineLimit('vacuous: contradictory preconditions')
        return obl

class SymR:
    """result of one outcome"""
    def __init__(self, c, o):
        self.c = c; self.o = o; self.value = o.val
        if c.ret == 'bool':
            v = o.val
            self.value = v if isbool(v) else (bool(v) if isinstance(v, int) else (sym.boolish(v) if sym.boolish(v) is not None else zi(v) != 0))
    def ref(self, v): return intercept.getview(self.c.e, self.o.st, v.ptr)
    def new(self, v, *idx):
        ref = self.ref(v)
        if ref.sid is None: raise EngineLimit('result view unallocated')
        return read(self.o.st.layers[ref.sid], ref.index(list(idx)), self.c.e.S)
    def ext(self, v, d): return self.ref(v).extents[d]

# ------------------------------------------------------------------ native
class NatC(Base_):
    def __init__(self, rng=None, vals=None, big=False):
        super().__init__()
        self.rng = rng or random.Random(0); self.vals = dict(vals or {}); self.native = True; self.inputs = {}
        self.gens = {}; self.big = 1 + self.rng.randrange(5) if big else 0; self.nsize = 0; self.cells = 0
        self.ok = True
        self.wild = self.rng.random() < 0.15
    def _v(self, name, draw):
        if name in self.vals: v = self.vals[name]
        else: v = draw()
        self.inputs[name] = v
        return v
    def size(self, name, lo=1, small=(1, 2, 3), gen=None):
        def d():
            if gen: return gen(self.rng)
            self.nsize += 1
            if self.big == self.nsize: return self.rng.choice([16, 17, 33, 64, 65, 100, 129, 257, 513, 1025])
            return max(lo, self.rng.choice(list(small) + ([4, 5, 7] if not self.big else [])))
        return self._v(name, d)
    def draw_real(self, lo, hi, nz=False):
        r = self.rng
        for _ in range(20):
            if lo is not None and hi is not None:
                lo_, hi_ = float(lo), float(hi)
                x = r.choice([lo_, hi_, (lo_ + hi_) / 2] + [lo_ + (hi_ - lo_) * r.randrange(0, 257) / 256.0] * 5)
            elif lo is not None: x = float(lo) + r.choice([0.0, 0.25, 1.0, r.randrange(1, 4096) / 512.0, r.randrange(1, 4096) / 64.0, r.randrange(1, 4096) / 512.0])
            elif hi is not None: x = float(hi) - r.choice([0.0, 0.25, 1.0, r.randrange(1, 4096) / 512.0, r.randrange(1, 4096) / 64.0])
            else:
                x = r.choice([0.0, 1.0, -1.0] + [r.randrange(-2048, 2049) / 256.0] * 6 + [r.randrange(-64, 65) * 1.0])
            if not (nz and x == 0): return x
        return x
    def real(self, name, lo=None, hi=None, nz=False, special=False, gen=None):
        def d():
            if gen: return float(gen(self.rng))
            if special and self.rng.random() < 0.15: return self.rng.choice([float('nan'), float('inf'), float('-inf')])
            return self.draw_real(lo, hi, nz)
        x = float(self._v(name, d))
        if math.isfinite(x) and ((lo is not None and x < float(lo) - 0) or (hi is not None and x > float(hi)) or (nz and x == 0)): raise Reject()
        return x
    def int(self, name, lo=None, hi=None, gen=None):
        x = self._v(name, lambda: gen(self.rng) if gen else self.rng.randint(lo if lo is not None else -5, hi if hi is not None else (lo if lo is not None else 0) + 6))
        if (lo is not None and x < lo) or (hi is not None and x > hi): raise Reject()
        return x
    def bool(self, name): return bool(self._v(name, lambda: self.rng.random() < .5))
    def view(self, name, dims, sort='real', lo=None, hi=None, gen=None):
        v = VArg(self, name, list(dims), sort)
        v.data = {}
        tot = 1
        for d in dims: tot *= d
        self.cells += tot
        if self.cells > 20000: raise Reject()
        if gen is not None and not any(k.startswith(name + '[') for k in self.vals):
            flat = gen(self.rng, dims)
            for idx in itertools.product(*[range(d) for d in dims]): v.data[idx] = flat[idx] if isinstance(flat, dict) else flat[idx[0]]
        for idx in itertools.product(*[range(d) for d in dims]):
            nm = '%s[%s]' % (name, ','.join(map(str, idx)))
            if idx in v.data: x = v.data[idx]; self.inputs[nm] = x
            elif sort == 'real': x = float(self._v(nm, lambda: self.draw_real(lo, hi)))
            else:
                if lo is not None and hi is not None and hi <= lo: raise Reject()
                x = int(self._v(nm, lambda: self.rng.randrange(lo if lo is not None else -3, hi if hi is not None else 8)))
            if (lo is not None and x < float(lo)) or (hi is not None and (x > float(hi) if sort == 'real' else x >= hi)): raise Reject()
            v.data[idx] = x
        self.views.append(v)
        return v
    def iview(self, name, dims, lo=None, hi=None, gen=None): return self.view(name, dims, 'int', lo, hi, gen)
    def outview(self, name, rank, sort='real'):
        v = VArg(self, name, [0] * rank, sort, null=True); v.data = {}; self.views.append(v); return v
    def text(self, s): return SArg('text', 'text', s)
    def pick(self, name, gen): return self._v(name, lambda: gen(self.rng))
    def ghost(self, name, arity, native=None): return native
    def assume_all(self, vs, f, pats): pass
    def native_only(self, why): pass
    def requires(self, c):
        if not c: raise Reject()
    def requires_all(self, dims, f, pat=None):
        for idx in itertools.product(*[range(d) for d in dims]):
            if not f(*idx): raise Reject()
    def old(self, v, idx):
        x = v.data.get(tuple(int(i) for i in idx))
        if x is None: raise Reject()
        return x
    def If(self, c, a, b): return a if c else b
    def And(self, *x): return all(x)
    def Or(self, *x): return any(x)
    def Not(self, x): return not x
    def implies(self, a, b): return (not a) or b
    def tol(self, a, b): return 1e-7 * (1 + max(abs(a), abs(b)))
    def eq(self, a, b):
        if isinstance(a, bool) or isinstance(b, bool): return bool(a) == bool(b)
        if isinstance(a, int) and isinstance(b, int): return a == b
        a = float(a); b = float(b)
        if not math.isfinite(b) or not math.isfinite(a): return (a == b) or not math.isfinite(b)
        return abs(a - b) <= self.tol(a, b)
    def le(self, a, b): 
        if isinstance(a, int) and isinstance(b, int): return a <= b
        a = float(a); b = float(b)
        if math.isnan(a) or math.isnan(b): return False
        return a <= b or abs(a - b) <= self.tol(a, b)
    def ge(self, a, b): return self.le(b, a)
    def lt(self, a, b): return self._strict(a, b)
    def gt(self, a, b): return self._strict(b, a)
    def _strict(self, a, b): return a < b
    def ne(self, a, b): return a != b
    def sum(self, n, f):
        r = 0.0
        for i in range(int(n)): r = r + f(i)
        return r
    def maxof(self, n, f, init=None):
        xs = ([] if init is None else [init]) + [f(i) for i in range(n)]; return max(xs)
    def minof(self, n, f, init=None):
        xs = ([] if init is None else [init]) + [f(i) for i in range(n)]; return min(xs)
    def real_of(self, i): return float(i)
    def abs(self, x): return abs(x)
    def sqrt(self, x): return math.sqrt(x) if x >= 0 else float('nan')
    def pow(self, x, p):
        try: r = float(x) ** float(p)
        except (OverflowError, ZeroDivisionError): return float('inf')
        return r if not isinstance(r, complex) else float('nan')
    def fn(self, name, *a):
        if name == 'atan2': return math.atan2(*a)
        try: return getattr(math, name)(*a)
        except (OverflowError, ValueError): return float('nan')
    def max2(self, a, b): return max(a, b)
    def min2(self, a, b): return min(a, b)
    def isfinite(self, x): return math.isfinite(x)
    def num(self, x): return float(x)
    def mod(self, a, b): return a % b
    def div(self, a, b): return a // b
    # marshalling
    def case(self):
        out = {'fn': self.target, 'ret': self.ret, 'args': []}
        for a in self.args:
            if isinstance(a, VArg):
                dims = [int(d) for d in a.dims]
                flat = [] if a.null else [a.data[i] for i in itertools.product(*[range(d) for d in dims])]
                out['args'].append({'view': a.name, 'rank': len(dims), 'dims': dims, 'sort': a.sort, 'null': a.null, 'data': flat})
            elif isinstance(a, SArg): out['args'].append({'text': a.v})
            elif isinstance(a, bool): out['args'].append({'int': int(a)})
            elif isinstance(a, int): out['args'].append({'int': a})
            else: out['args'].append({'real': float(a)})
        return out
    def judge(self, res):
        """None if the contract holds on this run, else the name of the failed clause"""
        k = res['kind']
        if k == 'abort': return None if self.mayabort else 'no abort: ' + res.get('msg', '')
        if k == 'throw':
            if isinstance(self.thr, str): return None
            if self.thr is None: return 'no exception'
            return None if self.thr else 'throws exactly when specified'
        if self.thr is not None and not isinstance(self.thr, str) and self.thr: return 'throws exactly when specified'
        r = NatR(self, res)
        for nm, dims, f in self.ens:
            for idx in itertools.product(*[range(int(d)) for d in dims]):
                try:
                    if not f(r, *idx): return nm + (str(list(idx)) if idx else '')
                except KeyError: return nm + str(list(idx)) + ' (result has no such element)'
                except Reject: raise
        for v in self.views:
            if v.name in self.modset or v.null or v.name not in r.views: continue
            for i, x in v.data.items():
                y = r.views[v.name][1].get(i)
                if y is None or (x != y and not (x != x and y != y)): return 'frame: %s unchanged' % v.name
        return None

class NatR:
    def __init__(self, c, res):
        self.c = c; self.views = {}
        v = res.get('value')
        self.value = bool(v) if c.ret == 'bool' else v
        for nm, x in res['views'].items():
            d = dict(zip(itertools.product(*[range(k) for k in x['dims']]), x['data']))
            self.views[nm] = (x['dims'], d)
    def new(self, v, *idx): return self.views[v.name][1][tuple(int(i) for i in idx)]
    def ext(self, v, d): return self.views[v.name][0][d]
