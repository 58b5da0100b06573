"""Ghost model of Kokkos view contents: persistent write layers over index tuples, quantified families and sums."""
import z3
from terms import *

class Sums:
    """Sum_{k=0}^{T-1} body(k), Max_{..}, inverse indices: uninterpreted applications with a definition table."""
    def __init__(self):
        self.n = 0
        self.bound = None   # bounded search only: sums of unknown length are cut at this length
        self.table = {}     # decl name -> (kind, params, k, T, body)
        self.hint = None; self.peel = set(); self.keep = []   # counters k >= 0 for which Sum_{j<k+1} is split into Sum_{j<k} and the last term
        self.axioms = []    # quantified facts about inverse functions

    def _mk(self, kind, k, T, body, real):
        free, _ = consts_of(zi(T), z(body))
        free.pop(k.decl().name(), None)
        params = [free[n] for n in sorted(free)]
        self.n += 1
        name = '%s!%d' % (kind, self.n)
        d = z3.Function(name, *([p.sort() for p in params] + [z3.RealSort() if real else z3.IntSort()])) if params else None
        app = d(*params) if params else (z3.Real(name) if real else z3.Int(name))
        self.table[name] = (kind, params, k, zi(T), z(body))
        return app

    def sum(self, k, T, body):
        real = isreal(body)
        zero = Fraction(0) if real else 0
        body = simp(body) if isz(body) else body
        if not isz(body) and body == 0: return zero
        T = simp(T) if isz(T) else T
        if isz(T) and z3.is_app(T) and T.decl().kind() == z3.Z3_OP_ITE and z3.is_int_value(T.arg(2)) and T.arg(2).as_long() == 0 and z3.simplify(T.arg(0) == (T.arg(1) >= 0)).eq(z3.BoolVal(True)):
            T = T.arg(1)        # a sum over a negative range is empty
        if isinstance(T, int):
            if T <= 0: return zero
            if T <= 256:
                r = zero
                for v in range(T):
                    t = subst(body, [(k, v)])
                    r = radd(r, t) if real else iadd(r, t)
                return r
        if self.bound is not None:
            r = zero
            self.axioms.append(zi(T) <= self.bound)
            for v in range(self.bound):
                t = ite(simp(zi(T) > v), subst(body, [(k, v)]), zero)
                r = radd(r, t) if real else iadd(r, t)
            return r
        if isz(T) and z3.is_add(T) and T.num_args() == 2 and z3.is_int_value(T.arg(0)) and T.arg(0).as_long() == 1 and T.arg(1).get_id() in self.peel:
            t = T.arg(1); a = self.sum(k, t, body); b = subst(body, [(k, t)])
            return radd(a, b) if real else iadd(a, b)
        # body independent of k
        if not occurs(k, z(body)):
            n = z3.If(zi(T) > 0, zi(T), z3.IntVal(0))
            return zr(body) * z3.ToReal(n) if real else zi(body) * n
        return self._mk('sum', k, T, body, real)

    def extremum(self, kind, k, T, body, init):
        if isinstance(T, int) and T <= 256:
            r = init
            for v in range(T):
                t = subst(body, [(k, v)])
                r = z3.If(zr(t) > zr(r), zr(t), zr(r)) if kind == 'max' else z3.If(zr(t) < zr(r), zr(t), zr(r))
            return r
        body2 = z(body)
        m = self._mk(kind, k, T, body2, True)
        return z3.If(zr(m) > zr(init), zr(m), zr(init)) if kind == 'max' else z3.If(zr(m) < zr(init), zr(m), zr(init))

    def define(self, app):
        """(kind, k, T, body) of an application, parameters instantiated."""
        e = self.table.get(app.decl().name())
        if e is None: return None
        kind, params, k, T, body = e
        pairs = [(p, app.arg(i)) for i, p in enumerate(params) if not p.eq(app.arg(i))]
        if pairs:
            T = z3.substitute(T, pairs); body = z3.substitute(body, pairs)
        return kind, k, T, body

class Storage:
    def __init__(self, sid, name, extents, sort, fad=False):
        self.sid = sid; self.name = name; self.extents = list(extents); self.sort = sort

class ViewRef:
    """dims: per storage dimension either ('d', view_dim) or ('f', fixed index)"""
    __slots__ = ('sid', 'dims', 'extents', 'name', 'etype', 'offs', 'raw')
    def __init__(self, sid, dims, extents, name, etype, offs=None):
        self.raw = None
        self.sid = sid; self.dims = dims; self.extents = extents; self.name = name; self.etype = etype; self.offs = offs
    def index(self, idx):
        out = []
        for i, (k, v) in enumerate(self.dims):
            if k == 'f': out.append(v)
            else:
                x = idx[v]
                if self.offs and self.offs[v] != 0: x = iadd(x, self.offs[v])
                out.append(x)
        return tuple(out)
    def same(self, o):
        return isinstance(o, ViewRef) and self.sid == o.sid and self.dims == o.dims

class Elem:
    __slots__ = ('sid', 'idx', 'view')
    def __init__(self, sid, idx, view=None):
        self.sid = sid; self.idx = idx; self.view = view

def idx_eq(a, b):
    r = True
    for x, y in zip(a, b):
        e = eq(x, y)
        if e is False: return False
        r = b_and(r, e)
    return r

class Layer:
    __slots__ = ('prev',)

class Base(Layer):
    """initial content: a z3 function, or a constant"""
    __slots__ = ('fn', 'const')
    def __init__(self, fn=None, const=None):
        self.prev = None; self.fn = fn; self.const = const
    def read(self, idx, S):
        if self.fn is None: return self.const
        if isinstance(self.fn, dict):
            if all(isinstance(i, int) for i in idx): return self.fn.get(idx, self.const)
            # chain of ITEs over a finite content
            r = None
            for kx, v in self.fn.items():
                c = idx_eq(idx, kx)
                if c is False: continue
                r = v if r is None else ite(c, v, r)
            if r is None: raise EngineLimit('read outside finite content')
            return r
        if callable(self.fn) and not isinstance(self.fn, z3.FuncDeclRef): return self.fn(*idx)
        return self.fn(*[zi(i) for i in idx])

class W(Layer):
    __slots__ = ('idx', 'val')
    def __init__(self, prev, idx, val):
        self.prev = prev; self.idx = idx; self.val = val
    def read(self, idx, S):
        c = idx_eq(idx, self.idx)
        if c is True: return self.val
        p = self.prev.read(idx, S) if False else read(self.prev, idx, S)
        if c is False: return p
        r = ite(c, self.val, p)
        if r is None: raise EngineLimit('merge of view values')
        return r

class Acc(Layer):
    __slots__ = ('idx', 'e')
    def __init__(self, prev, idx, e):
        self.prev = prev; self.idx = idx; self.e = e
    def read(self, idx, S):
        c = idx_eq(idx, self.idx)
        p = read(self.prev, idx, S)
        if c is False: return p
        real = isreal(self.e)
        t = self.e if c is True else ite(c, self.e, Fraction(0) if real else 0)
        return radd(p, t) if real else iadd(p, t)

class M(Layer):
    __slots__ = ('cond', 'a', 'b')
    def __init__(self, cond, a, b, base):
        self.cond = cond; self.a = a; self.b = b; self.prev = base
    def read(self, idx, S):
        r = ite(self.cond, read(self.a, idx, S), read(self.b, idx, S))
        if r is None: raise EngineLimit('merge of view values')
        return r

class Rec:
    """kind 'set' or 'acc'; bvars: [(var, T)]"""
    __slots__ = ('kind', 'bvars', 'guard', 'idx', 'val', 'inv')
    def __init__(self, kind, bvars, guard, idx, val):
        self.kind = kind; self.bvars = bvars; self.guard = guard; self.idx = idx; self.val = val; self.inv = None

NINV = [0]

def linear(e, v):
    """e = a*v + d with integer constant a, or None"""
    if not isz(e): return None
    t0 = subst(e, [(v, 0)]); t1 = subst(e, [(v, 1)]); 
    a = isub(t1, t0)
    if isinstance(a, int):
        # check linear: e - a*v - t0 == 0
        if simp(zi(e) - a * v - zi(t0)) == 0: return a, t0
        if isinstance(simp(zi(e) - (a * v + zi(t0))), int): return None
    return None

def solve_linear(rec, x):
    """the unique values of some bound variables forced by rec.idx == x; (solved, remaining)"""
    todo = [v for v, T in rec.bvars]
    rng = {v.get_id(): T for v, T in rec.bvars}
    sol = []
    progress = True
    comps = [(i, c) for i, c in enumerate(rec.idx)]
    while todo and progress:
        progress = False
        for i, c in comps:
            c = subst(c, sol)
            if not isz(c): continue
            un = [v for v in todo if occurs(v, c)]
            if len(un) == 1:
                l = linear(c, un[0])
                if l is None: continue
                a, d = l
                if a == 0: continue
                num = isub(x[i], d)
                if a == 1: s = num
                elif a == -1: s = isub(0, num)
                elif a > 1: s = num // a if isinstance(num, int) else simp(zi(num) / a)
                else: continue
                sol.append((un[0], s)); todo.remove(un[0]); progress = True
                break
            if len(un) == 2:
                l0 = linear(c, un[0])
                if l0 is None: continue
                l1 = linear(l0[1], un[1]) if isz(l0[1]) else None
                if l1 is None: continue
                (a0, _), (a1, d) = l0, l1
                big, small = (un[0], un[1]) if a0 > a1 else (un[1], un[0])
                A, B = max(a0, a1), min(a0, a1)
                if B == 1 and A > 1:
                    num = isub(x[i], d)
                    T = rng[small.get_id()]
                    if isinstance(T, int) and T <= A:
                        if isinstance(num, int): q, r = num // A, num % A
                        else: q, r = simp(zi(num) / A), simp(zi(num) % A)
                        sol += [(big, q), (small, r)]
                        todo.remove(big); todo.remove(small); progress = True
                        break
    return sol, todo

def acc_read(rec, idx, S):
    """Sum over the bound variables of [guard and rec.idx = idx] rec.val"""
    sol, todo = solve_linear(rec, idx)
    cs = []
    for v, T in rec.bvars:
        for w, s in sol:
            if w.eq(v): cs += [simp(zi(s) >= 0), simp(zi(s) < zi(subst(T, sol) if isz(T) else T))]
    g = subst(rec.guard, sol) if isz(rec.guard) else rec.guard
    c = b_and(*cs, simp(g) if isz(g) else g, *[eq(subst(a, sol) if isz(a) else a, b) for a, b in zip(rec.idx, idx)])
    real = isreal(rec.val)
    zero = Fraction(0) if real else 0
    if c is False: return zero
    v = subst(rec.val, sol) if isz(rec.val) else rec.val
    # conditions that do not mention a summed variable stay outside the sum
    e = v
    outer = []; inner = []
    for x in ([c] if not (isz(c) and z3.is_and(c)) else c.children()):
        (inner if any(isz(x) and occurs(t, x) for t in todo) else outer).append(x)
    ci = b_and(*inner)
    if ci is not True: e = ite(ci, e, zero)
    for b, T in reversed(rec.bvars):
        if any(b.eq(t) for t in todo): e = S.sum(b, subst(T, sol) if isz(T) else T, e)
    co = b_and(*outer)
    return e if co is True else ite(co, e, zero)

def solve_bvars(rec, x, S):
    """values for the bound variables such that rec.idx == x (when one exists)"""
    sol, todo = solve_linear(rec, x)
    if todo:
        # uninterpreted inverse with a defining axiom
        if rec.inv is None:
            free, _ = consts_of(*[z(c) for c in rec.idx], z(rec.guard), *[zi(T) for _, T in rec.bvars])
            bn = [v.decl().name() for v, _ in rec.bvars]
            params = [free[n] for n in sorted(free) if n not in bn]
            fs = {}
            for v in [v for v, _ in rec.bvars]:
                NINV[0] += 1
                fs[v.get_id()] = z3.Function('inv!%d' % NINV[0], *([p.sort() for p in params] + [z3.IntSort()] * len(rec.idx) + [z3.IntSort()]))
            rec.inv = (params, fs)
            xs = [zi(c) for c in rec.idx]
            pairs = [(v, fs[v.get_id()](*params, *xs)) for v, _ in rec.bvars]
            rngc = [z3.And(v >= 0, v < zi(T)) for v, T in rec.bvars]
            rng2 = [z3.substitute(r, *pairs) for r in rngc]
            body = z3.Implies(z3.And(*rngc, z(rec.guard)),
                    z3.And(*rng2, z3.substitute(z(rec.guard), *pairs), *[z3.substitute(zi(c), *pairs) == zi(c) for c in rec.idx]))
            S.axioms.append(z3.ForAll([v for v, _ in rec.bvars] + params, body) if params or rec.bvars else body)
        params, fs = rec.inv
        return [(v, fs[v.get_id()](*params, *[zi(t) for t in x])) for v, _ in rec.bvars]
    return sol

def gcd_neq(a, b):
    """integer terms that differ modulo a common factor of all coefficients"""
    if not isz(a) and not isz(b): return a != b
    import math
    d = z3.simplify(zi(a) - zi(b), som=True)
    g = 0; k = 0
    for t in (d.children() if z3.is_add(d) else [d]):
        if z3.is_int_value(t): k += t.as_long(); continue
        if z3.is_mul(t) and z3.is_int_value(t.arg(0)): g = math.gcd(g, t.arg(0).as_long())
        else: return False
    return g > 1 and k % g != 0

def divmod_simp(e):
    """(a*X + r) div a = X and mod a = r for literals 0 <= r < a, everywhere in e"""
    if not isz(e): return e
    memo = {}
    def rec(t):
        i = t.get_id()
        if i in memo: return memo[i][0]
        ch = t.children()
        if not ch or z3.is_quantifier(t): r = t
        else:
            n = [rec(c) for c in ch]
            r = t if all(a.eq(b) for a, b in zip(n, ch)) else rebuild(t, n)
            if r.decl().kind() in (z3.Z3_OP_IDIV, z3.Z3_OP_MOD) and z3.is_int_value(r.arg(1)) and r.arg(1).as_long() > 0:
                a = r.arg(1).as_long()
                num = z3.simplify(r.arg(0), som=True)
                q = []; c0 = 0; ok = True
                for u in (num.children() if z3.is_add(num) else [num]):
                    if z3.is_int_value(u): c0 += u.as_long()
                    elif z3.is_mul(u) and z3.is_int_value(u.arg(0)) and u.arg(0).as_long() % a == 0:
                        f = u.arg(0).as_long() // a
                        q.append(z3.Product([z3.IntVal(f)] + u.children()[1:]))
                    else: ok = False; break
                if ok:
                    r = z3.simplify(z3.Sum(q + [z3.IntVal(c0 // a)])) if r.decl().kind() == z3.Z3_OP_IDIV else z3.IntVal(c0 % a)
        memo[i] = (r, t)
        return r
    return back(rec(e))

def rebuild(t, n):
    k = t.decl().kind()
    if k == z3.Z3_OP_ADD: return z3.Sum(n)
    if k == z3.Z3_OP_MUL: return z3.Product(n)
    if k == z3.Z3_OP_AND: return z3.And(*n)
    if k == z3.Z3_OP_OR: return z3.Or(*n)
    return t.decl()(*n)

def match(rec, x):
    """a witness: values of the bound variables with rec.idx == x syntactically, found by unifying index applications such as R(i)"""
    bv = [v for v, _ in rec.bvars]
    _, xapps = consts_of(*[zi(t) for t in x if isz(t)])
    todo = [c for c in rec.idx if isz(c)]
    def go(sol, depth):
        r2 = Rec(rec.kind, [(v, T) for v, T in rec.bvars if not any(w.eq(v) for w, _ in sol)], rec.guard, [subst(c, sol) if isz(c) else c for c in rec.idx], 0)
        s2, rest = solve_linear(r2, x)
        if not rest:
            full = sol + s2
            for c, t in zip(rec.idx, x):
                d = divmod_simp(isub(subst(c, full) if isz(c) else c, t))
                if isz(d): d = back(z3.simplify(zi(d), som=True))
                if not (isinstance(d, int) and d == 0): return None
            return full
        if depth > 3: return None
        _, apps = consts_of(*[zi(c) for c in r2.idx if isz(c)])
        for a in apps:
            un = [v for v in rest if occurs(v, a)]
            if len(un) != 1: continue
            for b in xapps:
                if not b.decl().eq(a.decl()): continue
                for p, q in zip(a.children(), b.children()):
                    if not occurs(un[0], p): continue
                    base, shift = p, 0
                    if z3.is_add(p) and p.num_args() == 2 and z3.is_int_value(p.arg(0)): base, shift = p.arg(1), p.arg(0).as_long()
                    if z3.is_app(base) and base.decl().kind() == z3.Z3_OP_IDIV and z3.is_int_value(base.arg(1)) and base.arg(0).eq(un[0]) and base.arg(1).as_long() <= 16:
                        a_ = base.arg(1).as_long()
                        for r_ in range(a_):
                            f = go(sol + [(un[0], iadd(imul(a_, isub(q, shift)), r_))], depth + 1)
                            if f is not None: return f
                        break
                    l = linear(p, un[0])
                    if l is None or abs(l[0]) != 1: break
                    s = isub(q, l[1])
                    if l[0] == -1: s = isub(0, s)
                    f = go(sol + [(un[0], simp(zi(s)) if isz(s) else s)], depth + 1)
                    if f is not None: return f
                    break
        return None
    return go([], 0)

class Fam(Layer):
    """for all k in [0,T): the records of iteration k, iterations independent of one another"""
    __slots__ = ('recs', 'k', 'T', 'cache')
    def __init__(self, prev, k, T, recs):
        self.prev = prev; self.k = k; self.T = T; self.recs = recs; self.cache = {}
    def read(self, idx, S):
        r = None
        res = read(self.prev, idx, S)
        for rec in self.recs:
            if rec.kind == 'acc':
                v = acc_read(rec, idx, S)
                res = radd(res, v) if isreal(v) else iadd(res, v)
                continue
            if any(gcd_neq(a, b) for a, b in zip(rec.idx, idx)): continue
            lin, rest = solve_linear(rec, idx); hinted = []
            wit = match(rec, idx) if rest else None
            if rest and wit is None and S.hint is not None:
                for w in S.hint(rec, idx):
                    cw = [eq(subst(a, w) if isz(a) else a, b) for a, b in zip(rec.idx, idx)] + [subst(rec.guard, w) if isz(rec.guard) else rec.guard]
                    for (b, T) in rec.bvars:
                        for (w_, t) in w:
                            if w_.eq(b): cw += [zi(t) >= 0, zi(t) < zi(subst(T, w) if isz(T) else T)]
                    cw = b_and(*[simp(x) if isz(x) else x for x in cw])
                    if cw is not False: hinted.append((cw, subst(rec.val, w) if isz(rec.val) else rec.val))
            sol = solve_bvars(rec, idx, S)
            c = b_and(*[b_and(simp(zi(s) >= 0), simp(zi(s) < zi(subst(T, sol) if isz(T) else T)))
                        for (v, T) in rec.bvars for (w, s) in sol if w.eq(v)])
            if c is False: continue
            g = subst(rec.guard, sol) if isz(rec.guard) else rec.guard
            c = b_and(c, simp(g) if isz(g) else g, *[eq(subst(a, sol), b) for a, b in zip(rec.idx, idx)])
            if c is False: continue
            v = subst(rec.val, sol) if isz(rec.val) else rec.val
            if wit is not None:
                # iterations write distinct elements, so a witness in range is the one that wrote this element
                cw = [divmod_simp(simp(subst(rec.guard, wit))) if isz(rec.guard) else rec.guard]
                for (b, T) in rec.bvars:
                    for (w, t) in wit:
                        if w.eq(b): cw += [simp(zi(t) >= 0), simp(zi(t) < zi(divmod_simp(subst(T, wit)) if isz(T) else T))]
                cw = b_and(*cw)
                if cw is not False:
                    res2 = v if c is True else ite(c, v, res)
                    res = ite(cw, divmod_simp(subst(rec.val, wit)) if isz(rec.val) else rec.val, res2)
                    if res is None: raise EngineLimit('merge of view values')
                    continue
            res = v if c is True else ite(c, v, res)
            for cw, vw in hinted: res = ite(cw, vw, res)      # iterations write distinct elements: a witness in range wrote this one
            if res is None: raise EngineLimit('merge of view values')
        return res

class AccFam(Layer):
    """V(x) += Sum over the bound variables of [guard and idx = x] e"""
    __slots__ = ('recs',)
    def __init__(self, prev, recs):
        self.prev = prev; self.recs = recs
    def read(self, idx, S):
        res = read(self.prev, idx, S)
        for rec in self.recs:
            e = acc_read(rec, idx, S)
            res = radd(res, e) if isreal(e) else iadd(res, e)
        return res

def read(layer, idx, S):
    return layer.read(idx, S)

def flatten(layer, stop):
    """records written since `stop`, in order; None if stop is not an ancestor"""
    chain = []
    l = layer
    while l is not stop:
        if l is None or isinstance(l, Base): return None
        chain.append(l)
        l = l.prev
    out = []
    for l in reversed(chain):
        if isinstance(l, W): out.append(Rec('set', [], True, l.idx, l.val))
        elif isinstance(l, Acc): out.append(Rec('acc', [], True, l.idx, l.e))
        elif isinstance(l, M):
            ra, rb = flatten(l.a, l.prev), flatten(l.b, l.prev)
            if ra is None or rb is None: return None
            for r in ra: out.append(Rec(r.kind, r.bvars, b_and(l.cond, r.guard), r.idx, r.val))
            for r in rb: out.append(Rec(r.kind, r.bvars, b_and(b_not(l.cond), r.guard), r.idx, r.val))
        elif isinstance(l, (Fam, AccFam)):
            out += l.recs
        else: return None
    return out

def common_base(a, b):
    seen = set()
    l = a
    while l is not None:
        seen.add(id(l)); l = l.prev
    l = b
    while l is not None:
        if id(l) in seen: return l
        l = l.prev
    return None
