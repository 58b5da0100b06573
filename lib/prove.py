"""Discharge of obligations: case splitting on conditionals, exact polynomial/rational-function normalisation with
quantified sums, and SMT (z3, then cvc5) for everything else.  All arithmetic is over mathematical reals/integers."""
import time, subprocess, tempfile, os
import z3
from fractions import Fraction
from terms import *

class Unknown(Exception): pass

# ---------------------------------------------------------------- polynomials over atoms
# Poly: dict  monomial -> Fraction ; monomial: tuple of (atom, exp) sorted by atom number
def pconst(c): return {(): Fraction(c)} if c else {}
def padd(a, b, s=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + s * c
        if v: r[m] = v
        else: r.pop(m, None)
    return r
def mmul(m, n):
    if not m: return n
    if not n: return m
    d = dict(m)
    for a, e in n: d[a] = d.get(a, 0) + e
    return tuple(sorted(d.items()))
def pmul(a, b):
    if len(a) > len(b): a, b = b, a
    if len(a) * len(b) > 200000: raise Unknown('polynomial too large')
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = mmul(m, n)
            v = r.get(k, 0) + c * d
            if v: r[k] = v
            else: r.pop(k, None)
    if len(r) > 60000: raise Unknown('polynomial too large')
    return r
def ppow(a, n):
    r = pconst(1)
    for _ in range(n): r = pmul(r, a)
    return r
def pdiv(p, q):
    """exact quotient p / q or None"""
    if not q: return None
    lq = max(q, key=mord); cq = q[lq]; dq = dict(lq)
    r = dict(p); out = {}
    for _ in range(5000):
        if not r: return out
        lr = max(r, key=mord)
        dr = dict(lr)
        if any(dr.get(a, 0) < e for a, e in dq.items()): return None
        m = tuple(sorted((a, e - dq.get(a, 0)) for a, e in dr.items() if e != dq.get(a, 0)))
        c = r[lr] / cq
        out[m] = c
        r = padd(r, pmul({m: c}, q), -1)
    return None
def mord(m):
    """a monomial order: graded, then lexicographic on (atom, exponent)"""
    return (sum(e for _, e in m), sorted(((-a, e) for a, e in m), reverse=True))
def pkey(p): return frozenset(p.items())

class Norm:
    """z3 real terms -> polynomials over canonical atoms"""
    def __init__(self, S):
        self.S = S
        self.keys = {}      # key -> atom number
        self.info = []      # atom number -> (kind, data...)
        self.memo = {}
        self.keep = []
    def atom(self, key, info):
        n = self.keys.get(key)
        if n is None:
            n = len(self.info); self.keys[key] = n; self.info.append(info)
        return n
    def pa(self, key, info): return {((self.atom(key, info), 1),): Fraction(1)}
    def norm(self, t):
        if isinstance(t, (int, Fraction)): return pconst(t)
        i = t.get_id()
        r = self.memo.get(i)
        if r is None:
            r = self._norm(t)
            self.memo[i] = r; self.keep.append(t)
        return r
    def _norm(self, t):
        if z3.is_rational_value(t): return pconst(Fraction(t.numerator_as_long(), t.denominator_as_long()))
        if z3.is_int_value(t): return pconst(t.as_long())
        k = t.decl().kind()
        ch = t.children()
        if k == z3.Z3_OP_ADD:
            r = {}
            for c in ch: r = padd(r, self.norm(c))
            return r
        if k == z3.Z3_OP_SUB:
            r = self.norm(ch[0])
            for c in ch[1:]: r = padd(r, self.norm(c), -1)
            return r
        if k == z3.Z3_OP_UMINUS: return padd({}, self.norm(ch[0]), -1)
        if k == z3.Z3_OP_MUL:
            r = self.norm(ch[0])
            for c in ch[1:]: r = pmul(r, self.norm(c))
            return r
        if k == z3.Z3_OP_DIV: return pmul(self.norm(ch[0]), self.inv(self.norm(ch[1])))
        if k == z3.Z3_OP_POWER and z3.is_rational_value(z3.simplify(ch[1])) :
            e = back(z3.simplify(ch[1]))
            if Fraction(e).denominator == 1 and 0 <= e <= 12: return ppow(self.norm(ch[0]), int(e))
        if k == z3.Z3_OP_TO_REAL:
            u = z3.simplify(ch[0])
            if z3.is_int_value(u): return pconst(u.as_long())
            return self.norm_int(u)
        if k == z3.Z3_OP_ITE:
            a, b = self.norm(ch[1]), self.norm(ch[2])
            if a == b: return a
            c = z3.simplify(ch[0])
            return self.pa(('ite', c.get_id(), pkey(a), pkey(b)), ('term', t, self.keep.append(c)))
        d = self.S.define(t)
        if d is not None: return self.norm_sum(t, d)
        if t.is_int(): return self.norm_int(t) if k in (z3.Z3_OP_ADD, z3.Z3_OP_MUL) else self.int_atom(t)
        if k == z3.Z3_OP_UNINTERPRETED and ch:
            key = [t.decl().name()]
            for c in ch:
                if c.sort() == z3.RealSort(): key.append(pkey(self.norm(c)))
                else:
                    c2 = z3.simplify(c); self.keep.append(c2); key.append(c2.get_id())
            return self.pa(tuple(key), ('uf', t))
        t2 = z3.simplify(t); self.keep.append(t2)
        return self.pa(('t', t2.get_id()), ('term', t))
    def norm_int(self, u):
        k = u.decl().kind()
        if z3.is_int_value(u): return pconst(u.as_long())
        if k == z3.Z3_OP_ADD:
            r = {}
            for c in u.children(): r = padd(r, self.norm_int(c))
            return r
        if k == z3.Z3_OP_MUL:
            r = pconst(1)
            for c in u.children(): r = pmul(r, self.norm_int(c))
            return r
        if k == z3.Z3_OP_UMINUS: return padd({}, self.norm_int(u.children()[0]), -1)
        if k == z3.Z3_OP_SUB:
            r = self.norm_int(u.arg(0))
            for c in u.children()[1:]: r = padd(r, self.norm_int(c), -1)
            return r
        return self.int_atom(u)
    def int_atom(self, u):
        u = z3.simplify(u); self.keep.append(u)
        return self.pa(('i', u.get_id()), ('term', u))
    def inv(self, p):
        if not p: return self.pa(('inv', frozenset()), ('inv', {}))
        if len(p) == 1:
            (m, c), = p.items()
            r = {(): 1 / c}
            for a, e in m:
                q = {((a, 1),): Fraction(1)}
                if self.info[a][0] == 'inv': ia = self.info[a][1]; r = pmul(r, ppow(ia, e)); continue
                r = pmul(r, ppow(self.pa(('inv', pkey(q)), ('inv', q)), e))
            return r
        lead = max(p)
        c = p[lead]
        q = {m: v / c for m, v in p.items()}
        return {m: v / c for m, v in self.pa(('inv', pkey(q)), ('inv', q)).items()}
    def norm_sum(self, t, d):
        kind, k, T, body = d
        if kind != 'sum': 
            T2 = z3.simplify(T); b = self.norm(body) if body.is_real() else None
            return self.pa((kind, t.get_id()), ('term', t))
        p = self.norm(body)
        # linear split; factors free of k come out
        katoms = {}
        def dep(a):
            if a not in katoms:
                inf = self.info[a]
                if inf[0] == 'inv': katoms[a] = any(dep(x) for m in inf[1] for x, _ in m)
                elif inf[0] == 'sum': katoms[a] = any(dep(x) for x, _ in inf[3]) or occurs(k, inf[2])
                else: katoms[a] = occurs(k, inf[1])
            return katoms[a]
        r = {}
        T2 = z3.simplify(T); self.keep.append(T2)
        for m, c in p.items():
            out = tuple((a, e) for a, e in m if not dep(a))
            ins = tuple((a, e) for a, e in m if dep(a))
            if not ins:
                n = self.norm(z3.ToReal(z3.If(T2 > 0, T2, z3.IntVal(0))))
                r = padd(r, pmul({out: c}, n)); continue
            key = ('sum', self.canon(ins, k), T2.get_id())
            a = self.atom(key, ('sum', k, T2, ins))
            r = padd(r, {mmul(out, ((a, 1),)): c})
        return r
    def canon(self, ins, k):
        """key of a monomial with the bound variable made anonymous"""
        subs = [(k, z3.Int('bv!0'))]
        return frozenset((self.canon_atom(a, subs), e) for a, e in ins)
    def canon_atom(self, a, subs):
        inf = self.info[a]
        if inf[0] == 'inv': return ('inv', frozenset((frozenset((self.canon_atom(x, subs), e) for x, e in m), c) for m, c in inf[1].items()))
        if inf[0] == 'sum':
            T = z3.simplify(z3.substitute(inf[2], *subs)); self.keep.append(T)
            s2 = subs + [(inf[1], z3.Int('bv!%d' % len(subs)))]
            return ('sum', frozenset((self.canon_atom(x, s2), e) for x, e in inf[3]), T.get_id())
        t = z3.simplify(z3.substitute(inf[1], *subs)); self.keep.append(t)
        return pkey(self.norm(t))
    # back to z3
    def term(self, a):
        inf = self.info[a]
        if inf[0] == 'inv': return z3.RealVal(1) / self.pterm(inf[1])
        if inf[0] == 'sum': return None
        t = inf[1]
        return z3.ToReal(t) if t.is_int() else t
    def pterm(self, p):
        ts = []
        for m, c in p.items():
            f = [z3.RealVal(c)]
            for a, e in m:
                t = self.term(a)
                if t is None: raise Unknown('sum term')
                f += [t] * e
            ts.append(z3.Product(*f) if len(f) > 1 else f[0])
        return z3.Sum(*ts) if len(ts) > 1 else (ts[0] if ts else z3.RealVal(0))

# ---------------------------------------------------------------- prover
class Prover:
    def __init__(self, S, hyps=(), timeout_ms=8000, deadline=None):
        self.S = S
        self.base = list(hyps)
        self.timeout = timeout_ms
        self.deadline = deadline
        self.stats = {'z3': 0, 'norm': 0, 'cvc5': 0, 'time': 0.0}
        self.nk = 0

    def tick(self):
        if self.deadline and time.time() > self.deadline: raise Unknown('time budget')

    def prove(self, hyps, goal):
        """'proved' | ('failed', model or None) | ('unknown', why)"""
        t0 = time.time()
        try:
            H = [h for h in self.base + list(hyps) if h is not True]
            if any(h is False for h in H): return 'proved'
            if goal is True: return 'proved'
            r = self.go(H, z3.BoolVal(goal) if isinstance(goal, bool) else goal, 0)
            return r
        except Unknown as e:
            return ('unknown', str(e))
        except RecursionError:
            return ('unknown', 'recursion')
        finally:
            self.stats['time'] += time.time() - t0

    # -- z3 access
    def facts(self, fs):
        """axioms instantiated for the terms: math functions, sums of non-negative bodies, extrema"""
        return math_axioms(fs) + list(self.S.axioms)
    def smt(self, H, goal, timeout=None, extra=(), quick=False):
        self.tick()
        fs = list(H) + [z3.Not(goal)] if goal is not None else list(H)
        al = fs + self.facts(fs) + list(extra)
        r = None
        if any(z3.is_quantifier(f) for f in al if not isinstance(f, bool)):
            # pattern instantiation first (ends quickly when nothing more can be derived)
            s = z3.Solver(); s.set('timeout', timeout or self.timeout); s.set('auto_config', False); s.set('mbqi', False)
            s.add(*al); r = s.check()
            if r == z3.unsat: return 'unsat', None
            if quick: return 'unknown', None
        s = z3.Solver(); s.set('timeout', timeout or self.timeout)
        s.add(*al)
        r = s.check()
        if r == z3.unsat: return 'unsat', None
        if r == z3.sat: return 'sat', s.model()
        return 'unknown', None
    def cvc5(self, H, goal, timeout=20):
        fs = list(H) + [z3.Not(goal)]
        s = z3.Solver(); s.add(*fs); s.add(*self.facts(fs))
        txt = '(set-logic ALL)\n' + s.to_smt2()
        with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f: f.write(txt)
        try:
            p = subprocess.run(['cvc5', '--tlimit=%d' % (timeout * 1000), f.name], capture_output=True, text=True, timeout=timeout + 10)
            out = p.stdout.strip().split('\n')[0]
        except Exception: out = 'unknown'
        finally: os.unlink(f.name)
        return out
    def entails(self, H, c, timeout=800):
        return self.smt(H, c, timeout, quick=True)[0] == 'unsat'

    # -- goal decomposition
    def go(self, H, g, depth):
        self.tick()
        if depth > 200: raise Unknown('depth')
        if z3.is_true(g): return 'proved'
        k = g.decl().kind() if z3.is_app(g) else None
        if z3.is_quantifier(g) and g.is_forall():
            vs = []
            for i in range(g.num_vars()):
                self.nk += 1
                s = g.var_sort(i)
                vs.append(z3.Const('sk!%d' % self.nk, s))
            return self.go(H, z3.substitute_vars(g.body(), *reversed(vs)), depth + 1)
        if k == z3.Z3_OP_AND:
            for c in g.children():
                r = self.go(H, c, depth + 1)
                if r != 'proved': return r
            return 'proved'
        if k == z3.Z3_OP_IMPLIES:
            return self.go(H + self.conj(g.arg(0)), g.arg(1), depth + 1)
        if k == z3.Z3_OP_OR:
            cs = g.children(); i = next((i for i, c in enumerate(cs) if z3.is_eq(c) and c.arg(0).sort() == z3.RealSort()), None)
            if i is not None and sum(1 for c in cs if z3.is_eq(c) and c.arg(0).sort() == z3.RealSort()) == 1:
                hs = [x for j, c in enumerate(cs) if j != i for x in self.conj(z3.simplify(z3.Not(c)))]
                if self.smt(H + hs, None, 800)[0] == 'unsat': self.stats['z3'] += 1; return 'proved'
                return self.go(H + hs, cs[i], depth + 1)
        if k == z3.Z3_OP_EQ and g.arg(0).sort() == z3.RealSort():
            return self.eq(H, g.arg(0), g.arg(1), depth)
        if k == z3.Z3_OP_EQ and g.arg(0).sort() == z3.BoolSort() and False:
            pass
        it = self.find_ite(g)
        if it is not None and self.entails(H, it.arg(0)): return self.go(H, self.assume(g, it.arg(0), True), depth + 1)
        if k in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT):
            g2, sq = self.abstract_squares(g)
            if sq and self.smt(H + sq, g2, 800)[0] == 'unsat': self.stats['z3'] += 1; return 'proved'
        r, m = self.smt(H, g, min(self.timeout, 3000))
        if r == 'unsat': self.stats['z3'] += 1; return 'proved'
        # inequality over sums: nonnegativity facts
        ex = self.sumfacts(H, [g], depth)
        if ex:
            r2, m2 = self.smt(H, g, None, ex)
            if r2 == 'unsat': self.stats['z3'] += 1; return 'proved'
            r, m = r2, m2
        elif r == 'unknown':
            H2 = self.clear_denominators(H)
            g2 = self.clear_denominators(H + [z3.Not(g)])[len(H):] if not z3.is_false(g) else []
            if any(not a.eq(b) for a, b in zip(H, H2)) or (g2 and not g2[0].eq(z3.Not(g))):
                if self.smt(H2, z3.Not(z3.And(*g2)) if g2 else g)[0] == 'unsat': self.stats['z3'] += 1; return 'proved'
            r, m = self.smt(H, g)
            if r == 'unsat': self.stats['z3'] += 1; return 'proved'
        # conditionals inside
        it = self.find_ite(g)
        if it is not None:
            x = self.split(H, g, it, depth)
            return x
        if r == 'unknown':
            if self.cvc5(H, g) == 'unsat': self.stats['cvc5'] += 1; return 'proved'
            return ('unknown', 'smt: ' + str(g)[:200])
        return ('failed', m)

    def clear_denominators(self, H):
        """inequalities multiplied by denominators that the other hypotheses show to be positive (equivalent hypotheses)"""
        out = []; OPS = {z3.Z3_OP_LE: lambda a: a <= 0, z3.Z3_OP_LT: lambda a: a < 0, z3.Z3_OP_GE: lambda a: a >= 0, z3.Z3_OP_GT: lambda a: a > 0}; pos = {}
        N = Norm(self.S)
        for h in H:
            out.append(h)
            n = z3.is_app(h) and z3.is_not(h); u = h.arg(0) if n else h
            if not (z3.is_app(u) and u.decl().kind() in OPS and u.arg(0).sort() == z3.RealSort()): continue
            try: d = padd(N.norm(u.arg(0)), N.norm(u.arg(1)), -1)
            except Unknown: continue
            for _ in range(12):
                a = next((a for m in d for a, e in m if N.info[a][0] == 'inv'), None)
                if a is None: break
                q = N.info[a][1]
                if a not in pos:
                    try: pos[a] = self.entails(H, N.pterm(q) > 0)
                    except Unknown: pos[a] = False
                if not pos[a]: break
                E = max(e for m in d for x, e in m if x == a); d2 = {}
                for m, cf in d.items():
                    e = next((e for x, e in m if x == a), 0); rest = tuple((x, y) for x, y in m if x != a)
                    d2 = padd(d2, pmul({rest: cf}, ppow(q, E - e)))
                d = d2
            else: continue
            if any(N.info[a][0] == 'inv' for m in d for a, e in m): continue
            try: t = OPS[u.decl().kind()](N.pterm(d)); out[-1] = z3.Not(t) if n else t
            except Unknown: pass
        return out

    def abstract_squares(self, g):
        """replace squares by fresh non-negative variables (a generalisation of the goal)"""
        sq = {}; facts = []
        def rec(t):
            if not z3.is_app(t): return t
            ch = t.children()
            if t.decl().kind() == z3.Z3_OP_MUL:
                fs = list(ch); out = []
                while fs:
                    f = fs.pop(0)
                    j = next((i for i, h in enumerate(fs) if h.eq(f)), None)
                    if j is None or z3.is_rational_value(f): out.append(rec(f)); continue
                    fs.pop(j); i = f.get_id()
                    if i not in sq:
                        sq[i] = (z3.FreshReal('sq'), f); facts.append(sq[i][0] >= 0)
                    out.append(sq[i][0])
                r = out[0]
                for x in out[1:]: r = r * x
                return r
            if t.decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS, z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT):
                return t.decl()(*[rec(c) for c in ch])
            return t
        return rec(g), facts
    def conj(self, h):
        if z3.is_and(h): return [x for c in h.children() for x in self.conj(c)]
        return [h]

    def find_ite(self, e):
        """the outermost ITE in pre-order; when its condition contains an ITE, that one first"""
        seen = set()
        st = [e]
        while st:
            t = st.pop()
            if t.get_id() in seen or z3.is_quantifier(t): continue
            seen.add(t.get_id())
            if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
                x = self.find_ite(t.arg(0))
                return x if x is not None else t
            st.extend(reversed(t.children()))
        return None

    def split(self, H, g, it, depth):
        c = it.arg(0)
        self.nsplit = getattr(self, 'nsplit', 0) + 1
        def br(cond, val):
            g2 = self.assume(g, c, val)
            return self.go(H + self.conj(cond), g2, depth + 1)
        if os.environ.get('VP_SPLIT'): print('SPLIT', depth, time.time() % 1000, str(c)[:300].replace('\n', ' '))
        if self.entails(H, c): return self.go(H, self.assume(g, c, True), depth + 1)
        nc = z3.simplify(z3.Not(c))
        if self.entails(H, z3.Not(c)): return self.go(H, self.assume(g, c, False), depth + 1)
        r1 = br(c, True)
        if r1 != 'proved': return r1
        return br(nc, False)

    def assume(self, g, c, val):
        # replace every ITE on c
        g = z3.substitute(g, (c, z3.BoolVal(val)))
        return z3.simplify(g) if not z3.is_eq(g) else self.simp_ite(g)
    def simp_ite(self, g):
        memo = {}
        def rec(t):
            i = t.get_id()
            if i in memo: return memo[i][0]
            ch = t.children()
            if not ch or z3.is_quantifier(t): r = t
            else:
                if t.decl().kind() == z3.Z3_OP_ITE:
                    c = z3.simplify(ch[0])
                    if z3.is_true(c): r = rec(ch[1])
                    elif z3.is_false(c): r = rec(ch[2])
                    else: r = z3.If(c, rec(ch[1]), rec(ch[2]))
                else:
                    n = [rec(c) for c in ch]
                    if all(a.eq(b) for a, b in zip(n, ch)): r = t
                    else:
                        k = t.decl().kind()
                        if k == z3.Z3_OP_ADD: r = z3.Sum(n)
                        elif k == z3.Z3_OP_MUL: r = z3.Product(n)
                        elif k == z3.Z3_OP_AND: r = z3.And(*n)
                        elif k == z3.Z3_OP_OR: r = z3.Or(*n)
                        else: r = t.decl()(*n)
            memo[i] = (r, t)
            return r
        return rec(g)

    def eq(self, H, l, r, depth):
        """l == r over the reals"""
        N = Norm(self.S)
        d = padd(N.norm(l), N.norm(r), -1)
        if not d: self.stats['norm'] += 1; return 'proved'
        it = self.find_ite(l) 
        if it is None: it = self.find_ite(r)
        if it is not None:
            return self.split(H, l == r, it, depth)
        d = self.reduce(H, N, d, (l, r))
        if not d: self.stats['norm'] += 1; return 'proved'
        # equalities among integer terms in the hypotheses
        sub = self.int_eqs(H)
        if sub:
            l2, r2 = z3.substitute(l, *sub), z3.substitute(r, *sub)
            if not (l2.eq(l) and r2.eq(r)):
                H2 = [z3.substitute(h, *sub) for h in H]
                H2 = [h for h in H2 if not z3.is_true(z3.simplify(h))]
                return self.eq(H2, l2, r2, depth + 1)
        # sums with a common range: pointwise
        x = self.sums_pointwise(H, N, d, depth)
        if x is not None: return x
        ex = self.sumfacts(H, [l, r], depth, ('max', 'min'))
        if ex:
            if self.smt(H, l == r, None, ex)[0] == 'unsat': self.stats['z3'] += 1; return 'proved'
            return ('unknown', 'extremum equality')
        # SMT
        try: g = N.pterm(d) == 0
        except Unknown: g = l == r
        rr, m = self.smt(H, g, 3000)
        if rr == 'unsat': self.stats['z3'] += 1; return 'proved'
        if rr == 'sat': 
            return ('failed', m)
        rr, m = self.smt(H, l == r, self.timeout)
        if rr == 'unsat': self.stats['z3'] += 1; return 'proved'
        if rr == 'sat': return ('failed', m)
        if self.cvc5(H, l == r) == 'unsat': self.stats['cvc5'] += 1; return 'proved'
        return ('unknown', 'equality: ' + str(g)[:300])

    def int_eqs(self, H):
        out = []
        for h in H:
            if z3.is_eq(h) and h.arg(0).sort() == z3.IntSort():
                a, b = h.arg(0), h.arg(1)
                if z3.is_const(b) and not z3.is_int_value(b) and (z3.is_int_value(a) or not z3.is_const(a)): a, b = b, a
                if z3.is_const(a) and not z3.is_int_value(a) and not occurs(a, b):
                    out.append((a, b)); break
                if z3.is_int_value(a) and not z3.is_int_value(b): a, b = b, a
                if z3.is_int_value(b): out.append((a, b)); break
        return out

    def nonzero_hyps(self, H, N, terms):
        """polynomials known to be non-zero: disequalities among the hypotheses, quantified ones instantiated at index terms of the goal"""
        ints = {}
        if terms:
            _, apps = consts_of(*terms)
            for a in apps:
                for x in a.children():
                    if x.sort() == z3.IntSort() and not z3.is_int_value(x): ints[x.get_id()] = x
        out = []
        def add(h):
            if z3.is_and(h):
                for c in h.children(): add(c)
            elif z3.is_implies(h) and terms:
                if self.entails(H, h.arg(0)): add(h.arg(1))
            elif z3.is_not(h) and z3.is_eq(h.arg(0)) and h.arg(0).arg(0).sort() == z3.RealSort():
                try: out.append(padd(N.norm(h.arg(0).arg(0)), N.norm(h.arg(0).arg(1)), -1))
                except Unknown: pass
            elif z3.is_distinct(h) and h.arg(0).sort() == z3.RealSort() and h.num_args() == 2:
                out.append(padd(N.norm(h.arg(0)), N.norm(h.arg(1)), -1))
            elif z3.is_app(h) and h.decl().kind() in (z3.Z3_OP_GT, z3.Z3_OP_LT) and h.arg(0).sort() == z3.RealSort():
                out.append(padd(N.norm(h.arg(0)), N.norm(h.arg(1)), -1))
            elif z3.is_not(h) and z3.is_app(h.arg(0)) and h.arg(0).decl().kind() in (z3.Z3_OP_GE, z3.Z3_OP_LE) and h.arg(0).arg(0).sort() == z3.RealSort():
                out.append(padd(N.norm(h.arg(0).arg(0)), N.norm(h.arg(0).arg(1)), -1))
            elif z3.is_quantifier(h) and h.is_forall() and h.num_vars() == 1 and h.var_sort(0) == z3.IntSort():
                for x in list(ints.values())[:6]: add(z3.substitute_vars(h.body(), x))
        for h in H: add(h)
        return [p for p in out if p and not (len(p) == 1 and () in p)]

    def is_nonzero(self, H, N, q, terms, nz):
        if not q: return False
        if len(q) == 1 and () in q: return True
        if nz[0] is None: nz[0] = self.nonzero_hyps(H, N, terms)
        r = q
        for _ in range(8):
            for z in nz[0]:
                x = pdiv(r, z)
                if x is not None: r = x; break
            else: break
            if len(r) == 1 and () in r: return True
        try: return self.entails(H, N.pterm(r) != 0, 3000)
        except Unknown: return False

    def flatten_inv(self, H, N, a, terms, nz):
        """1/q with reciprocals inside q: numerator * 1/(polynomial); None if a denominator may vanish"""
        q = N.info[a][1]
        for _ in range(10):
            inner = {}
            for m in q:
                for x, e in m:
                    if N.info[x][0] == 'inv': inner[x] = max(inner.get(x, 0), e)
            if not inner: break
            # first make the inner reciprocals flat themselves
            nested = [x for x in inner if any(N.info[y][0] == 'inv' for m in N.info[x][1] for y, _ in m)]
            if nested:
                x = nested[0]
                rep = self.flatten_inv(H, N, x, terms, nz)
                if rep is None: return None
                nq = {}
                for m, c in q.items():
                    e = dict(m).get(x, 0)
                    nq = padd(nq, pmul({tuple(y for y in m if y[0] != x): c}, ppow(rep, e)))
                q = nq; continue
            x = sorted(inner)[0]; e = inner[x]; den = N.info[x][1]
            if not self.is_nonzero(H, N, den, terms, nz): return None
            nq = {}
            for m, c in q.items():
                y = dict(m).get(x, 0)
                nq = padd(nq, pmul({tuple(w for w in m if w[0] != x): c}, ppow(den, e - y)))
            # 1/q = den^e / nq
            r = self.flatten_inv_poly(H, N, nq, terms, nz)
            return None if r is None else pmul(ppow(den, e), r)
        return N.inv(q)
    def flatten_inv_poly(self, H, N, q, terms, nz):
        iv = N.inv(q)
        # cancel known factors so that polynomials stay small
        for m in iv:
            for x, e in m:
                if N.info[x][0] == 'inv' and any(N.info[y][0] == 'inv' for mm in N.info[x][1] for y, _ in mm):
                    r = self.flatten_inv(H, N, x, terms, nz)
                    if r is None: return None
                    return {k: v for k, v in pmul({tuple(w for w in m if w[0] != x): iv[m]}, ppow(r, e)).items()}
        if nz[0] is None: nz[0] = self.nonzero_hyps(H, N, terms)
        (m0, c0), = iv.items()
        if len(m0) == 1 and N.info[m0[0][0]][0] == 'inv':
            den = N.info[m0[0][0]][1]
            for z in nz[0]:
                if len(z) == 1 and () in z: continue
                x = pdiv(den, z)
                if x is not None and len(x) < len(den):
                    return pmul({(): c0}, pmul(N.inv(z), self.flatten_inv_poly(H, N, x, terms, nz)))
        return iv

    def reduce(self, H, N, d, terms=()):
        """clear denominators whose non-zeroness follows from H; sqrt(x)^2 = x where x >= 0 follows from H"""
        nz = [None]
        for _ in range(6):
            nested = None
            for m in d:
                for a, e in m:
                    if N.info[a][0] == 'inv' and any(N.info[y][0] == 'inv' for mm in N.info[a][1] for y, _ in mm): nested = a; break
                if nested is not None: break
            if nested is None: break
            rep = self.flatten_inv(H, N, nested, terms, nz)
            if rep is None: break
            nd = {}
            for m, c in d.items():
                e = dict(m).get(nested, 0)
                nd = padd(nd, pmul({tuple(y for y in m if y[0] != nested): c}, ppow(rep, e)) if e else {m: c})
            d = nd
            if not d: return d
        for _ in range(12):
            invs = {}
            sq = None
            for m in d:
                for a, e in m:
                    if N.info[a][0] == 'inv': invs[a] = max(invs.get(a, 0), e)
                    elif e >= 2 and N.info[a][0] == 'uf' and N.info[a][1].decl().name() == 'fn_sqrt': sq = a
            if sq is not None:
                arg = N.info[sq][1].arg(0)
                if self.entails(H, arg >= 0):
                    p = N.norm(arg)
                    nd = {}
                    for m, c in d.items():
                        e = dict(m).get(sq, 0)
                        rest = tuple((x, y) for x, y in m if x != sq)
                        t = {rest: c}
                        if e >= 2: t = pmul(t, ppow(p, e // 2))
                        if e % 2: t = pmul(t, {((sq, 1),): Fraction(1)})
                        nd = padd(nd, t)
                    d = nd
                    if not d: return d
                    continue
            if not invs: return d
            done = False
            for a, e in sorted(invs.items(), key=lambda x: -len(N.info[x[0]][1])):
                q = N.info[a][1]
                key = (a,)
                if not self.is_nonzero(H, N, q, terms, nz): continue
                nd = {}
                for m, c in d.items():
                    x = dict(m).get(a, 0)
                    rest = tuple((y, w) for y, w in m if y != a)
                    nd = padd(nd, pmul({rest: c}, ppow(q, e - x)))
                d = nd; done = True
                break
            if not d or not done: return d
        return d

    def sums_pointwise(self, H, N, d, depth):
        """d = sum of (coefficient * Sum_k<T body) : group by range and prove each group pointwise zero"""
        groups = {}; rest = {}
        for m, c in d.items():
            ss = [(a, e) for a, e in m if N.info[a][0] == 'sum']
            if len(ss) == 1 and ss[0][1] == 1:
                a = ss[0][0]
                _, k, T, ins = N.info[a]
                groups.setdefault(T.get_id(), (T, []))[1].append((tuple(x for x in m if x[0] != a), c, k, ins))
            elif ss: return None
            else: rest[m] = c
        if not groups: return None
        gl = list(groups.values())
        # merge groups with provably equal ranges
        merged = []
        for T, l in gl:
            for g in merged:
                if self.entails(H, g[0] == T, 2000): g[1].extend(l); break
            else: merged.append((T, list(l)))
        if rest:
            rr = self.go(H, N.pterm(rest) == 0, depth + 1)
            if rr != 'proved': return rr
        for T, l in merged:
            self.nk += 1
            k = z3.Int('sk!%d' % self.nk)
            body = z3.RealVal(0)
            for out, c, kv, ins in l:
                t = self.mono_term(N, out, c) * z3.substitute(self.mono_term(N, ins, Fraction(1)), (kv, k))
                body = body + t
            H2 = H + [k >= 0, k < T]
            if self.smt(H2, None, 800)[0] == 'unsat': continue
            rr = self.eq(H2, body, z3.RealVal(0), depth + 1)
            if rr != 'proved':
                if rr[0] == 'failed': return ('unknown', 'sum bodies differ pointwise')
                return rr
        return 'proved'
    def mono_term(self, N, m, c):
        r = z3.RealVal(c)
        for a, e in m:
            t = N.term(a)
            if t is None:
                # nested sum: rebuild as an application
                _, k, T, ins = N.info[a]
                t = self.S.sum(k, T, self.mono_term(N, ins, Fraction(1)))
                t = zr(t)
            for _ in range(e): r = r * t
        return r

    def sumfacts(self, H, terms, depth, kinds=('sum', 'max', 'min')):
        """facts about sum / max / min applications occurring in the terms"""
        ex = []
        if depth > 6: return ex
        _, apps = consts_of(*(list(terms) + list(H)))
        seen = set()
        consts = [c for c in consts_of(*(list(terms) + list(H)))[0].values()]
        for a in apps + consts:
            if a.get_id() in seen: continue
            seen.add(a.get_id())
            d = self.S.define(a)
            if d is None: continue
            kind, k, T, body = d
            if kind not in kinds: continue
            self.nk += 1
            kk = z3.Int('sk!%d' % self.nk)
            b = z3.substitute(body, (k, kk))
            if kind == 'sum' and body.is_real():
                if self.go(H + [kk >= 0, kk < T], b >= 0, depth + 3) == 'proved': ex.append(a >= 0)
                elif self.go(H + [kk >= 0, kk < T], b <= 0, depth + 3) == 'proved': ex.append(a <= 0)
            elif kind in ('max', 'min'):
                v = z3.Int('bx!')
                bb = z3.substitute(body, (k, v))
                wit = z3.Int('wit!%d' % self.nk)
                bw = z3.substitute(body, (k, wit))
                ex.append(z3.ForAll([v], z3.Implies(z3.And(v >= 0, v < T), (a >= bb) if kind == 'max' else (a <= bb))))
                ex.append(z3.Implies(T > 0, z3.And(wit >= 0, wit < T, a == bw)))
        return ex
