from contract import contract
from p21 import mesh, dom
P, T = 'P24', 'p24.cpp'
DPN = {'m2': 2, 'm3': 3, 't3': 1, 'tm3': 4}
def nodes(c, nm, lo=0): n = c.size('n' + nm, lo, (0, 1, 3)); return n, c.iview(nm, [n], 0, 1000)
for tag, k in DPN.items():
    @contract(P, 'one essential condition, %s' % tag, T)
    def _(c, tag=tag, k=k):
        n, s = nodes(c, 's'); idx = c.int('idx', 0, k - 1); v = c.real('v'); f = c.real('f'); off = c.int('off', 0, 3); m = c.size('m', 0, (3, 6)); c.requires(c.le(off + n, m)); c.requires(c.ne(f, c.num(0)))
        d = c.iview('d', [m], 0, 1000); w = c.vec('w', m); c.call('h_e1' + tag, s, c.text('one'), idx, v, f, off, d, w); c.modifies(d, w)
        c.ensure_all('the unknown of that index at every node of the set', [n], lambda r, i: c.eq(r.new(d, off + i), s(i) * k + idx))
        c.ensure_all('constrained to the stated value over the scale factor', [n], lambda r, i: c.eq(r.new(w, off + i) * f, v))
        c.ensure_all('entries before the offset kept', [m], lambda r, i: c.implies(c.lt(i, off), c.And(c.eq(r.new(d, i), d(i)), c.eq(r.new(w, i), w(i)))))
        c.ensure_all('entries after the set kept', [m], lambda r, i: c.implies(c.ge(i, off + n), c.And(c.eq(r.new(d, i), d(i)), c.eq(r.new(w, i), w(i)))))
    @contract(P, 'essential condition on an absent node set is rejected, %s' % tag, T)
    def _(c, tag=tag, k=k):
        n, s = nodes(c, 's'); v = c.real('v'); m = c.size('m', 0, (3, 6)); c.requires(c.le(n, m)); d = c.iview('d', [m], 0, 1000); w = c.vec('w', m)
        c.call('h_e1' + tag, s, c.text('two'), 0, v, c.num(1), 0, d, w); c.modifies(d, w); c.throws_iff(True)
    @contract(P, 'number of constrained nodes, %s' % tag, T)
    def _(c, tag=tag):
        n, s = nodes(c, 's'); c.call('h_el' + tag, s, c.text('one'), ret='int'); c.throws_iff(False); c.ensure('size of the set', lambda r: c.eq(r.value, n))
    @contract(P, 'number of constrained nodes of an absent set, %s' % tag, T)
    def _(c, tag=tag): n, s = nodes(c, 's'); c.call('h_el' + tag, s, c.text('two'), ret='int'); c.throws_iff(True)
    for t1, t2 in (('Fixed Value', 'Zero Value'), ('Zero Value', 'Fixed Value'), ('Time Dependent', 'Fixed Value'), ('Fixed Value', 'Bogus')):
        @contract(P, 'two essential conditions, %s then %s, %s' % (t1, t2, tag), T)
        def _(c, tag=tag, k=k, t1=t1, t2=t2):
            n, s = nodes(c, 's'); m, t = nodes(c, 't'); i1 = c.int('i1', 0, k - 1); i2 = c.int('i2', 0, k - 1); v1 = c.real('v1'); v2 = c.real('v2'); d = c.outview('d', 1, 'int'); w = c.outview('w', 1)
            c.call('h_e2' + tag, s, t, c.text(t1), c.text(t2), i1, i2, v1, v2, d, w); c.modifies(d, w); c.throws_iff(t2 == 'Bogus')
            if t2 == 'Bogus': return
            val = lambda ty, v: c.num(0) if ty == 'Zero Value' else v
            c.ensure('as many constraints as nodes', lambda r: c.And(c.eq(r.ext(d, 0), n + m), c.eq(r.ext(w, 0), n + m)))
            c.ensure_all('unknowns of the first', [n], lambda r, i: c.eq(r.new(d, i), s(i) * k + i1)); c.ensure_all('unknowns of the second', [m], lambda r, i: c.eq(r.new(d, n + i), t(i) * k + i2))
            c.ensure_all('values of the first', [n], lambda r, i: c.eq(r.new(w, i), val(t1, v1))); c.ensure_all('values of the second', [m], lambda r, i: c.eq(r.new(w, n + i), val(t2, v2)))
    if k > 1:
      @contract(P, 'scaled essential conditions, %s' % tag, T)
      def _(c, tag=tag, k=k):
        n, s = nodes(c, 's'); m, t = nodes(c, 't'); v1 = c.real('v1'); v2 = c.real('v2'); f = c.real('f'); c.requires(c.ne(f, c.num(0))); d = c.outview('d', 1, 'int'); w = c.outview('w', 1)
        c.call('h_es' + tag, s, t, 0, k - 1, v1, v2, k - 1, f, d, w); c.modifies(d, w)
        c.ensure_all('unknowns of the first', [n], lambda r, i: c.eq(r.new(d, i), s(i) * k)); c.ensure_all('unknowns of the second', [m], lambda r, i: c.eq(r.new(d, n + i), t(i) * k + k - 1))
        c.ensure_all('unscaled value', [n], lambda r, i: c.eq(r.new(w, i), v1)); c.ensure_all('scaled value', [m], lambda r, i: c.eq(r.new(w, n + i) * f, v2))
for kind, bad in ((0, True), (1, False), (3, True)):
    @contract(P, 'essential condition needs one of Value and Function, %d' % kind, T)
    def _(c, kind=kind, bad=bad): n, s = nodes(c, 's'); c.call('h_enov', s, kind); c.throws_iff(bad)

for D in (1, 2, 3):
    @contract(P, 'local number of a side, %dD' % D, T)
    def _(c, D=D):
        ne = c.size('ne', 1, (1, 2)); F = D + 1; e = c.iview('e', [ne * F], 0, 9, gen=lambda g, d: [g.randrange(9) for _ in range(d[0])]); q = c.int('q', 0, ne - 1); f = c.int('f', 0, 8)
        c.call('h_fo%d' % D, e, q, f, ret='int'); at = lambda k: c.eq(e(q * F + k), f)
        for k in range(F): c.ensure('first match %d' % k, lambda r, k=k: c.implies(c.And(at(k), *[c.Not(at(j)) for j in range(k)]), c.eq(r.value, k)))
        c.ensure('absent side', lambda r: c.implies(c.And(*[c.Not(at(j)) for j in range(F)]), c.lt(r.value, 0)))
    @contract(P, 'nodes of a side within its cell, %dD' % D, T)
    def _(c, D=D):
        ne = c.size('ne', 1, (1, 2)); nf = c.size('nf', 1, (1, 2)); N = D + 1
        cv = c.iview('cv', [ne * N], 0, 9, gen=lambda g, d: [x for _ in range(d[0] // N) for x in g.sample(range(N + 1), N)]); q = c.int('q', 0, ne - 1); f = c.int('f', 0, nf - 1)
        fv = c.iview('fv', [nf * D], 0, 9, gen=lambda g, d: [x for _ in range(d[0] // D) for x in g.sample(range(N + 1), D)]); o = c.iview('o', [D], 0, N)
        c.requires_all([N, N], lambda i, j: True if i == j else c.ne(cv(q * N + i), cv(q * N + j)))
        c.call('h_fm%d' % D, cv, fv, q, f, o); c.modifies(o)
        for k in range(D):
            for j in range(N): c.ensure('node %d is cell node %d' % (k, j), lambda r, k=k, j=j: c.implies(c.eq(fv(f * D + k), cv(q * N + j)), c.eq(r.new(o, k), j)))
for D in (2, 3):
    @contract(P, 'edges of a side, %dD' % D, T)
    def _(c, D=D):
        n = c.size('n', 0, (0, 1, 2)); x = c.view('x', [n, D + 1, D]); loc = c.iview('loc', [D], 0, D + 1); j = c.view('j', [n, D - 1, D]); c.call('h_sj%d' % D, x, loc, j); c.modifies(j)
        c.ensure_all('relative to the last node of the side', [n, D - 1, D], lambda r, i, k, a: c.eq(r.new(j, i, k, a), x(i, loc(k), a) - x(i, loc(D - 1), a)))
def area2(c, D, J):
    """square of the (parallelogram) measure spanned by the edges of a side"""
    if D == 1: return c.num(1)
    if D == 2: return J(0, 0) * J(0, 0) + J(0, 1) * J(0, 1)
    cr = [J(0, (a + 1) % 3) * J(1, (a + 2) % 3) - J(0, (a + 2) % 3) * J(1, (a + 1) % 3) for a in range(3)]
    return sum(t * t for t in cr)
for D in (1, 2, 3):
    @contract(P, 'measure of a side, %dD' % D, T)
    def _(c, D=D):
        n = c.size('n', 0, (0, 1, 2)); mul = c.real('mul'); j = c.view('j', [n, max(D - 1, 1), D]); o = c.vec('o', n); c.call('h_sw%d' % D, mul, j, o); c.modifies(o)
        c.ensure_all('multiplier times the measure spanned by the edges', [n], lambda r, i: c.eq(r.new(o, i), mul * c.sqrt(area2(c, D, lambda a, b: j(i, a, b)))))
@contract(P, 'side set by name', T)
def _(c): n, s = nodes(c, 's'); c.call('h_sideset', s, c.text('one'), ret='int'); c.throws_iff(False); c.ensure('that set', lambda r: c.eq(r.value, n))
@contract(P, 'absent side set is rejected', T)
def _(c): n, s = nodes(c, 's'); c.call('h_sideset', s, c.text('two'), ret='int'); c.throws_iff(True)
for t, k in (('Uniform', 1), ('Uniform Pressure', 2), ('Uniform Component', 3), ('uniform', None), ('', None), ('Pressure', None)):
    @contract(P, 'kind of natural condition, %r' % t, T)
    def _(c, t=t, k=k):
        c.call('h_nbt', c.text(t), ret='int'); c.throws_iff(k is None)
        if k: c.ensure('that kind', lambda r: c.eq(r.value, k))
WT = {1: (1, 1), 2: (1, 2), 3: (1, 6)}
SIDE = {1: [(0,), (1,)], 2: [(0, 1), (1, 2), (2, 0)], 3: [(0, 2, 1), (0, 1, 3), (1, 2, 3), (2, 0, 3)]}   # the library's table of sides
def sides(c, D, width, loc, F):
    """a side set whose sides f each belong to one cell (a boundary side), each cell at most once in the set, nodes loc of that cell; it is side F of that cell"""
    N = D + 1; ne = c.size('ne', 1, (1, 2, 3)); nv = c.size('nv', 1, (N, N + 2)); nf = c.size('nf', 1, (1, 2, 3)); ns = c.size('ns', 0, (0, 1, 2)); c.requires(c.le(ns, ne)); c.requires(c.le(ns, nf)); c.requires(c.ge(nv, N))
    conn = c.iview('conn', [ne * N], 0, nv, gen=lambda g, d: [x for _ in range(d[0] // N) for x in g.sample(range(nv), N)]); x = c.vec('x', nv * D)
    fe = c.iview('fe', [nf], 0, ne, gen=lambda g, d: (g.sample(range(ne), min(ne, nf)) + [0] * nf)[:nf])
    st = c.iview('set', [ns], 0, nf, gen=lambda g, d: g.sample(range(min(nf, ne)), d[0]))
    fv = c.iview('fv', [nf * D], 0, nv, gen=lambda g, d: [conn.data[(fe.data[(i // D,)] * N + loc[i % D],)] for i in range(d[0])])
    def dn(g, d):
        l = [nf + 7 + i for i in range(d[0])]
        for f in reversed(range(nf)): l[fe.data[(f,)] * N + F] = f
        return l
    down = c.iview('down', [ne * N], 0, 1 << 20, gen=dn)
    own = c.ghost('own', 1, lambda e: next(i for i in range(ns) if fe.data[(st.data[(i,)],)] == e)); c.requires_all([ns], lambda i: c.eq(own(fe(st(i))), i))   # no cell twice in the set
    for k in range(D): c.requires_all([nf], lambda f, k=k: c.eq(fv(f * D + k), conn(fe(f) * N + loc[k])))
    for j in range(N): c.requires_all([ns], lambda i, j=j: c.eq(down(fe(st(i)) * N + j), st(i)) if j == F else c.ne(down(fe(st(i)) * N + j), st(i)))
    for a in range(N):
        for b in range(a): c.requires_all([ne], lambda e, a=a, b=b: c.ne(conn(e * N + a), conn(e * N + b)))
    cfg = c.view('cfg', [ne, N, D]); r = c.view('r', [ne, width])
    return ne, nv, ns, [ne, nv, conn, x, fv, fe, down, st], fe, st, cfg, r, conn, x
def measure(c, D, cfg, e, l): return c.sqrt(area2(c, D, lambda k, a: cfg(e, l[k], a) - cfg(e, l[D - 1], a)))
def normal(c, D, X, F):
    """outward unit normal of side F of the simplex with nodes X"""
    t = SIDE[D][F]; e = lambda k, a: X(t[k], a) - X(t[0], a)
    if D == 1: return [c.num(-1 if F == 0 else 1)]
    v = [e(1, 1), -e(1, 0)] if D == 2 else [(e(1, (a + 1) % 3) * e(2, (a + 2) % 3) - e(1, (a + 2) % 3) * e(2, (a + 1) % 3)) / 2 for a in range(3)]
    m = c.sqrt(sum(t * t for t in v)); return [t / m for t in v]
def clauses(c, D, N, K, O, loc, ns, fe, st, cfg, r, load):
    for k in range(D):
        for d in range(N): c.ensure_all('node %d of the side, unknown %d' % (k, d), [ns], lambda R, i, k=k, d=d: c.eq(R.new(r, fe(st(i)), loc[k] * K + d + O), r(fe(st(i)), loc[k] * K + d + O) + load(fe(st(i)), d)))
    for j in range((D + 1) * K):
        if not any(loc[k] * K + O <= j < loc[k] * K + O + N for k in range(D)): c.ensure_all('entry %d of those cells kept' % j, [ns], lambda R, i, j=j: c.eq(R.new(r, fe(st(i)), j), r(fe(st(i)), j)))
def facing(D): return [(t[k:] + t[:k], F) for F, t in enumerate(SIDE[D]) for k in range(D)] + ([(t[::-1], F) for F, t in enumerate(SIDE[D])] if D > 1 else [])
for D, N, K, O in ((2, 2, 2, 0), (3, 3, 3, 0), (3, 1, 4, 3), (2, 1, 1, 0), (1, 1, 1, 0)):
  for q, (loc, F) in enumerate(facing(D)):
    @contract(P, 'uniform load on a side set, %dD, %d of %d unknowns from %d, nodes %s' % (D, N, K, O, loc), T, deep=D == 3 and q not in ((0, 5, 10, 13) if N == 3 else (1, 6)))
    def _(c, D=D, N=N, K=K, O=O, loc=loc, F=F):
        ne, nv, ns, args, fe, st, cfg, r, conn, x = sides(c, D, (D + 1) * K, loc, F); flux = c.vec('flux', N); sc = c.real('sc')
        c.call('h_sl%d%d%d%d' % (D, N, K, O), *args, cfg, flux, sc, r); c.modifies(r)
        clauses(c, D, N, K, O, loc, ns, fe, st, cfg, r, lambda e, d: sc * c.q(*WT[D]) * measure(c, D, cfg, e, loc) * flux(d))
for D, N, K, O in ((2, 2, 2, 0), (3, 3, 3, 0), (2, 2, 3, 0)):
  for q, (loc, F) in enumerate(facing(3)[2::4] if D == 3 else facing(D)):
    @contract(P, 'pressure on a side set, %dD, %d of %d unknowns from %d, nodes %s' % (D, N, K, O, loc), T, deep=D == 3 or q not in ((0, 3, 4, 6) if K == 2 else (1, 7)))
    def _(c, D=D, N=N, K=K, O=O, loc=loc, F=F):
        ne, nv, ns, args, fe, st, cfg, r, conn, x = sides(c, D, (D + 1) * K, loc, F); flux = c.vec('flux', N); sc = c.real('sc')
        X = lambda e: lambda k, a: x(conn(e * (D + 1) + k) * D + a)
        m2 = lambda e: area2(c, D, lambda k, a: X(e)(loc[k], a) - X(e)(loc[D - 1], a)); c.requires_all([ne], lambda e: c.ne(m2(e), c.num(0)))
        c.call('h_sp%d%d%d%d' % (D, N, K, O), *args, cfg, flux, sc, r); c.modifies(r)
        clauses(c, D, N, K, O, loc, ns, fe, st, cfg, r, lambda e, d: sc * c.q(*WT[D]) * measure(c, D, cfg, e, loc) * flux(d) * normal(c, D, X(e), F)[d])

for D in (1, 2, 3):
    for F in range(D + 1):
        @contract(P, 'outward normal of side %d, %dD' % (F, D), T)
        def _(c, D=D, F=F):
            N = D + 1; ne = c.size('ne', 1, (1, 2)); nv = c.size('nv', N, (N, N + 2)); conn = c.iview('conn', [ne * N], 0, nv, gen=lambda g, d: [x for _ in range(d[0] // N) for x in g.sample(range(nv), N)]); x = c.vec('x', nv * D); q = c.int('q', 0, ne - 1); o = c.vec('o', D)
            X = lambda k, a: x(conn(q * N + k) * D + a); t = SIDE[D][F]
            c.requires(c.ne(area2(c, D, lambda k, a: X(t[k], a) - X(t[D - 1], a)), c.num(0))); c.call('h_un%d' % D, ne, nv, conn, x, q, F, o); c.modifies(o)
            for d in range(D): c.ensure('component %d' % d, lambda r, d=d: c.eq(r.new(o, d), normal(c, D, X, F)[d]))
# what the input says -> the load vector (None: rejected)
def parsed(c, N, K, ty, comp, idx, kind, v, vs):
    z = c.num(0)
    if ty == 'Uniform':
        if kind in (0, 3): return None
        return [vs(d) for d in range(N)] if kind == 2 else [v if d == max(idx, 0) else z for d in range(N)]
    if ty != 'Uniform Component' or not kind & 1: return None
    k = {'x': 0, 'X': 0, 'y': 1, 'Y': 1, 'z': 2, 'Z': 2}.get(comp)
    return None if k is None or k >= N else [v if d == k else z for d in range(N)]
CASES = [('Uniform', '', -1, 2), ('Uniform', '', -1, 1), ('Uniform', '', 1, 1), ('Uniform', '', -1, 3), ('Uniform', '', -1, 0), ('', '', -1, 1), ('Bogus', '', -1, 1), ('Uniform Component', '', -1, 1), ('Uniform Component', 'x', -1, 0), ('Uniform Component', 'w', -1, 1), ('Uniform Pressure', '', -1, 0), ('Uniform Pressure', '', -1, 2)] + [('Uniform Component', x, -1, 1) for x in 'xXyYzZ']
for D, N, K, O in ((2, 2, 2, 0), (3, 3, 3, 0), (3, 1, 4, 3), (2, 2, 3, 0)):
    for ty, comp, idx, kind in CASES:
        if idx >= N: continue
        @contract(P, 'natural condition from input, %dD, %d of %d unknowns, %s%s%s%s' % (D, N, K, ty or 'no type', ' ' + comp if comp else '', ', index %d' % idx if idx >= 0 else '', ('', ', value', ', values', ', value and values')[kind]), T)
        def _(c, D=D, N=N, K=K, O=O, ty=ty, comp=comp, idx=idx, kind=kind):
            loc, F = facing(D)[1]; ne, nv, ns, args, fe, st, cfg, r, conn, x = sides(c, D, (D + 1) * K, loc, F); v = c.real('v'); vs = c.vec('vs', N); sc = c.real('sc')
            c.call('h_nb%d%d%d%d' % (D, N, K, O), *args, cfg, c.text(ty), c.text(comp), idx, kind, v, vs, sc, r); c.modifies(r); f = parsed(c, N, K, ty, comp, idx, kind, v, vs); c.throws_iff(f is None)
            if f: clauses(c, D, N, K, O, loc, ns, fe, st, cfg, r, lambda e, d: sc * c.q(*WT[D]) * measure(c, D, cfg, e, loc) * f[d])
def det(c, D, m):
    if D == 1: return m(0, 0)
    if D == 2: return m(0, 0) * m(1, 1) - m(0, 1) * m(1, 0)
    return sum((m(0, j) * (m(1, (j + 1) % 3) * m(2, (j + 2) % 3) - m(1, (j + 2) % 3) * m(2, (j + 1) % 3)) for j in range(3)), c.num(0))
for tag, D, K in (('m1', 1, 1), ('m2', 2, 2), ('m3', 3, 3), ('t3', 3, 1)):
    @contract(P, 'body load, %s' % tag, T)
    def _(c, tag=tag, D=D, K=K):
        ne, nv, conn, x = mesh(c, D); nc, cells = dom(c, ne); idx = c.int('idx', -1, K - 1); k = c.vec('k', 4); z = c.view('z', [nc, D + 1]); sc = c.real('sc'); N = D + 1; r = c.view('r', [nc, N * K])
        c.call('h_bl' + tag, ne, nv, conn, x, cells, idx, k, z, sc, r); c.modifies(r); X = lambda e, n, a: x(conn(e * N + n) * D + a); dof = c.If(c.lt(idx, 0), 0, idx)
        def load(i):
            e = cells(i); J = c.abs(det(c, D, lambda a, b: X(e, b, a) - X(e, D, a))); cen = [sum((X(e, n, a) for n in range(N)), c.num(0)) / N for a in range(D)]
            f = k(0) + sum((k(1 + a) * cen[a] for a in range(D)), c.num(0)); w = {1: c.q(1, 1), 2: c.q(1, 2), 3: c.q(1, 6)}[D]
            return sc * w * J * f * (sum((z(i, n) for n in range(N)), c.num(0)) / N) / N
        for n in range(N):
            for d in range(K): c.ensure_all('node %d, unknown %d' % (n, d), [nc], lambda R, i, n=n, d=d: c.eq(R.new(r, i, n * K + d), r(i, n * K + d) + c.If(c.eq(dof, d), load(i), c.num(0))))
