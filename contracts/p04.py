"""Essential boundary conditions imposed on an assembled symmetric sparse system."""
from contract import contract, Reject
P, T = 'P04', 'p04.cpp'

def system(c, N):
    """a structurally and numerically symmetric (block) matrix with distinct columns per row, distinct constrained dofs"""
    n = c.size('n', 1, (1, 2, 3, 4)); S = {}
    def gz(g):
        p = g.randint(0, min(n * (n - 1) // 2, 3 * n)); return 2 * p + g.choice([n, n, n, g.randint(0, n)])
    z = c.size('nnz', 0, (1, 3, 5), gen=gz); nb = c.size('nb', 0, (0, 1, 2), gen=lambda g: g.randint(0, n * N))
    def adj(g):
        lo, hi = max(0, (z - n + 1) // 2), min(n * (n - 1) // 2, z // 2)
        if lo > hi: raise Reject()
        p = g.randint(lo, hi); prs = [(i, j) for i in range(n) for j in range(i)]; g.shuffle(prs)
        dg = list(range(n)); g.shuffle(dg)
        es = [x for i, j in prs[:p] for x in ((i, j), (j, i))] + [(i, i) for i in dg[:z - 2 * p]]
        rows = [[j for i, j in es if i == r] for r in range(n)]
        for r in rows: g.shuffle(r)
        S['rows'] = rows
    def grow(g, d):
        adj(g); o = [0]
        for r in S['rows']: o.append(o[-1] + len(r))
        return o
    R = c.iview('row', [n + 1], 0, z + 1, gen=grow)
    C = c.iview('col', [z], 0, n, gen=lambda g, d: [x for r in S['rows'] for x in r])
    def gent(g, d):
        out = {}; val = {}; k = 0
        for i, r in enumerate(S['rows']):
            for j in r:
                for p in range(N):
                    for q in range(N):
                        key = tuple(sorted((i * N + p, j * N + q))); val.setdefault(key, g.randrange(-64, 65) / 8.0)
                        out[(k * N * N + p * N + q,)] = val[key]
                k += 1
        return out
    E = c.view('ent', [z * (N * N)], gen=gent)
    f = c.vec('rhs', n * N)
    def gd(g, d):
        l = list(range(n * N)); g.shuffle(l)
        if d[0] > len(l): raise Reject()
        return l[:d[0]]
    D = c.iview('dof', [nb], 0, n * N, gen=gd); v = c.vec('val', nb)
    # ghost functions: the row of a stored entry, the place of (row, column), the condition on a degree of freedom
    def n_row(a):
        for i in range(n):
            if R(i) <= a < R(i + 1): return i
        raise Reject()
    def n_find(i, j):
        for a in range(R(i), R(i + 1)):
            if C(a) == j: return a
        return -1
    def n_bc(d):
        for b in range(nb):
            if D(b) == d: return b
        return -1
    row = c.ghost('rowof', 1, n_row); find = c.ghost('find', 2, n_find); bc = c.ghost('bcof', 1, n_bc)
    c.requires(c.eq(R(0), 0)); c.requires(c.eq(R(n), z))
    if c.native:
        for i in range(n):
            if R(i) > R(i + 1): raise Reject()
        if len({D(b) for b in range(nb)}) != nb: raise Reject()
        for a in range(z):
            i, j = row(a), C(a)
            if find(i, j) != a: raise Reject()
            b = find(j, i)
            if b < 0: raise Reject()
            for p in range(N):
                for q in range(N):
                    if E(a * N * N + p * N + q) != E(b * N * N + q * N + p): raise Reject()
    else:
        i_, z_ = (lambda i, hi: c.And(c.le(0, i), c.lt(i, hi))), z
        c.assume_all(2, lambda i, j: c.implies(c.And(c.le(0, i), c.le(i, j), c.le(j, n)), c.le(R(i), R(j))), lambda i, j: [[R(i), R(j)]])
        c.assume_all(1, lambda a: c.implies(i_(a, z), c.And(i_(row(a), n), c.le(R(row(a)), a), c.lt(a, R(row(a) + 1)), c.eq(find(row(a), C(a)), a))), lambda a: [C(a), row(a)])
        c.assume_all(2, lambda i, a: c.implies(c.And(i_(i, n), c.le(R(i), a), c.lt(a, R(i + 1))), c.eq(row(a), i)), lambda i, a: [[R(i), C(a)], [R(i), row(a)]])
        def sym(a):
            b = find(C(a), row(a)); return c.implies(i_(a, z), c.And(i_(b, z), c.eq(row(b), C(a)), c.eq(C(b), row(a))))
        c.assume_all(1, sym, lambda a: [C(a)])
        c.assume_all(1, lambda b: c.implies(i_(b, nb), c.eq(bc(D(b)), b)), lambda b: [D(b)])
        def hint(x, Ts):
            if len(Ts) != 2: return None
            d, e = c.rowarg(Ts[0], R), c.rowarg(Ts[1], R)
            if d is None or e is None: return None
            a = c.div(x[0], N * N) if N > 1 else x[0]
            return [[find(d, row(a)) - R(d)], [a - R(row(a))]]
        c.hint(hint)
    con = (lambda d: bc(d) >= 0) if c.native else lambda d: c.And(c.le(0, bc(d)), c.lt(bc(d), nb), c.eq(D(bc(d)), d))
    return n, z, nb, R, C, E, f, D, v, row, bc, con

def spec(c, N, fn, scaled):
    n, z, nb, R, C, E, f, D, v, row, bc, con = system(c, N)
    s = c.real('s') if scaled else c.num(1)
    c.call(fn, R, C, E, n * N, f, D, v, *([s] if scaled else [])); c.modifies(E, f)
    done = lambda d, k: c.And(con(d), c.lt(bc(d), k))
    def ent(k, x):
        a = c.div(x, N * N) if N > 1 else x
        p = c.mod(c.div(x, N), N) if N > 1 else 0; q = c.mod(x, N) if N > 1 else 0
        i, j = row(a) * N + p, C(a) * N + q
        return c.If(c.And(c.eq(i, j), done(i, k)), c.num(1), c.If(c.Or(done(i, k), done(j, k)), c.num(0), E(x)))
    def corr(k, j):
        jn, jq = (c.div(j, N), c.mod(j, N)) if N > 1 else (j, 0)
        def one(b):
            d = D(b); dn, dp = (c.div(d, N), c.mod(d, N)) if N > 1 else (d, 0)
            return c.sum(R(dn + 1) - R(dn), lambda t: c.If(c.eq(C(R(dn) + t), jn), E((R(dn) + t) * (N * N) + dp * N + jq), c.num(0))) * (s * v(b))
        return f(j) - c.sum(k, one)
    c.invariant(nb, groups=dict(ent=N * N, rhs=N), ent=lambda k, x: (True, ent(k, x)), rhs=lambda k, j: (c.Not(con(j)), corr(k, j)))
    c.ensure_all('constrained rows and columns are those of the identity, others kept', [z, N * N], lambda r, a, w: c.eq(r.new(E, a * (N * N) + w), ent(nb, a * (N * N) + w)))
    c.ensure_all('constrained right-hand side is the scaled value', [nb], lambda r, b: c.eq(r.new(f, D(b)), s * v(b)))
    c.ensure_all('free right-hand side loses the known part', [n, N], lambda r, i, w: c.implies(c.Not(con(i * N + w)), c.eq(r.new(f, i * N + w), corr(nb, i * N + w))))

for nm, N, fn, sc in (('point matrix', 1, 'h_con1', True), ('point matrix, default scale', 1, 'h_cond', False), ('point matrix, three dofs per node', 1, 'h_con3', True), ('1x1 blocks', 1, 'h_blk1', True),
                      ('2x2 blocks', 2, 'h_blk2', True), ('3x3 blocks', 3, 'h_blk3', True), ('2x2 blocks, default scale', 2, 'h_blkd', False)):
    def mk(nm, N, fn, sc):
        @contract(P, 'constraints on a %s' % nm, T, **({'procs': 4, 'budget': 300} if N > 1 else {}))
        def _(c): spec(c, N, fn, sc)
    mk(nm, N, fn, sc)

for nm, N, fn in (('point matrix', 1, 'h_con1'), ('2x2 blocks', 2, 'h_blk2'), ('3x3 blocks', 3, 'h_blk3')):
    def mk(nm, N, fn):
        @contract(P, 'solution kept by constraints on a %s' % nm, T)
        def _(c):
            c.native_only('exchanges a sum over a row with a sum over a column')
            n, z, nb, R, C, E, f, D, v, row, bc, con = system(c, N); s = c.real('s'); u0 = c.vec('u', n * N)
            c.call(fn, R, C, E, n * N, f, D, v, s); c.modifies(E, f)
            u = lambda j: s * v(bc(j)) if con(j) else u0(j)
            def resid(e, g, i):
                t = -g(i)
                for a in range(R(i // N), R(i // N + 1)):
                    for q in range(N): t += e(a * N * N + (i % N) * N + q) * u(C(a) * N + q)
                return t
            # every vector that meets the conditions has the same residual in the free equations and none in the constrained ones with a stored diagonal
            c.ensure_all('residual of the free equations', [n * N], lambda r, i: con(i) or c.eq(resid(lambda x: r.new(E, x), lambda j: r.new(f, j), i), resid(E, f, i)))
            c.ensure_all('constrained equations hold', [n * N], lambda r, i: not con(i) or not any(C(a) == i // N for a in range(R(i // N), R(i // N + 1))) or c.eq(resid(lambda x: r.new(E, x), lambda j: r.new(f, j), i), 0))
            c.ensure_all('still symmetric', [z, N, N], lambda r, a, p, q: c.eq(r.new(E, a * N * N + p * N + q), next(r.new(E, b * N * N + q * N + p) for b in range(R(C(a)), R(C(a) + 1)) if C(b) == row(a))))
    mk(nm, N, fn)
