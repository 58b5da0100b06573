from contract import contract
from csr import csr, length
P, T = 'P03', 'p03.cpp'

def mat(A, nr, nc, rb=1, cb=1): return list(A) + [nr, nc, rb, cb]

@contract(P, 'sparse matrix times vector', T)
def _(c):
    n = c.size('n', 1, (1, 2)); m = c.size('m', 1, (1, 2)); z = c.size('nnz', 1, (1, 2))
    A = csr(c, 'A', n, m, z); R, C, E = A
    x = c.vec('x', m); y = c.vec('y', n)
    c.call('h_crs_mtv', *mat(A, n, m), x, y); c.modifies(y)
    c.ensure_all('y + A x', [n], lambda r, i: c.eq(r.new(y, i), y(i) + c.sum(length(R, i), lambda k: E(R(i) + k) * x(C(R(i) + k)))))

@contract(P, 'sparse matrix times vector rejects', T)
def _(c):
    n = c.size('n', 1, (1, 2)); m = c.size('m', 1, (1, 2)); z = c.size('nnz', 1, (1, 2)); nx = c.size('nx', 1, (1, 2)); ny = c.size('ny', 1, (1, 2))
    A = csr(c, 'A', n, m, z)
    x = c.vec('x', nx); y = c.vec('y', ny)
    c.call('h_crs_mtv', *mat(A, n, m), x, y); c.modifies(y)
    c.throws_iff(c.Or(c.ne(m, nx), c.ne(n, ny)))

for rb, cb in ((2, 2), (2, 3), (3, 1)):
    def mk(rb, cb):
        @contract(P, 'block matrix times vector %dx%d' % (rb, cb), T)
        def _(c):
            n = c.size('n', 1, (1, 2)); m = c.size('m', 1, (1, 2)); z = c.size('nnz', 1, (1, 2))
            A = csr(c, 'A', n, m, z, rb, cb); R, C, E = A
            x = c.vec('x', m * cb); y = c.vec('y', n * rb)
            c.call('h_crs_mtv', *mat(A, n * rb, m * cb, rb, cb), x, y); c.modifies(y)
            c.ensure_all('y + A x', [n, rb], lambda r, i, d: c.eq(r.new(y, i * rb + d), y(i * rb + d) + c.sum(length(R, i), lambda k:
                sum((E((R(i) + k) * (rb * cb) + d * cb + j) * x(C(R(i) + k) * cb + j) for j in range(cb)), c.num(0)))))
        @contract(P, 'row sum %dx%d' % (rb, cb), T)
        def _(c):
            n = c.size('n', 1, (1, 2)); m = c.size('m', 1, (1, 2)); z = c.size('nnz', 1, (1, 2))
            A = csr(c, 'A', n, m, z, rb, cb); R, C, E = A
            s = c.vec('s', n * rb)
            c.call('h_crs_rowsum', *mat(A, n * rb, m * cb, rb, cb), n, s); c.modifies(s)
            c.ensure_all('s + row sums', [n, rb], lambda r, i, d: c.eq(r.new(s, i * rb + d), s(i * rb + d) + c.sum(length(R, i), lambda k:
                sum((E((R(i) + k) * (rb * cb) + d * cb + j) for j in range(cb)), c.num(0)))))
        @contract(P, 'divide rows by diagonal %dx%d' % (rb, cb), T)
        def _(c):
            n = c.size('n', 1, (1, 2)); m = c.size('m', 1, (1, 2)); z = c.size('nnz', 1, (1, 2))
            A = csr(c, 'A', n, m, z, rb, cb); R, C, E = A
            d = c.view('d', [n * rb], lo=c.q(1, 8))
            i = c.int('i', 0); k = c.int('k', 0); c.requires(c.lt(i, n)); c.requires(c.lt(k, length(R, i)))
            c.call('h_crs_diaginv', *mat(A, n * rb, m * cb, rb, cb), n, d); c.modifies(E)
            c.ensure_all('entry over diagonal', [rb, cb], lambda r, p, q: c.eq(r.new(E, (R(i) + k) * (rb * cb) + p * cb + q),
                E((R(i) + k) * (rb * cb) + p * cb + q) / d(i * rb + p)))
    mk(rb, cb)

for t, k in (('', 2), ('1', 1), ('3', 3), ('23', 2), ('d', 2)):
    @contract(P, 'inverse weight' + {'': '', '1': ', one row per node', '3': ', three rows per node', '23': ', two rows and three columns per node', 'd': ' without a scale'}[t], T)
    def _(c, t=t, k=k):
        n = c.size('n', 1, (1, 2)); s = c.view('s', [k * n], lo=c.q(1, 8)); b = c.vec('b', k * n); x = c.vec('x', k * n); a = c.real('a')
        c.call('h_crs_invw' + t, n, s, b, x, *([] if t == 'd' else [a])); c.modifies(x)
        c.ensure_all('scaled quotient', [k * n], lambda r, i: c.eq(r.new(x, i), (c.num(1) if t == 'd' else a) * b(i) / s(i)))

@contract(P, 'row-summed inverse multiply', T)
def _(c):
    n = c.size('n', 1, (1, 2)); m = c.size('m', 1, (1, 2)); za = c.size('nnza', 1, (1, 2)); zb = c.size('nnzb', 1, (1, 2))
    A = csr(c, 'A', n, m, za, 2, 2); B = csr(c, 'B', n, m, zb, 2, 3)
    R, C, E = A; R2, C2, E2 = B
    rs = lambda i, p: c.sum(length(R, i), lambda k: sum((E((R(i) + k) * 4 + p * 2 + j) for j in range(2)), c.num(0)))
    i = c.int('i', 0); k = c.int('k', 0); c.requires(c.lt(i, n)); c.requires(c.lt(k, length(R2, i)))
    for p in range(2): c.requires(c.ne(rs(i, p), 0))
    c.call('h_crs_rsim', *mat(A, n * 2, m * 2, 2, 2), *mat(B, n * 2, m * 3, 2, 3)); c.modifies(E2)
    c.ensure_all('entry over row sum', [2, 3], lambda r, p, q: c.eq(r.new(E2, (R2(i) + k) * 6 + p * 3 + q) * rs(i, p), E2((R2(i) + k) * 6 + p * 3 + q)))

for rb, cb in ((1, 1), (2, 2), (2, 3)):
    def mk(rb, cb):
        @contract(P, 'block to point rows %dx%d' % (rb, cb), T)
        def _(c):
            n = c.size('n', 1, (1, 2)); m = c.size('m', 1, (1, 2)); z = c.size('nnz', 1, (1, 2))
            A = csr(c, 'A', n, m, z, rb, cb); R, C, E = A
            r1 = c.outview('r1', 1, 'int'); c1 = c.outview('c1', 1, 'int'); e1 = c.outview('e1', 1)
            c.call('h_crs_nonblock', *mat(A, n * rb, m * cb, rb, cb), r1, c1, e1, 1, 0)
            c.ensure('sizes', lambda r: c.And(c.eq(r.ext(r1, 0), n * rb + 1), c.eq(r.ext(c1, 0), z * rb * cb), c.eq(r.ext(e1, 0), z * rb * cb)))
            c.ensure_all('row starts', [n, rb], lambda r, i, p: c.eq(r.new(r1, i * rb + p), R(i) * (rb * cb) + p * cb * length(R, i)))
            c.ensure('row end', lambda r: c.eq(r.new(r1, n * rb), z * rb * cb))
        @contract(P, 'block to point entries %dx%d' % (rb, cb), T, budget=20)
        def _(c):
            n = c.size('n', 1, (1, 2)); m = c.size('m', 1, (1, 2)); z = c.size('nnz', 1, (1, 2))
            A = csr(c, 'A', n, m, z, rb, cb); R, C, E = A
            i = c.int('i', 0); k = c.int('k', 0); c.requires(c.lt(i, n)); c.requires(c.lt(k, length(R, i)))
            r1 = c.outview('r1', 1, 'int'); c1 = c.outview('c1', 1, 'int'); e1 = c.outview('e1', 1)
            c.call('h_crs_nonblock', *mat(A, n * rb, m * cb, rb, cb), r1, c1, e1, 1, 0)
            at = lambda p, q: R(i) * (rb * cb) + p * cb * length(R, i) + k * cb + q
            c.ensure_all('columns', [rb, cb], lambda r, p, q: c.eq(r.new(c1, at(p, q)), C(R(i) + k) * cb + q))
            c.ensure_all('values', [rb, cb], lambda r, p, q: c.eq(r.new(e1, at(p, q)), E((R(i) + k) * (rb * cb) + p * cb + q)))
    mk(rb, cb)

# ---- functions that go through the external sparse kernels: only the compiled code is exercised (labelled, not counted as proved)
from csr import dense, dense_new

@contract(P, 'sort column entries', T, budget=60)
def _(c):
    n = c.size('n', 1, (1, 2)); m = c.size('m', 1, (2, 3)); z = c.size('nnz', 1, (2, 3))
    c.native_only('the exchange sort permutes in place inside one row')
    R, C, E = csr(c, 'A', n, m, z)
    c.call('h_crs_sort', R, C, E); c.modifies(C, E)
    def rowset(r, i):
        new = [(r.new(C, k), r.new(E, k)) for k in range(R(i), R(i + 1))]
        return [x for x, _ in new] == sorted(x for x, _ in new) and sorted(new) == sorted((C(k), E(k)) for k in range(R(i), R(i + 1)))
    c.ensure_all('rows sorted, pairs kept', [n], lambda r, i: rowset(r, i))

for rb, cb in ((1, 1), (2, 2), (2, 3), (1, 3)):
    def mk(rb, cb):
        @contract(P, 'point to block %dx%d' % (rb, cb), T)
        def _(c):
            c.native_only('works on the result of the exchange sort')
            n = c.size('n', 1, (1, 2)); m = c.size('m', 2, (2, 3)); z = c.size('nnz', 1, (2, 3))
            A = csr(c, 'A', n, m, z, rb, cb, distinct=True); R, C, E = A
            rows = []; ents = []
            g = c.rng
            for i in range(n):
                for p in range(rb):
                    row = [(C(k) * cb + q, E(k * rb * cb + p * cb + q)) for k in range(R(i), R(i + 1)) for q in range(cb)]
                    g.shuffle(row); rows.append(row)
            flat = [x for row in rows for x in row]; starts = [0]
            for row in rows: starts.append(starts[-1] + len(row))
            r1 = c.iview('r1', [n * rb + 1], gen=lambda g, d: starts); c1 = c.iview('c1', [len(flat)], gen=lambda g, d: [x for x, _ in flat]); e1 = c.view('e1', [len(flat)], gen=lambda g, d: [x for _, x in flat])
            r2 = c.outview('r2', 1, 'int'); c2 = c.outview('c2', 1, 'int'); e2 = c.outview('e2', 1)
            c.call('h_crs_set', n * rb, m * cb, rb, cb, r1, c1, e1, r2, c2, e2); c.modifies(c1, e1)
            c.ensure('same matrix', lambda r: dense_new(r, r2, c2, e2, n, m, rb, cb) == dense(A, n, m, rb, cb))
            c.ensure('block count', lambda r: r.ext(c2, 0) == z and r.ext(e2, 0) == z * rb * cb)
    mk(rb, cb)

for rb, kb, cb in ((1, 1, 1), (2, 2, 2), (2, 3, 1), (1, 2, 3)):
    def mk(rb, kb, cb):
        @contract(P, 'matrix product %dx%dx%d' % (rb, kb, cb), T)
        def _(c):
            c.native_only('external sparse product kernel')
            n = c.size('n', 1, (1, 2)); k = c.size('k', 1, (1, 2)); m = c.size('m', 1, (1, 2)); za = c.size('nnza', 1, (1, 2, 3)); zb_ = c.size('nnzb', 1, (1, 2, 3))
            A = csr(c, 'A', n, k, za, rb, kb, distinct=True); B = csr(c, 'B', k, m, zb_, kb, cb, distinct=True)
            r2 = c.outview('r2', 1, 'int'); c2 = c.outview('c2', 1, 'int'); e2 = c.outview('e2', 1)
            c.call('h_crs_mm', *mat(A, n * rb, k * kb, rb, kb), *mat(B, k * kb, m * cb, kb, cb), r2, c2, e2)
            a, b = dense(A, n, k, rb, kb), dense(B, k, m, kb, cb)
            def ok(r):
                o = dense_new(r, r2, c2, e2, n, m, rb, cb)
                return all(c.eq(o.get((i, j), 0.0), sum(a.get((i, l), 0.0) * b.get((l, j), 0.0) for l in range(k * kb))) for i in range(n * rb) for j in range(m * cb)) 
            c.ensure('A B', ok)
    mk(rb, kb, cb)

@contract(P, 'matrix product rejects shapes', T)
def _(c):
    n = c.size('n', 1, (1, 2)); k = c.size('k', 1, (1, 2)); k2 = c.size('k2', 1, (1, 2)); m = c.size('m', 1, (1, 2)); on = c.size('on', 1, (1, 2)); om = c.size('om', 1, (1, 2))
    c.native_only('external sparse product kernel')
    A = csr(c, 'A', n, k, 1); B = csr(c, 'B', k2, m, 1)
    c.call('h_crs_mmo', *mat(A, n, k), *mat(B, k2, m), on, om)
    c.throws_iff(c.Or(c.ne(k, k2), c.ne(on, n), c.ne(om, m)))

for rb, cb in ((2, 2), (3, 3), (4, 1)):
    def mk(rb, cb):
        @contract(P, 'matrix difference %dx%d' % (rb, cb), T)
        def _(c):
            c.native_only('external sparse addition kernel')
            n = c.size('n', 1, (1, 2)); m = c.size('m', 1, (1, 2)); za = c.size('nnza', 1, (1, 2, 3)); zb_ = c.size('nnzb', 1, (1, 2, 3)); off = c.int('off', 0, rb - 1)
            A = csr(c, 'A', n, m, za, rb, cb, distinct=True); B = csr(c, 'B', n, m, zb_, 1, cb, distinct=True)
            r2 = c.outview('r2', 1, 'int'); c2 = c.outview('c2', 1, 'int'); e2 = c.outview('e2', 1)
            c.call('h_crs_minus', *mat(A, n * rb, m * cb, rb, cb), *mat(B, n, m * cb, 1, cb), off, r2, c2, e2)
            a, b = dense(A, n, m, rb, cb), dense(B, n, m, 1, cb)
            def ok(r):
                o = dense_new(r, r2, c2, e2, n, m, rb, cb)
                return all(c.eq(o.get((i, j), 0.0), a.get((i, j), 0.0) - (b.get((i // rb, j), 0.0) if i % rb == off else 0.0)) for i in range(n * rb) for j in range(m * cb))
            c.ensure('A minus embedded B', ok)
    mk(rb, cb)

@contract(P, 'condensation', T)
def _(c):
    c.native_only('external sparse kernels')
    n = c.size('n', 1, (1, 2)); m = c.size('m', 1, (1, 2)); za = c.size('za', 1, (1, 2, 3)); zb_ = c.size('zb', 1, (1, 2)); zc = c.size('zc', 1, (1, 2)); zd = c.size('zd', 1, (1, 2)); off = c.int('off', 0, 2)
    A = csr(c, 'A', n, n, za, 3, 3, distinct=True); B = csr(c, 'B', n, m, zb_, 1, 2, distinct=True); C = csr(c, 'C', m, m, zc, 2, 2, distinct=True); D = csr(c, 'D', m, n, zd, 2, 3, distinct=True)
    a, b, cc, d = dense(A, n, n, 3, 3), dense(B, n, m, 1, 2), dense(C, m, m, 2, 2), dense(D, m, n, 2, 3)
    rs = [sum(cc.get((i, j), 0.0) for j in range(2 * m)) for i in range(2 * m)]
    c.requires(all(abs(x) > 0.25 for i, x in enumerate(rs) if any((i, j) in d for j in range(3 * n))))
    r2 = c.outview('r2', 1, 'int'); c2 = c.outview('c2', 1, 'int'); e2 = c.outview('e2', 1)
    c.call('h_crs_condense', *mat(A, n * 3, n * 3, 3, 3), *mat(B, n, m * 2, 1, 2), *mat(C, m * 2, m * 2, 2, 2), *mat(D, m * 2, n * 3, 2, 3), off, r2, c2, e2); c.modifies(D[2])
    def ok(r):
        o = dense_new(r, r2, c2, e2, n, n, 3, 3)
        for i in range(3 * n):
            for j in range(3 * n):
                w = a.get((i, j), 0.0)
                if i % 3 == off: w -= sum(b.get((i // 3, l), 0.0) * (d[(l, j)] / rs[l]) for l in range(2 * m) if (l, j) in d)
                if not c.eq(o.get((i, j), 0.0), w): return False
        return True
    c.ensure('A - B rowsum(C)^-1 D', ok)
