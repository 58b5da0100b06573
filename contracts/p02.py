from contract import contract
P, T = 'P02', 'p02.cpp'

@contract(P, 'blas2 fill', T)
def _(c):
    n = c.size('n', 0, (0, 1, 2)); m = c.size('m', 0, (0, 1, 2)); s = c.real('s'); a = c.view('a', [n, m])
    c.call('h_b2_fill', s, a); c.modifies(a)
    c.throws_iff(c.Or(c.eq(n, 0), c.eq(m, 0)))
    c.ensure_all('filled', [n, m], lambda r, i, j: c.eq(r.new(a, i, j), s))

@contract(P, 'blas2 scale', T)
def _(c):
    n = c.size('n', 0, (0, 1, 2)); m = c.size('m', 0, (0, 1, 2)); s = c.real('s'); a = c.view('a', [n, m])
    c.call('h_b2_scale', s, a); c.modifies(a)
    c.throws_iff(c.Or(c.eq(n, 0), c.eq(m, 0)))
    c.ensure_all('scaled', [n, m], lambda r, i, j: c.eq(r.new(a, i, j), s * a(i, j)))

@contract(P, 'blas2 update', T)
def _(c):
    n = c.size('n', 0, (0, 1, 2)); m = c.size('m', 0, (0, 1, 2)); n2 = c.size('n2', 0, (0, 1, 2)); m2 = c.size('m2', 0, (0, 1, 2))
    s = c.real('s'); t = c.real('t'); a = c.view('a', [n, m]); b = c.view('b', [n2, m2])
    c.call('h_b2_update', s, a, t, b); c.modifies(b)
    c.throws_iff(c.Or(c.ne(n, n2), c.ne(m, m2)))
    c.ensure_all('b = s a + t b', [n, m], lambda r, i, j: c.eq(r.new(b, i, j), s * a(i, j) + t * b(i, j)))

for D, O in ((3, 1), (4, 3)):
    def mk(D, O):
        @contract(P, 'blas2 axpy<%d,%d>' % (D, O), T)
        def _(c):
            n = c.size('n', 1, (1, 2)); m = c.size('m', 1, (1, 2)); s = c.real('s')
            w = c.size('w', 1, (3, 4, 7)); c.requires(c.lt(D * (m - 1) + O, w)); a = c.view('a', [n, m]); b = c.view('b', [n, w])
            c.call('h_b2_axpy%d%d' % (D, O), s, a, b); c.modifies(b)
            c.ensure_all('offset entries', [n, m], lambda r, i, j: c.eq(r.new(b, i, D * j + O), s * b(i, D * j + O) + a(i, j)))
            c.ensure_all('other entries kept', [n, w], lambda r, i, j: c.implies(c.Or(c.ne(c.mod(j, D), O), c.ge(j, D * m)), c.eq(r.new(b, i, j), b(i, j))))
    mk(D, O)

@contract(P, 'blas2 axpy rejects', T)
def _(c):
    n = c.size('n', 0, (0, 1)); m = c.size('m', 0, (0, 1)); n2 = c.size('n2', 0, (0, 1)); s = c.real('s')
    a = c.view('a', [n, m]); b = c.view('b', [n2, 3 * m])
    c.call('h_b2_axpy31', s, a, b); c.modifies(b)
    c.throws_iff(c.Or(c.eq(n, 0), c.eq(m, 0), c.ne(n, n2)))

for t in 'NnTt':
    def mk(t):
        @contract(P, 'matrix_times_vector ' + t, T)
        def _(c):
            n = c.size('n', 1, (1, 2)); m = c.size('m', 1, (1, 2)); k = c.size('k', 1, (1, 2, 3))
            s = c.real('s'); b = c.real('b')
            A = c.view('A', [n, m, k])
            x, y = (c.view('x', [n, k]), c.view('y', [n, m])) if t in 'Nn' else (c.view('x', [n, m]), c.view('y', [n, k]))
            c.call('h_b2_mtv', c.text(t), s, A, x, b, y); c.modifies(y)
            if t in 'Nn': c.ensure_all('y = s A x + b y', [n, m], lambda r, e, i: c.eq(r.new(y, e, i), b * y(e, i) + s * c.sum(k, lambda j: A(e, i, j) * x(e, j))))
            else: c.ensure_all('y = s A^T x + b y', [n, k], lambda r, e, j: c.eq(r.new(y, e, j), b * y(e, j) + s * c.sum(m, lambda i: A(e, i, j) * x(e, i))))
    mk(t)

@contract(P, 'matrix_times_vector rejects', T)
def _(c):
    n = c.size('n', 1, (1, 2)); nx = c.size('nx', 1, (1, 2)); ny = c.size('ny', 1, (1, 2))
    s = c.real('s'); b = c.real('b'); A = c.view('A', [n, 2, 2]); x = c.view('x', [nx, 2]); y = c.view('y', [ny, 2])
    c.call('h_b2_mtv', c.text('N'), s, A, x, b, y); c.modifies(y)
    c.throws_iff(c.Or(c.ne(n, nx), c.ne(n, ny)))

@contract(P, 'matrix_times_vector bad flag', T)
def _(c):
    n = c.size('n', 1, (1, 2)); s = c.real('s'); b = c.real('b'); A = c.view('A', [n, 2, 2]); x = c.view('x', [n, 2]); y = c.view('y', [n, 2])
    c.call('h_b2_mtv', c.text('X'), s, A, x, b, y)
    c.throws_iff(True)

@contract(P, 'blas2 extract<3,1>', T)
def _(c):
    n = c.size('n', 1, (1, 2)); m = c.size('m', 1, (1, 2)); w = c.size('w', 1, (2, 5, 6)); c.requires(c.lt(3 * (m - 1) + 1, w)); a = c.view('a', [n, w]); b = c.view('b', [n, m])
    c.call('h_b2_extract31', a, b); c.modifies(b)
    c.ensure_all('strided', [n, m], lambda r, i, j: c.eq(r.new(b, i, j), a(i, 3 * j + 1)))

for nm, D, O in (('n', 3, 0), ('o', 2, 1)):
    def mk(nm, D, O):
        @contract(P, 'blas2 extract dofs ' + nm, T)
        def _(c):
            n = c.size('n', 1, (1, 2)); m = c.size('m', 1, (1, 2)); w = c.size('w', 1, (4, 8, 9)); wb = c.size('wb', 1, (3, 6, 7)); c.requires(c.le(4 * (m - 1) + D + O, w)); c.requires(c.le(D * m, wb))
            a = c.view('a', [n, w]); b = c.view('b', [n, wb])
            c.call('h_b2_extract_' + nm, m, a, b); c.modifies(b)
            c.ensure_all('strided', [n, m, D], lambda r, i, j, d: c.eq(r.new(b, i, D * j + d), a(i, 4 * j + d + O)))
            c.ensure_all('others kept', [n, wb], lambda r, i, j: c.implies(c.ge(j, D * m), c.eq(r.new(b, i, j), b(i, j))))
    mk(nm, D, O)

for R, C in ((3, 3), (2, 3)):
    def mk(R, C):
        @contract(P, 'identity %dx%d' % (R, C), T)
        def _(c):
            n = c.size('n', 1, (1, 2)); a = c.view('a', [n, R, C])
            c.call('h_b3_identity%d%d' % (R, C), n, a); c.modifies(a)
            c.ensure_all('Kronecker delta', [n, R, C], lambda r, e, i, j: c.eq(r.new(a, e, i, j), c.num(1 if i == j else 0)))
    mk(R, C)

@contract(P, 'blas3 fill', T)
def _(c):
    n = c.size('n', 1, (1, 2)); s = c.real('s'); a = c.view('a', [n, 2, 3])
    c.call('h_b3_fill', n, s, a); c.modifies(a)
    c.ensure_all('filled', [n, 2, 3], lambda r, e, i, j: c.eq(r.new(a, e, i, j), s))

@contract(P, 'blas3 update', T)
def _(c):
    n = c.size('n', 1, (1, 2)); p = c.size('p', 1, (1, 2)); q = c.size('q', 1, (1, 2)); p2 = c.size('p2', 1, (1, 2)); q2 = c.size('q2', 1, (1, 2))
    s = c.real('s'); t = c.real('t'); a = c.view('a', [n, p, q]); b = c.view('b', [n, p2, q2])
    c.call('h_b3_update', n, s, a, t, b); c.modifies(b)
    c.throws_iff(c.Or(c.ne(p, p2), c.ne(q, q2)))
    c.ensure_all('b = s a + t b', [n, p, q], lambda r, e, i, j: c.eq(r.new(b, e, i, j), s * a(e, i, j) + t * b(e, i, j)))

@contract(P, 'blas3 multiply', T)
def _(c):
    n = c.size('n', 1, (1, 2)); p = c.size('p', 1, (1, 2)); q = c.size('q', 1, (1, 2)); k = c.size('k', 1, (1, 2, 3))
    s = c.real('s'); t = c.real('t'); A = c.view('A', [n, p, k]); B = c.view('B', [n, k, q]); C = c.view('C', [n, p, q])
    c.call('h_b3_multiply', n, s, A, B, t, C); c.modifies(C)
    c.ensure_all('C = s A B + t C', [n, p, q], lambda r, e, i, j: c.eq(r.new(C, e, i, j), t * C(e, i, j) + s * c.sum(k, lambda l: A(e, i, l) * B(e, l, j))))

@contract(P, 'blas3 multiply rejects', T)
def _(c):
    n = c.size('n', 1, (1, 2)); na = c.size('na', 1, (1, 2)); ka = c.size('ka', 1, (1, 2)); kb = c.size('kb', 1, (1, 2)); pa = c.size('pa', 1, (1, 2)); pc = c.size('pc', 1, (1, 2))
    s = c.real('s'); t = c.real('t'); A = c.view('A', [na, pa, ka]); B = c.view('B', [n, kb, 2]); C = c.view('C', [n, pc, 2])
    c.call('h_b3_multiply', n, s, A, B, t, C); c.modifies(C)
    c.throws_iff(c.Or(c.ne(n, na), c.ne(ka, kb), c.ne(pa, pc)))

for N in (2, 3):
    def mk(N):
        @contract(P, 'inverse %dx%d' % (N, N), T)
        def _(c):
            n = c.size('n', 1, (1, 2))
            def gen(g, d):
                return {(e, i, j): (4.0 if i == j else 0.0) + g.randrange(-16, 17) / 16.0 for e in range(d[0]) for i in range(N) for j in range(N)}
            A = c.view('A', [n, N, N], gen=gen); B = c.view('B', [n, N, N])
            # leading minors are non-zero (elimination without pivoting)
            c.requires_all([n], lambda e: c.ne(A(e, 0, 0), 0))
            c.requires_all([n], lambda e: c.ne(A(e, 0, 0) * A(e, 1, 1) - A(e, 0, 1) * A(e, 1, 0), 0))
            if N == 3: c.requires_all([n], lambda e: c.ne(det3(A, e), 0))
            c.call('h_b3_inverse%d' % N, n, A, B); c.modifies(A, B)
            c.ensure_all('A B = I', [n, N, N], lambda r, e, i, j: c.eq(sum((A(e, i, k) * r.new(B, e, k, j) for k in range(N)), c.num(0)), c.num(1 if i == j else 0)))
    mk(N)
def det3(A, e):
    a = lambda i, j: A(e, i, j)
    return (a(0, 0) * (a(1, 1) * a(2, 2) - a(1, 2) * a(2, 1)) - a(0, 1) * (a(1, 0) * a(2, 2) - a(1, 2) * a(2, 0)) + a(0, 2) * (a(1, 0) * a(2, 1) - a(1, 1) * a(2, 0)))

@contract(P, 'blas3 fill of the first cells', T)
def _(c):
    n = c.int('n', -1, 4); m = c.size('m', 0, (0, 1, 3)); s = c.real('s'); a = c.view('a', [m, 2, 3]); c.requires(c.Or(c.eq(m, 0), c.le(n, m)))
    c.call('h_b3_fill', n, s, a); c.modifies(a); c.throws_iff(c.Or(c.eq(m, 0), c.le(n, 0)))
    c.ensure_all('first cells filled, others kept', [m, 2, 3], lambda r, e, i, j: c.eq(r.new(a, e, i, j), c.If(c.lt(e, n), s, a(e, i, j))))
@contract(P, 'blas3 update of the first cells', T)
def _(c):
    n = c.int('n', -1, 4); m = c.size('m', 0, (0, 1, 3)); m2 = c.size('m2', 0, (0, 1, 3)); s = c.real('s'); t = c.real('t'); a = c.view('a', [m, 2, 3]); b = c.view('b', [m2, 2, 3])
    c.requires(c.Or(c.eq(m, 0), c.eq(m2, 0), c.And(c.le(n, m), c.le(n, m2))))
    c.call('h_b3_update', n, s, a, t, b); c.modifies(b); c.throws_iff(c.Or(c.eq(m, 0), c.eq(m2, 0), c.le(n, 0)))
    c.ensure_all('first cells updated', [m2, 2, 3], lambda r, e, i, j: c.implies(c.lt(e, n), c.eq(r.new(b, e, i, j), s * a(e, i, j) + t * b(e, i, j))))
    c.ensure_all('others kept', [m2, 2, 3], lambda r, e, i, j: c.implies(c.ge(e, n), c.eq(r.new(b, e, i, j), b(e, i, j))))
@contract(P, 'identity rejects', T)
def _(c):
    n = c.int('n', 0, 4); m = c.size('m', 0, (0, 1, 3)); a = c.view('a', [m, 2, 3]); c.call('h_b3_identity23', n, a); c.modifies(a); c.throws_iff(c.Or(c.eq(m, 0), c.ne(n, m)))
    c.ensure_all('Kronecker delta', [m, 2, 3], lambda r, e, i, j: c.eq(r.new(a, e, i, j), c.num(1 if i == j else 0)))
@contract(P, 'inverse rejects', T)
def _(c):
    m = c.size('m', 0, (0, 1, 2)); k = c.size('k', 0, (0, 1, 2)); A = c.view('A', [m, 2, 2], gen=lambda g, d: {(e, i, j): 2.0 if i == j else 0.5 for e in range(d[0]) for i in range(2) for j in range(2)}); B = c.view('B', [k, 2, 2])
    c.requires_all([m], lambda e: c.ne(A(e, 0, 0), 0)); c.requires_all([m], lambda e: c.ne(A(e, 0, 0) * A(e, 1, 1) - A(e, 0, 1) * A(e, 1, 0), 0))
    c.call('h_b3_inverse2', m, A, B); c.modifies(A, B); c.throws_iff(c.Or(c.eq(m, 0), c.ne(m, k)))
@contract(P, 'matrix_times_vector rejects empty operands', T)
def _(c):
    n = c.size('n', 0, (0, 1)); a = c.size('a', 0, (0, 1)); b = c.size('b', 0, (0, 1)); s = c.real('s'); t = c.real('t'); A = c.view('A', [n, a, b]); x = c.view('x', [n, b]); y = c.view('y', [n, a])
    c.call('h_b2_mtv', c.text('N'), s, A, x, t, y); c.modifies(y); c.throws_iff(c.Or(c.eq(n, 0), c.eq(a, 0), c.eq(b, 0)))
@contract(P, 'blas3 multiply rejects other mismatches', T)
def _(c):
    n = c.size('n', 0, (0, 1, 2)); nb = c.size('nb', 0, (0, 1, 2)); nc = c.size('nc', 0, (0, 1, 2)); qb = c.size('qb', 0, (0, 1, 2)); qc = c.size('qc', 0, (0, 1, 2))
    s = c.real('s'); t = c.real('t'); A = c.view('A', [n, 2, 2]); B = c.view('B', [nb, 2, qb]); C = c.view('C', [nc, 2, qc])
    c.call('h_b3_multiply', n, s, A, B, t, C); c.modifies(C); c.throws_iff(c.Or(c.eq(n, 0), c.ne(n, nb), c.ne(n, nc), c.eq(qb, 0), c.ne(qb, qc)))
