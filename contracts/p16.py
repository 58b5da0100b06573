from contract import contract
P, T = 'P16', 'p16.cpp'
def S(c, it): return sum(it, c.num(0))
for D in (1, 2, 3):
    def mk(D):
        @contract(P, 'tensile energy density, dimension %d' % D, T)
        def _(c):
            n = c.size('n', 0, (0, 1, 2)); e = c.view('e', [n, D]); l = c.real('l'); m = c.real('m'); o = c.vec('o', n); c.call('h_te%d' % D, n, e, l, m, o); c.modifies(o)
            pos = lambda x: c.max2(x, 0)
            c.ensure_all('mu * sum of positive strains squared + lambda/2 * positive trace squared', [n], lambda r, i: c.eq(r.new(o, i),
                m * S(c, (pos(e(i, d)) * pos(e(i, d)) for d in range(D))) + l / 2 * pos(S(c, (e(i, d) for d in range(D)))) * pos(S(c, (e(i, d) for d in range(D))))))
    mk(D)
@contract(P, 'eigenvalue of a 1x1 tensor', T)
def _(c):
    n = c.size('n', 0, (0, 1, 2)); s = c.bool('s'); t = c.view('t', [n, 1]); o = c.view('o', [n, 1]); c.call('h_eig1', n, s, t, o); c.modifies(o)
    c.ensure_all('the entry', [n], lambda r, i: c.eq(r.new(o, i, 0), t(i, 0)))
for st in (0, 1):
    def mk(st):
        nm = ('stress', 'strain')[st]
        @contract(P, 'eigenvalues of a 2x2 %s tensor' % nm, T)
        def _(c):
            n = c.size('n', 0, (0, 1, 2)); t = c.view('t', [n, 3]); o = c.view('o', [n, 2]); c.call('h_eig2', n, st, t, o); c.modifies(o)
            sh = lambda i: t(i, 2) / 2 if st else t(i, 2)
            c.ensure_all('sum is the trace', [n], lambda r, i: c.eq(r.new(o, i, 0) + r.new(o, i, 1), t(i, 0) + t(i, 1)))
            c.ensure_all('product is the determinant', [n], lambda r, i: c.eq(r.new(o, i, 0) * r.new(o, i, 1), t(i, 0) * t(i, 1) - sh(i) * sh(i)))
        for a, b, v in ((0, 1, 5), (0, 2, 4), (1, 2, 3)):
            def mp(a, b, v):
                @contract(P, 'one rotation diagonalises the %d%d plane of a 3x3 %s tensor' % (a, b, nm), T)
                def _(c):
                    n = c.size('n', 0, (0, 1, 2)); t = c.view('t', [n, 6], gen=lambda g, d: [(0.0 if j in (3, 4, 5) and j != v else g.randrange(-64, 65) / 8.0) for _ in range(d[0]) for j in range(6)])
                    o = c.view('o', [n, 3]); c.requires_all([n], lambda i: c.And(*[c.eq(t(i, k), 0) for k in (3, 4, 5) if k != v], c.Or(c.eq(t(i, v), 0), c.gt(c.abs(t(i, v)), c.q(1, 2**20)))))
                    c.call('h_eign3', 1, n, st, t, o); c.modifies(o); k = 3 - a - b
                    sh = lambda i: t(i, v) / 2 if st else t(i, v)
                    c.ensure_all('untouched axis', [n], lambda r, i: c.eq(r.new(o, i, k), t(i, k)))
                    c.ensure_all('sum', [n], lambda r, i: c.eq(r.new(o, i, a) + r.new(o, i, b), t(i, a) + t(i, b)))
                    c.ensure_all('product', [n], lambda r, i: c.eq(r.new(o, i, a) * r.new(o, i, b), t(i, a) * t(i, b) - sh(i) * sh(i)))
            mp(a, b, v)
        @contract(P, 'one rotation of a 3x3 %s tensor keeps the trace' % nm, T)
        def _(c):
            n = c.size('n', 0, (0, 1, 2)); t = c.view('t', [n, 6]); o = c.view('o', [n, 3]); c.call('h_eign3', 1, n, st, t, o); c.modifies(o)
            c.ensure_all('sum is the trace', [n], lambda r, i: c.eq(S(c, (r.new(o, i, d) for d in range(3))), S(c, (t(i, d) for d in range(3)))))
        for a, b, v in ((0, 1, 5), (0, 2, 4), (1, 2, 3)):
            def mq(a, b, v):
                @contract(P, 'one rotation removes the largest entry %d%d of a 3x3 %s tensor' % (a, b, nm), T)
                def _(c):
                    n = c.size('n', 0, (0, 1, 2)); t = c.view('t', [n, 6]); o = c.view('o', [n, 3]); sq = lambda x: x * x; k = 3 - a - b
                    sh = lambda i: t(i, v) / 2 if st else t(i, v)
                    c.requires_all([n], lambda i: c.And(c.gt(c.abs(t(i, v)), c.q(1, 2**20)), *[c.gt(c.abs(t(i, v)), c.abs(t(i, j))) for j in (3, 4, 5) if j != v]))
                    c.call('h_eign3', 1, n, st, t, o); c.modifies(o)
                    c.ensure_all('untouched axis', [n], lambda r, i: c.eq(r.new(o, i, k), t(i, k)))
                    c.ensure_all('sum', [n], lambda r, i: c.eq(r.new(o, i, a) + r.new(o, i, b), t(i, a) + t(i, b)))
                    c.ensure_all('product', [n], lambda r, i: c.eq(r.new(o, i, a) * r.new(o, i, b), t(i, a) * t(i, b) - sh(i) * sh(i)))
            mq(a, b, v)
        @contract(P, 'converged eigenvalues of a 3x3 %s tensor' % nm, T)
        def _(c):
            n = c.size('n', 0, (0, 1, 2)); t = c.view('t', [n, 6]); o = c.view('o', [n, 3]); sh = lambda i, k: t(i, k) / 2 if st else t(i, k)
            c.native_only('six nested rotations'); sq = lambda x: x * x
            c.call('h_eig3', n, st, t, o); c.modifies(o)
            off = lambda i: 2 * S(c, (sq(sh(i, k)) for k in (3, 4, 5))); fro = lambda i: S(c, (sq(t(i, d)) for d in range(3))) + off(i)
            c.ensure_all('sum is the trace', [n], lambda r, i: c.le(c.abs(S(c, (r.new(o, i, d) for d in range(3))) - S(c, (t(i, d) for d in range(3)))), (1 + fro(i)) / 10**9))
            # classical Jacobi: every rotation on the largest entry removes at least a third of the squared off-diagonal
            c.ensure_all('at least the classical convergence rate', [n], lambda r, i: c.ge(S(c, (sq(r.new(o, i, d)) for d in range(3))), fro(i) - off(i) * c.q(64, 729) - (1 + fro(i)) / 10**9))
            c.ensure_all('no larger than the Frobenius norm', [n], lambda r, i: c.le(S(c, (sq(r.new(o, i, d)) for d in range(3))), fro(i) + (1 + fro(i)) / 10**9))
    mk(st)
