from contract import contract
P, T = 'P17', 'p17.cpp'
MATS = [[[2, 2, 0, 0, 0, 0], [-2, 3, 0, 0, 0, 0], [1, 0, 3, 0, 0, 0], [-1, 0, 0, 3, 0, 0], [2, 0, 0, 0, 1, 0], [-1, 0, 0, 0, 0, 2]], [[1, 0, 0, 0, 2, 0], [0, 1, 0, 0, -2, 0], [0, 0, 1, 0, 0, -2], [0, 0, 0, 3, 2, 0], [0, -2, 0, 0, 1, 0], [0, 1, 0, 0, 0, 3]]]   # the numbers of harness/p17.cpp
def S(c, it): return sum(it, c.num(0))
for L in (1, 3, 6):
    def mk(L):
        def base(c):
            n = c.size('n', 1, (1, 2)); p = c.real('p', 1.0, 8.0)
            o = c.vec('o', n); t = c.view('t', [n, L]); k = c.view('k', [n, 1]); v = c.view('v', [n], lo=0.0)
            return n, p, o, t, k, v, lambda i: S(c, (t(i, j) * t(i, j) for j in range(L)))
        @contract(P, 'tensor p-norm, %d terms' % L, T)
        def _(c):
            n, p, o, t, k, v, sq = base(c)
            c.call('h_tp%d' % L, p, o, t, k, v); c.modifies(o)
            c.ensure_all('volume * (sum of squares)^(p/2)', [n], lambda r, i: c.eq(r.new(o, i), v(i) * c.pow(sq(i), p / 2)))
        @contract(P, 'weighted tensor norm, %d terms' % L, T)
        def _(c):
            n, p, o, t, k, v, sq = base(c)
            hr = c.bool('hr'); q = c.real('q', 0.25, 8.0); hs = c.bool('hs'); s = c.real('s', 0.0, 8.0)
            c.call('h_wn%d' % L, p, hr, q, hs, s, o, t, k, v); c.modifies(o)
            R = c.If(hr, q, c.num(1)); W = c.If(hs, s, c.num(1))
            c.ensure_all('volume * (weighted norm / reference)^p', [n], lambda r, i: c.eq(r.new(o, i), v(i) * c.pow(c.sqrt(W * sq(i)) / R, p)))
        @contract(P, 'criterion value from the accumulated norm, %d terms' % L, T)
        def _(c):
            p = c.real('p', 1.0, 8.0); x = c.real('x', 0.0); c.call('h_po%d' % L, p, x, ret='real')
            c.ensure('p-th root', lambda r: c.eq(r.value, c.pow(x, 1 / p)))
        @contract(P, 'criterion gradient scaling, %d terms' % L, T)
        def _(c):
            n = c.size('n', 1, (1, 2)); p = c.real('p', 1.0, 8.0); x = c.real('x', 0.125); o = c.vec('o', n); c.call('h_pv%d' % L, p, x, o); c.modifies(o)
            c.ensure_all('chain rule of the p-th root', [n], lambda r, i: c.eq(r.new(o, i), o(i) * (c.pow(x, (1 - p) / p) / p)))
        @contract(P, 'vector p-norm, %d terms' % L, T)
        def _(c):
            n = c.size('n', 1, (1, 2)); p = c.real('p', 1.0, 8.0); o = c.vec('o', n); t = c.view('t', [n, L]); v = c.view('v', [n], lo=0.0)
            c.call('h_vp%d' % L, n, p, o, t, v); c.modifies(o)
            c.ensure_all('volume * (sum of squares)^(p/2)', [n], lambda r, i: c.eq(r.new(o, i), v(i) * c.pow(S(c, (t(i, j) * t(i, j) for j in range(L))), p / 2)))
        @contract(P, 'missing exponent is an error, %d terms' % L, T)
        def _(c):
            n = c.size('n', 1, (1, 2)); o = c.vec('o', n); t = c.view('t', [n, L]); k = c.view('k', [n, 1]); v = c.vec('v', n)
            c.call('h_nx%d' % L, o, t, k, v); c.throws_iff(c.Or(c.eq(c.num(0), c.num(0))))
        for nm, ty in (('no Normalize list', None), ('Scalar', 'Scalar'), ('another type', 'Sclar')):
            @contract(P, 'norm chosen by the factory, %s, %d terms' % (nm, L), T)
            def _(c, ty=ty):
                n, p, o, t, k, v, sq = base(c); q = c.real('q', 0.25, 8.0); s = c.real('s', 0.0, 8.0)
                c.call('h_fn%d' % L, ty is not None, c.text(ty or 'x'), p, q, s, o, t, k, v); c.modifies(o)
                f = (lambda i: c.pow(c.sqrt(s * sq(i)) / q, p)) if ty == 'Scalar' else (lambda i: c.pow(sq(i), p / 2))
                c.ensure_all('that norm', [n], lambda r, i: c.eq(r.new(o, i), v(i) * f(i)))
        def bar(c, A, B, sg, ex):
            """Barlat (2004): the two linear transformations of the deviator, their principal values (appendix A), and the yield function"""
            third = lambda a: c.q(a, 3); dev = [[third(2 if i == j else -1) if i < 3 and j < 3 else c.num(1 if i == j else 0) for j in range(6)] for i in range(6)]
            def principal(M):
                sp = []
                for i in range(6):
                    x = c.num(0)
                    for j in range(6):
                        if sg[j] is None: continue
                        m = c.num(0)
                        for k in range(6):
                            if (k < 3 and j < 3) or k == j: m = m + M(i, k) * dev[k][j]
                        x = x + m * sg[j]
                    sp.append(x)
                xx, yy, zz, yz, zx, xy = sp
                H1 = (xx + yy + zz) / 3; H2 = (yz * yz + zx * zx + xy * xy - yy * zz - zz * xx - xx * yy) / 3
                H3 = (2 * yz * zx * xy + xx * yy * zz - xx * yz * yz - yy * zx * zx - zz * xy * xy) / 2
                p = H1 * H1 + H2; q = (2 * H1 * H1 * H1 + 3 * H1 * H2 + 2 * H3) / 2
                return H1, p, q
            def roots(t):
                H1, p, q = t; th = c.fn('acos', q / c.pow(p, c.q(3, 2))); pi = c.fn('acos', c.num(-1)); return [H1 + 2 * c.sqrt(p) * c.fn('cos', (th + k * pi) / 3) if k else H1 + 2 * c.sqrt(p) * c.fn('cos', th / 3) for k in (0, 4, 2)]
            return principal(A), principal(B), roots
        def yieldf(c, S1, S2, ex):
            s = c.num(0)
            for a in S1:
                for b in S2: s = s + c.pow(a - b, ex)
            return c.pow(s / 4, 1 / ex)
        def barlat(c, sym):
            n, p, o, t, k, v, _ = base(c); he = c.bool('he'); e = c.int('e', 2, 8); hr = c.bool('hr'); q = c.real('q', 0.25, 8.0)
            c.requires(c.eq(c.mod(e, 2), 0))
            if sym: a = c.view('a', [6, 6]); b = c.view('b', [6, 6]); c.call('h_bn%d' % L, p, he, e, hr, q, a, b, o, t, k, v)
            else: a, b = [(lambda i, j, m=m: c.num(m[i][j])) for m in MATS]; c.call('h_fb%d' % L, p, he, e, hr, q, o, t, k, v)
            c.modifies(o)
            sg = lambda i: [t(i, 0)] + [None] * 5 if L == 1 else [t(i, 0), t(i, 1), None, None, None, t(i, 2)] if L == 3 else [t(i, j) for j in range(6)]
            R = c.If(hr, q, c.num(1)); ex = c.If(he, c.real_of(e), c.num(6))
            def ok(i):
                f, g, _ = bar(c, a, b, sg(i), ex); return c.And(c.gt(f[1], c.q(1, 8)), c.gt(g[1], c.q(1, 8)), *[c.And(c.lt(x[2], c.pow(x[1], c.q(3, 2)) * c.q(15, 16)), c.lt(-x[2], c.pow(x[1], c.q(3, 2)) * c.q(15, 16))) for x in (f, g)])
            c.requires_all([n], ok)
            def val(i):
                f, g, roots = bar(c, a, b, sg(i), ex); return v(i) * c.pow(yieldf(c, roots(f), roots(g), ex) / R, p)
            c.ensure_all('volume * (Barlat yield value / reference)^p', [n], lambda r, i: c.eq(r.new(o, i), val(i)))
        if L == 1:
            @contract(P, 'Barlat norm, arbitrary transformations, %d terms' % L, T)
            def _(c): barlat(c, True)
        else:
            @contract(P, 'Barlat norm through the factory, given transformations, %d terms' % L, T)
            def _(c): barlat(c, False)
    mk(L)
