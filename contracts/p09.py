import math
from contract import contract
P, T = 'P09', 'p09.cpp'
# local state: accumulated plastic strain, plastic multiplier, plastic strain (engineering shears), backstress; 2D is plane strain: xx, yy, xy, zz
NORMAL = {2: [0, 1, 3], 3: [0, 1, 2]}
SHEAR = {2: [2], 3: [3, 4, 5]}
NT = {2: 4, 3: 6}
def S(c, it): return sum(it, c.num(0))
for D in (2, 3):
    m_ = NT[D]; L = 2 + 2 * m_
    def mk(D, m, L):
        q32 = lambda c: c.num(math.sqrt(1.5)); q23 = lambda c: c.num(math.sqrt(2.0 / 3.0))
        two = lambda k: 2 if k in SHEAR[D] else 1
        def incr(c, s, y, h, i, j):
            """flow increment of local state component j"""
            if j < 2 + m: return two(j - 2) * q32(c) * s(i, 1) * y(i, j - 2)
            return q23(c) * h * s(i, 1) * y(i, j - 2 - m)
        @contract(P, 'plastic step update %dD' % D, T)
        def _(c):
            n = c.size('n', 1, (1, 2)); h = c.real('h'); p = c.view('p', [n, L]); y = c.view('y', [n, m]); s = c.view('s', [n, L])
            c.call('h_up%d' % D, n, h, p, y, s); c.modifies(s)
            c.ensure_all('flow rule, multiplier and accumulated strain kept', [n, L], lambda r, i, j: c.eq(r.new(s, i, j), s(i, j) if j < 2 else p(i, j) + incr(c, s, y, h, i, j)))
        @contract(P, 'elastic step update %dD' % D, T)
        def _(c):
            n = c.size('n', 1, (1, 2)); p = c.view('p', [n, L]); s = c.view('s', [n, L])
            c.call('h_ue%d' % D, n, p, s); c.modifies(s)
            c.ensure_all('history carried over', [n, L], lambda r, i, j: c.eq(r.new(s, i, j), s(i, j) if j < 2 else p(i, j)))
        @contract(P, 'yield surface normal %dD' % D, T)
        def _(c):
            n = c.size('n', 1, (1, 2)); d = c.view('d', [n, m]); s = c.view('s', [n, L]); y = c.view('y', [n, m]); o = c.vec('o', n)
            c.call('h_yn%d' % D, n, d, s, y, o); c.modifies(y, o)
            diff = lambda i, k: d(i, k) - s(i, 2 + m + k)
            sq = lambda i: S(c, (two(k) * diff(i, k) * diff(i, k) for k in range(m)))
            c.requires_all([n], lambda i: c.gt(sq(i), c.num(0)))
            c.ensure_all('norm', [n], lambda r, i: c.eq(r.new(o, i), c.sqrt(sq(i))))
            c.ensure_all('direction', [n, m], lambda r, i, k: c.eq(r.new(y, i, k), diff(i, k) / c.sqrt(sq(i))))
        @contract(P, 'plastic strain misfit %dD' % D, T)
        def _(c):
            n = c.size('n', 1, (1, 2)); a = c.view('a', [n, L]); b = c.view('b', [n, L]); o = c.view('o', [n, m])
            c.call('h_mi%d' % D, n, a, b, o); c.modifies(o)
            c.ensure_all('difference of plastic strains', [n, m], lambda r, i, k: c.eq(r.new(o, i, k), a(i, 2 + k) - b(i, 2 + k)))
        @contract(P, 'plastic step residual %dD' % D, T)
        def _(c):
            n = c.size('n', 1, (1, 2)); h = c.real('h'); s = c.view('s', [n, L]); p = c.view('p', [n, L]); y = c.view('y', [n, m]); o = c.view('o', [n, L])
            c.call('h_rp%d' % D, n, h, s, p, y, o); c.modifies(o)
            c.ensure_all('state minus updated state', [n, L], lambda r, i, j: c.eq(r.new(o, i, j), o(i, j) if j < 2 else s(i, j) - p(i, j) - incr(c, s, y, h, i, j)))
        @contract(P, 'elastic step residual %dD' % D, T)
        def _(c):
            n = c.size('n', 1, (1, 2)); s = c.view('s', [n, L]); p = c.view('p', [n, L]); o = c.view('o', [n, L])
            c.call('h_re%d' % D, n, s, p, o); c.modifies(o)
            c.ensure_all('state minus previous state', [n, L], lambda r, i, j: c.eq(r.new(o, i, j), o(i, j) if j < 2 else s(i, j) - p(i, j)))
        for fn, nm, j in (('ga', 'accumulated plastic strain', 0), ('gm', 'plastic multiplier', 1)):
            @contract(P, 'getter of the %s %dD' % (nm, D), T)
            def _(c, fn=fn, j=j):
                n = c.size('n', 1, (1, 2)); s = c.view('s', [n, L]); o = c.vec('o', n)
                c.call('h_%s%d' % (fn, D), n, s, o); c.modifies(o)
                c.ensure_all('component', [n], lambda r, i: c.eq(r.new(o, i), s(i, j)))
        for fn, nm, j in (('gp', 'plastic strain', 2), ('gb', 'backstress', 2 + m)):
            @contract(P, 'getter of the %s %dD' % (nm, D), T)
            def _(c, fn=fn, j=j):
                n = c.size('n', 1, (1, 2)); s = c.view('s', [n, L]); o = c.view('o', [n, m])
                c.call('h_%s%d' % (fn, D), n, s, o); c.modifies(o)
                c.ensure_all('components', [n, m], lambda r, i, k: c.eq(r.new(o, i, k), s(i, j + k)))
        for fn, nm, nd in (('ep', 'isothermal', D + 1), ('et', 'thermal', D + 2)):
            @contract(P, 'elastic strain %s %dD' % (nm, D), T)
            def _(c, fn=fn, nd=nd):
                n = c.size('n', 1, (1, 2)); a = c.real('a'); t = c.real('t'); k0 = c.real('k'); u = c.view('u', [n, nd * (D + 1)]); s = c.view('s', [n, L]); b = c.view('b', [D + 1]); e = c.view('e', [n, m]); o = c.view('o', [n, m])
                c.call('h_%s%d' % (fn, D), n, a, t, k0, u, s, b, e, o); c.modifies(o)
                def th(i): return a * (k0 * S(c, (b(q) * u(i, q * nd + D) for q in range(D + 1))) - t) if fn == 'et' else c.num(0)
                c.ensure_all('total minus plastic minus thermal', [n, m], lambda r, i, k: c.eq(r.new(o, i, k), e(i, k) - s(i, 2 + k) - (th(i) if k in NORMAL[D] else 0)))
        @contract(P, 'plastic update is consistent %dD' % D, T)
        def _(c):
            n = c.size('n', 1, (1, 2)); h = c.real('h'); d = c.view('d', [n, m]); p = c.view('p', [n, L]); y = c.view('y', [n, m]); o = c.vec('o', n); s = c.view('s', [n, L]); w = c.view('w', [n, L])
            c.call('h_cp%d' % D, n, h, d, p, y, o, s, w); c.modifies(y, o, s, w)
            diff = lambda i, k: d(i, k) - p(i, 2 + m + k)
            sq = lambda i: S(c, (two(k) * diff(i, k) * diff(i, k) for k in range(m)))
            c.requires_all([n], lambda i: c.gt(sq(i), c.num(0)))
            c.ensure_all('residual vanishes', [n, 2 * m], lambda r, i, j: c.eq(r.new(w, i, 2 + j), c.num(0)))
            c.ensure_all('isochoric flow for deviatoric driving stress', [n], lambda r, i: c.implies(c.eq(S(c, (diff(i, k) for k in NORMAL[D])), c.num(0)),
                c.eq(S(c, (r.new(s, i, 2 + k) - p(i, 2 + k) for k in NORMAL[D])), c.num(0))))
            c.ensure_all('unit normal', [n], lambda r, i: c.eq(S(c, (two(k) * r.new(y, i, k) * r.new(y, i, k) for k in range(m))), c.num(1)))
        @contract(P, 'elastic update is consistent %dD' % D, T)
        def _(c):
            n = c.size('n', 1, (1, 2)); p = c.view('p', [n, L]); s = c.view('s', [n, L]); w = c.view('w', [n, L])
            c.call('h_ce%d' % D, n, p, s, w); c.modifies(s, w)
            c.ensure_all('residual vanishes', [n, 2 * m], lambda r, i, j: c.eq(r.new(w, i, 2 + j), c.num(0)))
    mk(D, m_, L)
