from itertools import product
from math import factorial
from contract import contract
P, T = 'P10', 'p10.cpp'
NQ = {(1, 1): 1, (1, 2): 2, (1, 3): 2, (2, 1): 1, (2, 2): 3, (2, 3): 4, (3, 1): 1, (3, 2): 4, (3, 3): 5}
def S(c, it): return sum(it, c.num(0))
def near(c, a, b): return c.le(c.abs(a - b), c.q(1, 10**12))
for D in (1, 2, 3):
    def mk(D):
        @contract(P, 'number of quadrature points, dimension %d' % D, T)
        def _(c):
            g = c.int('g', -3, 9); c.call('h_nq', D, g, ret='int'); c.throws_iff(c.gt(g, 3))
            c.ensure('rule size', lambda r: c.eq(r.value, c.If(c.le(g, 1), NQ[D, 1], c.If(c.eq(g, 2), NQ[D, 2], NQ[D, 3]))))
        for G in (1, 2, 3):
            def mg(G):
                Q = NQ[D, G]
                @contract(P, 'quadrature exactness, dimension %d degree %d' % (D, G), T)
                def _(c):
                    g = c.int('g', -3, 1) if G == 1 else c.int('g', G, G)
                    c.requires(c.le(g, 1) if G == 1 else c.eq(g, G))
                    p = c.view('p', [Q, D]); w = c.vec('w', Q); c.call('h_cub', D, g, p, w); c.modifies(p, w)
                    for m in product(range(G + 1), repeat=D):
                        if sum(m) > G: continue
                        def f(r, m=m):
                            def mono(q):
                                t = c.num(1)
                                for d in range(D):
                                    for _ in range(m[d]): t = t * r.new(p, q, d)
                                return t
                            num = 1
                            for k in m: num *= factorial(k)
                            return near(c, S(c, (r.new(w, q) * mono(q) for q in range(Q))), c.q(num, factorial(sum(m) + D)))
                        c.ensure('integrates the monomial with exponents %s exactly' % (m,), f)
                    c.ensure('points lie in the reference simplex', lambda r: c.And(*[c.And(*[c.ge(r.new(p, q, d), 0) for d in range(D)], c.le(S(c, (r.new(p, q, d) for d in range(D))), 1)) for q in range(Q)]))
                @contract(P, 'quadrature output of the wrong size is refused, dimension %d degree %d' % (D, G), T)
                def _(c):
                    n = c.size('n', 0, (0, 5)); k = c.size('k', 1, (1, 5)); m = c.size('m', 0, (0, 4)); p = c.view('p', [n, m]); w = c.vec('w', k); c.call('h_cub', D, G, p, w); c.modifies(p, w)
                    c.throws_iff(c.Or(c.ne(n, Q), c.ne(k, Q), c.ne(m, D)))
            mg(G)
        @contract(P, 'unsupported quadrature degree is refused, dimension %d' % D, T)
        def _(c):
            g = c.int('g', 4, 9); c.requires(c.gt(g, 3)); p = c.view('p', [2, D]); w = c.vec('w', 2); c.call('h_cub', D, g, p, w); c.throws_iff(c.eq(c.num(0), c.num(0)))
        @contract(P, 'basis size, dimension %d' % D, T)
        def _(c):
            c.call('h_card', D, ret='int'); c.ensure('one function per vertex', lambda r: c.eq(r.value, D + 1))
        @contract(P, 'basis reference coordinates, dimension %d' % D, T)
        def _(c):
            p = c.view('p', [D + 1, D]); c.call('h_ref', D, p); c.modifies(p)
            for i in range(D + 1):
                for d in range(D): c.ensure('vertex %d coordinate %d' % (i, d), lambda r, i=i, d=d: c.eq(r.new(p, i, d), 1 if i == d else 0))
        @contract(P, 'basis values, dimension %d' % D, T)
        def _(c):
            n = c.size('n', 0, (0, 1, 3)); p = c.view('p', [n, D]); o = c.view('o', [D + 1, n]); c.call('h_val', D, p, o); c.modifies(o)
            for d in range(D): c.ensure_all('function %d' % d, [n], lambda r, i, d=d: c.eq(r.new(o, d, i), p(i, d)))
            c.ensure_all('partition of unity', [n], lambda r, i: c.eq(S(c, (r.new(o, d, i) for d in range(D + 1))), 1))
        @contract(P, 'basis gradients, dimension %d' % D, T)
        def _(c):
            n = c.size('n', 0, (0, 1, 3)); p = c.view('p', [n, D]); o = c.view('o', [D + 1, n, D]); c.call('h_grad', D, p, o); c.modifies(o)
            for k in range(D + 1):
                for d in range(D): c.ensure_all('d N_%d / d x_%d' % (k, d), [n], lambda r, i, d=d, k=k: c.eq(r.new(o, k, i, d), -1 if k == D else int(k == d)))
        @contract(P, 'one-point rule weight, dimension %d' % D, T)
        def _(c):
            n = c.int('n', 0, 1); c.call('h_tw%d' % D, n, ret='real'); c.ensure('reference volume', lambda r: near(c, r.value, c.q(1, factorial(D))))
        @contract(P, 'one-point rule size, dimension %d' % D, T)
        def _(c):
            n = c.int('n', 0, 1); c.call('h_tn%d' % D, n, ret='int'); c.ensure('one point', lambda r: c.eq(r.value, 1))
        @contract(P, 'one-point rule basis functions, dimension %d' % D, T)
        def _(c):
            o = c.vec('o', D + 1); c.call('h_tb%d' % D, o); c.modifies(o)
            for i in range(D + 1): c.ensure('N_%d at the centroid' % i, lambda r, i=i: near(c, r.new(o, i), c.q(1, D + 1)))
        @contract(P, 'one-point rule point, dimension %d' % D, T)
        def _(c):
            o = c.vec('o', D); c.call('h_tc%d' % D, o); c.modifies(o)
            for i in range(D): c.ensure('centroid coordinate %d' % i, lambda r, i=i: near(c, r.new(o, i), c.q(1, D + 1)))
    mk(D)
@contract(P, 'unsupported quadrature dimension is refused', T)
def _(c):
    d = c.int('d', -2, 7); g = c.int('g', -1, 5); c.requires(c.Or(c.lt(d, 1), c.gt(d, 3))); c.call('h_nq', d, g, ret='int'); c.throws_iff(c.eq(c.num(0), c.num(0)))
