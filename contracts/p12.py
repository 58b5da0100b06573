from contract import contract
P, T = 'P12', 'p12.cpp'
def S(c, it): return sum(it, c.num(0))
for nn in (2, 3, 4):
    @contract(P, 'inertial forces, %d nodes' % nn, T)
    def _(c, nn=nn):
        n = c.size('n', 1, (1, 2)); D = {2: 2, 3: 4, 4: 6}[nn]; d = c.real('d'); v = c.vec('v', n); b = c.view('b', [nn]); s = c.view('s', [n, D]); o = c.view('o', [n, nn * D])
        c.call('h_if', n, d, v, b, s, o); c.modifies(o)
        c.ensure_all('density * volume * basis * state', [n, nn * D], lambda r, i, k: c.eq(r.new(o, i, k), d * v(i) * b(k // D) * s(i, k % D)))
    @contract(P, 'state values at the integration point, %d nodes' % nn, T)
    def _(c, nn=nn):
        n = c.size('n', 1, (1, 2)); D = {2: 2, 3: 4, 4: 6}[nn]; b = c.view('b', [nn]); s = c.view('s', [n, nn * D]); o = c.view('o', [n, D])
        c.call('h_sv', n, b, s, o); c.modifies(o)
        c.ensure_all('basis-weighted sum', [n, D], lambda r, i, k: c.eq(r.new(o, i, k), S(c, (b(q) * s(i, q * D + k) for q in range(nn)))))
def lst(c):
    a = []; v = []
    for x in 'mk':
        h = c.bool('h' + x); y = c.real(x); a += [h, y]; v.append(c.If(h, y, c.num(0)))
    return a, v
for D in (1, 2, 3):
    for fn, nm, sg in (('cd', 'complex', 1), ('ad', 'adjoint complex', -1)):
        for l in ('', 'l'):
            @contract(P, '%s Rayleigh damping %dD%s' % (nm, D, ' from an input list' if l else ''), T)
            def _(c, fn=fn, D=D, sg=sg, l=l):
                n = c.size('n', 1, (1, 2)); a, v = lst(c) if l else (None, None)
                if not l: v = [c.real('m'), c.real('k')]; a = v
                m, k = v; e = c.view('e', [n, 2 * D]); q = c.view('q', [n, 2 * D]); o = c.view('o', [n, 2 * D])
                c.call('h_%s%s%d' % (fn, l, D), n, *a, e, q, o); c.modifies(o)
                mix = lambda i, j: m * q(i, j) + k * e(i, j)
                c.ensure_all('real part from imaginary forces', [n, D], lambda r, i, j: c.eq(r.new(o, i, j), sg * mix(i, D + j)))
                c.ensure_all('imaginary part from real forces', [n, D], lambda r, i, j: c.eq(r.new(o, i, D + j), -sg * mix(i, j)))
    @contract(P, 'adjoint damping is the transpose of damping %dD' % D, T)
    def _(c, D=D):
        n = c.size('n', 1, (1, 2)); m = c.real('m'); k = c.real('k'); x = c.view('x', [n, 2 * D]); y = c.view('y', [n, 2 * D]); o = c.view('o', [n, 2 * D]); p = c.view('p', [n, 2 * D])
        c.call('h_bi%d' % D, n, m, k, x, y, o, p); c.modifies(o, p)
        c.ensure_all('y . C x = x . C* y', [n], lambda r, i: c.eq(S(c, (y(i, j) * r.new(o, i, j) for j in range(2 * D))), S(c, (x(i, j) * r.new(p, i, j) for j in range(2 * D)))))
    @contract(P, 'complex inertial energy %dD' % D, T)
    def _(c, D=D):
        n = c.size('n', 1, (1, 2)); w = c.real('w'); d = c.real('d'); v = c.vec('v', n); s = c.view('s', [n, 2 * D]); o = c.vec('o', n)
        c.call('h_ie%d' % D, n, w, d, v, s, o); c.modifies(o)
        c.ensure_all('minus w^2 rho V |u|^2', [n], lambda r, i: c.eq(r.new(o, i), -(w * w * d * v(i) * S(c, (s(i, j) * s(i, j) for j in range(2 * D))))))
    @contract(P, 'frequency response misfit %dD' % D, T)
    def _(c, D=D):
        n = c.size('n', 1, (1, 2)); N = 2 * D * (D + 1); x = c.view('x', [n, N]); t = c.view('t', [n, N]); o = c.vec('o', n)
        c.call('h_fm%d' % D, n, x, t, o); c.modifies(o)
        c.ensure_all('half the squared distance', [n], lambda r, i: c.eq(r.new(o, i), S(c, ((t(i, j) - x(i, j)) * (t(i, j) - x(i, j)) for j in range(N))) / 2))
        c.ensure_all('never negative', [n], lambda r, i: c.ge(r.new(o, i), c.num(0)))
for N in (1, 3, 6):
    for l in ('', 'l'):
        @contract(P, 'Rayleigh damping %d dofs%s' % (N, ' from an input list' if l else ''), T)
        def _(c, N=N, l=l):
            n = c.size('n', 1, (1, 2)); a, v = lst(c) if l else (None, None)
            if not l: v = [c.real('m'), c.real('k')]; a = v
            m, k = v; e = c.view('e', [n, N]); q = c.view('q', [n, N]); o = c.view('o', [n, N])
            c.call('h_rd%s%d' % (l, N), n, *a, e, q, o); c.modifies(o)
            c.ensure_all('mass and stiffness proportional', [n, N], lambda r, i, j: c.eq(r.new(o, i, j), m * q(i, j) + k * e(i, j)))
    @contract(P, 'structural dynamics residual %d dofs' % N, T)
    def _(c, N=N):
        n = c.size('n', 1, (1, 2)); w = c.real('w', 0.0); e = c.view('e', [n, N]); d = c.view('d', [n, N]); q = c.view('q', [n, N]); o = c.view('o', [n, N])
        c.call('h_cr%d' % N, n, w, e, d, q, o); c.modifies(o)
        c.ensure_all('elastic + damping - w^2 inertia, added', [n, N], lambda r, i, j: c.eq(r.new(o, i, j), o(i, j) + e(i, j) + d(i, j) - w * q(i, j)))
    @contract(P, 'complex elastic energy %d terms' % N, T)
    def _(c, N=N):
        n = c.size('n', 1, (1, 2)); s = c.view('s', [n, 2, N]); e = c.view('e', [n, 2, N]); o = c.vec('o', n)
        c.call('h_ee%d' % N, n, s, e, o); c.modifies(o)
        c.ensure_all('stress : strain over both parts', [n], lambda r, i: c.eq(r.new(o, i), S(c, (s(i, z, j) * e(i, z, j) for z in range(2) for j in range(N)))))
