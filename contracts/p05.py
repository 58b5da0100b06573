from contract import contract
P, T = 'P05', 'p05.cpp'
VOIGT = {1: [(0, 0)], 2: [(0, 0), (1, 1), (0, 1)], 3: [(0, 0), (1, 1), (2, 2), (1, 2), (0, 2), (0, 1)]}
def S(c, it): return sum(it, c.num(0))

def strain(c, u, b, e, v, D, nd, off=0):
    """engineering strain: normal components, then doubled shears"""
    i, j = VOIGT[D][v]
    if i == j: return S(c, (u(e, k * nd + off + i) * b(e, k, i) for k in range(D + 1)))
    return S(c, (u(e, k * nd + off + j) * b(e, k, i) + u(e, k * nd + off + i) * b(e, k, j) for k in range(D + 1)))
def grad(c, u, b, e, d, D, nd, off): return S(c, (u(e, k * nd + off) * b(e, k, d) for k in range(D + 1)))

for D in (1, 2, 3):
    def mk(D):
        NV = len(VOIGT[D])
        for fn, nm, nd, off, sgn in (('h_stab', 'stabilized', D + 1, D, 1), ('h_tm', 'thermomechanical', D + 1, D, 1), ('h_em', 'electromechanical', D + 1, D, -1)):
            @contract(P, '%s kinematics %dD' % (nm, D), T)
            def _(c, fn=fn, nd=nd, off=off, sgn=sgn):
                n = c.size('n', 1, (1, 2)); e = c.view('e', [n, NV]); g = c.view('g', [n, D]); u = c.view('u', [n, nd * (D + 1)]); b = c.view('b', [n, D + 1, D])
                c.call(fn + str(D), n, e, g, u, b); c.modifies(e, g)
                c.ensure_all('strain', [n, NV], lambda r, i, v: c.eq(r.new(e, i, v), strain(c, u, b, i, v, D, nd)))
                c.ensure_all('gradient', [n, D], lambda r, i, d: c.eq(r.new(g, i, d), sgn * grad(c, u, b, i, d, D, nd, off)))
        @contract(P, 'stabilized thermomechanical kinematics %dD' % D, T)
        def _(c):
            nd = D + 2
            n = c.size('n', 1, (1, 2)); e = c.view('e', [n, NV]); p = c.view('p', [n, D]); g = c.view('g', [n, D]); u = c.view('u', [n, nd * (D + 1)]); b = c.view('b', [n, D + 1, D])
            c.call('h_stm%d' % D, n, e, p, g, u, b); c.modifies(e, p, g)
            c.ensure_all('strain', [n, NV], lambda r, i, v: c.eq(r.new(e, i, v), strain(c, u, b, i, v, D, nd)))
            c.ensure_all('pressure gradient', [n, D], lambda r, i, d: c.eq(r.new(p, i, d), grad(c, u, b, i, d, D, nd, D)))
            c.ensure_all('temperature gradient', [n, D], lambda r, i, d: c.eq(r.new(g, i, d), grad(c, u, b, i, d, D, nd, D + 1)))
        for m in (0, 1):
            @contract(P, 'complex strain %dD%s' % (D, ', one more unknown per node' if m else ''), T)
            def _(c, m=m):
                N = 2 * D + m; n = c.size('n', 1, (1, 2)); u = c.view('u', [n, N * (D + 1)]); b = c.view('b', [n, D + 1, D]); e = c.view('e', [n, 2, NV])
                c.call('h_cplx%d' % D + 'm' * m, n, u, b, e); c.modifies(e)
                c.ensure_all('real and imaginary strain', [n, 2, NV], lambda r, i, z, v: c.eq(r.new(e, i, z, v), strain(c, u, b, i, v, D, N, z * D)))
        @contract(P, 'scaled gradient of a nodal scalar %dD' % D, T)
        def _(c):
            n = c.size('n', 1, (1, 2)); s = c.real('s'); g = c.view('g', [n, D]); p = c.view('p', [n, D + 1]); b = c.view('b', [n, D + 1, D])
            c.call('h_pgrad%d' % D, n, s, g, p, b); c.modifies(g)
            c.ensure_all('scaled gradient', [n, D], lambda r, i, d: c.eq(r.new(g, i, d), s * grad(c, p, b, i, d, D, 1, 0)))
    mk(D)

for D in (1, 2, 3):
    @contract(P, 'strain trace %dD' % D, T)
    def _(c, D=D):
        n = c.size('n', 1, (1, 2)); e = c.view('e', [n, len(VOIGT[D])]); o = c.vec('o', n)
        c.call('h_sdiv%d' % D, n, e, o); c.modifies(o)
        c.ensure_all('sum of normal strains', [n], lambda r, i: c.eq(r.new(o, i), S(c, (e(i, d) for d in range(D)))))

for fn, D, nd, off in (('211', 2, 1, 0), ('332', 3, 4, 2)):
    @contract(P, 'nodal interpolation of a scalar ' + fn, T)
    def _(c, fn=fn, D=D, nd=nd, off=off):
        n = c.size('n', 1, (1, 2)); b = c.view('b', [D + 1]); u = c.view('u', [n, nd * (D + 1)]); o = c.vec('o', n)
        c.call('h_interp' + fn, n, b, u, o); c.modifies(o)
        c.ensure_all('basis-weighted sum', [n], lambda r, i: c.eq(r.new(o, i), S(c, (b(k) * u(i, nd * k + off) for k in range(D + 1)))))
for fn, D, nd, off, m in (('v2', 2, 2, 0, 2), ('v3', 3, 5, 1, 3)):
    @contract(P, 'nodal interpolation of a vector ' + fn, T)
    def _(c, fn=fn, D=D, nd=nd, off=off, m=m):
        n = c.size('n', 1, (1, 2)); b = c.view('b', [D + 1]); u = c.view('u', [n, nd * (D + 1)]); w = c.size('w', m, (m, m + 1)); o = c.view('o', [n, w])
        c.call('h_interp' + fn, n, b, u, o); c.modifies(o)
        c.ensure_all('basis-weighted sum', [n, m], lambda r, i, d: c.eq(r.new(o, i, d), S(c, (b(k) * u(i, nd * k + off + d) for k in range(D + 1)))))
        c.ensure_all('rest kept', [n, w], lambda r, i, d: c.implies(c.ge(d, m), c.eq(r.new(o, i, d), o(i, d))))
for D, N, O in ((1, 1, 0), (2, 1, 0), (3, 1, 0), (2, 3, 2), (3, 4, 3), (3, 5, 1)):
    def mk(D, N, O):
        @contract(P, 'gradient of nodal degree of freedom %d of %d, dimension %d' % (O, N, D), T)
        def _(c):
            n = c.size('n', 0, (0, 1, 2)); g = c.view('g', [n, D + 1, D]); s = c.view('s', [n, (D + 1) * N]); o = c.view('o', [n, D])
            c.call('h_ig%d%d%d' % (D, N, O), n, g, s, o); c.modifies(o)
            for d in range(D): c.ensure_all('component %d' % d, [n], lambda r, i, d=d: c.eq(r.new(o, i, d), sum((s(i, k * N + O) * g(i, k, d) for k in range(D + 1)), c.num(0))))
    mk(D, N, O)
for D, N in ((1, 1), (2, 2), (3, 3), (1, 2), (2, 3), (3, 5)):
    @contract(P, 'strain %dD, %d unknowns per node' % (D, N), T)
    def _(c, D=D, N=N):
        n = c.size('n', 0, (1, 2)); W = len(VOIGT[D]); e = c.view('e', [n, W]); u = c.view('u', [n, N * (D + 1)]); b = c.view('b', [n, D + 1, D])
        c.call('h_st%d%d' % (D, N), n, e, u, b); c.modifies(e); c.ensure_all('strain', [n, W], lambda r, i, v: c.eq(r.new(e, i, v), strain(c, u, b, i, v, D, N)))
for D in (1, 2, 3):
    @contract(P, 'strain from the strain-displacement matrix %dD' % D, T)
    def _(c, D=D):
        n = c.size('n', 0, (1, 2)); W = len(VOIGT[D]); N = D * (D + 1); e = c.view('e', [n, W]); u = c.view('u', [n, N]); g = c.view('g', [N, W])
        c.call('h_sb%d' % D, n, e, u, g); c.modifies(e); c.ensure_all('matrix times displacement', [n, W], lambda r, i, v: c.eq(r.new(e, i, v), S(c, (u(i, k) * g(k, v) for k in range(N)))))
