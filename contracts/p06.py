from contract import contract
P, T = 'P06', 'p06.cpp'
VOIGT = {1: [(0, 0)], 2: [(0, 0), (1, 1), (0, 1)], 3: [(0, 0), (1, 1), (2, 2), (1, 2), (0, 2), (0, 1)]}
def vix(D, i, j): return VOIGT[D].index((min(i, j), max(i, j)))
def S(c, it): return sum(it, c.num(0))

def sd(nm, fn, D, nd, off, scaled=True):
    @contract(P, 'nodal force of a stress ' + nm, T)
    def _(c):
        n = c.size('n', 1, (1, 2)); s = c.real('s') if scaled else c.num(1)
        o = c.view('o', [n, nd * (D + 1)]); t = c.view('t', [n, len(VOIGT[D])]); b = c.view('b', [n, D + 1, D]); v = c.vec('v', n)
        c.call(fn, n, s, o, t, b, v) if scaled else c.call(fn, n, o, t, b, v); c.modifies(o)
        def want(r, i, k):
            a, d = divmod(k, nd); d -= off
            add = s * v(i) * S(c, (t(i, vix(D, d, j)) * b(i, a, j) for j in range(D))) if 0 <= d < D else c.num(0)
            return c.eq(r.new(o, i, k), o(i, k) + add)
        c.ensure_all('volume * stress . grad, other dofs kept', [n, nd * (D + 1)], want)
for D, nd, off in ((1, 1, 0), (2, 2, 0), (2, 3, 1), (3, 3, 0), (3, 4, 0), (3, 5, 2)):
    if nd >= D + off or True: sd('%dD, %d dofs, offset %d' % (D, nd, off), 'h_sd%d%d%d' % (D, nd, off) if D > 1 else 'h_sd100', D, nd, off)
sd('2D unscaled', 'h_sdd', 2, 2, 0, False)

for D, nd, off in ((1, 1, 0), (2, 1, 0), (2, 3, 2), (3, 1, 0), (3, 4, 3)):
    @contract(P, 'nodal balance of a flux %dD, %d dofs, offset %d' % (D, nd, off), T)
    def _(c, D=D, nd=nd, off=off):
        n = c.size('n', 1, (1, 2)); s = c.real('s')
        o = c.view('o', [n, nd * (D + 1)]); t = c.view('t', [n, D]); b = c.view('b', [n, D + 1, D]); v = c.vec('v', n)
        c.call('h_fd%d%d%d' % (D, nd, off), n, s, o, t, b, v); c.modifies(o)
        def want(r, i, k):
            a, d = divmod(k, nd)
            return c.eq(r.new(o, i, k), o(i, k) + (s * v(i) * S(c, (t(i, j) * b(i, a, j) for j in range(D))) if d == off else c.num(0)))
        c.ensure_all('volume * flux . grad, other dofs kept', [n, nd * (D + 1)], want)

for D, nd, off in ((1, 1, 0), (2, 2, 0), (2, 3, 0), (3, 5, 1)):
    @contract(P, 'nodal force of a pressure %dD, %d dofs, offset %d' % (D, nd, off), T)
    def _(c, D=D, nd=nd, off=off):
        n = c.size('n', 1, (1, 2)); s = c.real('s')
        o = c.view('o', [n, nd * (D + 1)]); t = c.vec('t', n); b = c.view('b', [n, D + 1, D]); v = c.vec('v', n)
        c.call('h_pd%d%d%d' % (D, nd, off), n, s, o, t, b, v); c.modifies(o)
        def want(r, i, k):
            a, d = divmod(k, nd); d -= off
            return c.eq(r.new(o, i, k), o(i, k) + (s * v(i) * t(i) * b(i, a, d) if 0 <= d < D else c.num(0)))
        c.ensure_all('volume * pressure * grad, other dofs kept', [n, nd * (D + 1)], want)

for D, nd, off in ((1, 1, 0), (2, 2, 0), (2, 3, 2), (3, 5, 3)):
    @contract(P, 'projection of a scalar to nodes %dD, %d dofs, offset %d' % (D, nd, off), T)
    def _(c, D=D, nd=nd, off=off):
        n = c.size('n', 1, (1, 2)); s = c.real('s')
        o = c.view('o', [n, nd * (D + 1)]); t = c.vec('t', n); b = c.view('b', [D + 1]); v = c.vec('v', n)
        c.call('h_ps%d%d%d' % (D, nd, off), n, s, v, b, t, o); c.modifies(o)
        def want(r, i, k):
            a, d = divmod(k, nd)
            return c.eq(r.new(o, i, k), o(i, k) + (s * v(i) * t(i) * b(a) if d == off else c.num(0)))
        c.ensure_all('basis * value * volume, other dofs kept', [n, nd * (D + 1)], want)
    m = nd - off
    @contract(P, 'projection of a vector to nodes %dD, %d dofs, offset %d' % (D, nd, off), T)
    def _(c, D=D, nd=nd, off=off, m=m):
        n = c.size('n', 1, (1, 2)); s = c.real('s')
        o = c.view('o', [n, nd * (D + 1)]); t = c.view('t', [n, m]); b = c.view('b', [D + 1]); v = c.vec('v', n)
        c.call('h_pn%d%d%d' % (D, nd, off), n, s, v, b, t, o); c.modifies(o)
        def want(r, i, k):
            a, d = divmod(k, nd)
            return c.eq(r.new(o, i, k), o(i, k) + (s * v(i) * t(i, d - off) * b(a) if off <= d < off + m else c.num(0)))
        c.ensure_all('basis * value * volume, other dofs kept', [n, nd * (D + 1)], want)

for D, m in ((1, 0), (2, 0), (3, 0), (1, 1), (2, 1), (3, 1)):
    @contract(P, 'nodal force of a complex stress %dD%s' % (D, ', one more unknown per node' if m else ''), T)
    def _(c, D=D, m=m):
        n = c.size('n', 1, (1, 2)); NV = len(VOIGT[D]); N = 2 * D + m
        o = c.view('o', [n, N * (D + 1)]); t = c.view('t', [n, 2, NV]); b = c.view('b', [n, D + 1, D]); v = c.vec('v', n)
        c.call('h_cd%d' % D + 'm' * m, n, v, b, t, o); c.modifies(o)
        def want(r, i, k):
            a, w = divmod(k, N); z, d = divmod(w, D)
            return c.eq(r.new(o, i, k), v(i) * S(c, (t(i, z, vix(D, d, j)) * b(i, a, j) for j in range(D))) if z < 2 else o(i, k))
        c.ensure_all('volume * stress . grad for each part', [n, N * (D + 1)], want)

for D in (2, 3):
    @contract(P, 'virtual work duality of complex strain and stress divergence %dD' % D, T)
    def _(c, D=D):
        n = c.size('n', 1, (1, 2)); NV = len(VOIGT[D])
        u = c.view('u', [n, 2 * D * (D + 1)]); b = c.view('b', [n, D + 1, D]); e = c.view('e', [n, 2, NV]); t = c.view('t', [n, 2, NV]); v = c.vec('v', n); o = c.view('o', [n, 2 * D * (D + 1)])
        c.call('h_vw%d' % D, n, u, b, e, t, v, o); c.modifies(e, o)
        c.ensure_all('force . displacement = volume * stress : strain', [n], lambda r, i: c.eq(S(c, (r.new(o, i, k) * u(i, k) for k in range(2 * D * (D + 1)))), v(i) * S(c, (t(i, z, w) * r.new(e, i, z, w) for z in range(2) for w in range(NV)))))

for fn, nm in (('h_fdd', 'flux'), ('h_pdd', 'pressure'), ('h_pnd', 'projected vector'), ('h_psd', 'projected scalar')):
    @contract(P, 'unscaled nodal force of a %s' % nm, T)
    def _(c, fn=fn, nm=nm):
        n = c.size('n', 1, (1, 2)); o = c.view('o', [n, 9]); v = c.vec('v', n); proj = nm[:4] == 'proj'
        t = c.view('t', [n, 2]) if nm == 'flux' else c.view('t', [n, 1]) if nm == 'projected vector' else c.vec('t', n); b = c.view('b', [3]) if proj else c.view('b', [n, 3, 2])
        c.call(fn, n, *([v, b, t, o] if proj else [o, t, b, v])); c.modifies(o)
        def want(r, i, k):
            a, d = divmod(k, 3)
            if nm == 'pressure': add = v(i) * t(i) * b(i, a, d) if d < 2 else c.num(0)
            elif d != 2: add = c.num(0)
            else: add = v(i) * (t(i, 0) * b(i, a, 0) + t(i, 1) * b(i, a, 1) if nm == 'flux' else b(a) * (t(i, 0) if nm == 'projected vector' else t(i)))
            return c.eq(r.new(o, i, k), o(i, k) + add)
        c.ensure_all('as with the scale one', [n, 9], want)
