from contract import contract
P, T = 'P07', 'p07.cpp'
# layout of the plasticity tensors: normal components, shear components (2D is plane strain: xx, yy, xy, zz)
NORMAL = {1: [0], 2: [0, 1, 3], 3: [0, 1, 2]}
SHEAR = {1: [], 2: [2], 3: [3, 4, 5]}
NT = {1: 1, 2: 4, 3: 6}
def S(c, it): return sum(it, c.num(0))
def trace(c, e, i, D): return S(c, (e(i, k) for k in NORMAL[D]))
def cauchy(c, e, i, k, D, K, G, tr, kt=None):
    return 2 * G * (e(i, k) - tr / 3) + K * (tr if kt is None else kt) if k in NORMAL[D] else G * e(i, k)

for D in (1, 2, 3):
    n_ = NT[D]
    def base(c, D):
        n = c.size('n', 1, (1, 2)); K = c.real('K'); G = c.real('G'); e = c.view('e', [n, NT[D]]); s = c.view('s', [n, NT[D]])
        c.call('h_cs%d' % D, n, K, G, e, s); c.modifies(s)
        return n, K, G, e, s
    if D == 2:
        @contract(P, 'Cauchy stress 2D', T)
        def _(c, D=D):
            n, K, G, e, s = base(c, D)
            c.ensure_all('2 G dev + K tr', [n, NT[D]], lambda r, i, k: c.eq(r.new(s, i, k), cauchy(c, e, i, k, D, K, G, trace(c, e, i, D))))
    else:
        @contract(P, 'Cauchy stress %dD' % D, T)
        def _(c, D=D):
            n, K, G, e, s = base(c, D)
            c.ensure_all('2 G dev + K tr', [n, NT[D]], lambda r, i, k: c.eq(r.new(s, i, k), cauchy(c, e, i, k, D, K, G, trace(c, e, i, D))))
        @contract(P, 'Cauchy stress %dD up to the known finding' % D, T)
        def _(c, D=D):
            n, K, G, e, s = base(c, D)
            def want(r, i):
                ok = c.And(*[c.eq(r.new(s, i, k), cauchy(c, e, i, k, D, K, G, trace(c, e, i, D))) for k in range(NT[D])])
                if D == 3:
                    tr = e(i, 0) + e(i, 1) + e(i, 3)
                    kn = c.And(*[c.eq(r.new(s, i, k), cauchy(c, e, i, k, D, K, G, tr)) for k in range(NT[D])])
                else:
                    kn = c.And(*[c.eq(r.new(s, i, k), cauchy(c, e, i, k, D, K, G, e(i, 0), e(i, 0) / 3)) for k in range(NT[D])])
                return c.Or(ok, kn)
            c.ensure_all('law, or exactly the listed deviation', [n], want)
    @contract(P, 'deviatoric strain %dD' % D, T)
    def _(c, D=D):
        n = c.size('n', 1, (1, 2)); e = c.view('e', [n, NT[D]]); s = c.view('s', [n, NT[D]])
        c.call('h_de%d' % D, n, e, s); c.modifies(s)
        c.ensure_all('strain minus a third of its trace', [n, NT[D]], lambda r, i, k: c.eq(r.new(s, i, k), e(i, k) - trace(c, e, i, D) / 3 if k in NORMAL[D] else e(i, k)))
        if D > 1: c.ensure_all('trace free', [n], lambda r, i: c.eq(S(c, (r.new(s, i, k) for k in NORMAL[D])), c.num(0)))
    @contract(P, 'deviatoric stress %dD' % D, T)
    def _(c, D=D):
        n = c.size('n', 1, (1, 2)); G = c.real('G'); e = c.view('e', [n, NT[D]]); s = c.view('s', [n, NT[D]])
        c.call('h_ds%d' % D, n, G, e, s); c.modifies(s)
        c.ensure_all('2 G dev', [n, NT[D]], lambda r, i, k: c.eq(r.new(s, i, k), 2 * G * (e(i, k) - trace(c, e, i, D) / 3) if k in NORMAL[D] else G * e(i, k)))
        if D > 1: c.ensure_all('trace free', [n], lambda r, i: c.eq(S(c, (r.new(s, i, k) for k in NORMAL[D])), c.num(0)))
    @contract(P, 'elastic work %dD' % D, T)
    def _(c, D=D):
        n = c.size('n', 1, (1, 2)); G = c.real('G'); K = c.real('K'); e = c.view('e', [n, NT[D]]); d = c.view('d', [n, NT[D]]); o = c.vec('o', n)
        c.call('h_ew%d' % D, n, G, K, e, d, o); c.modifies(o)
        c.ensure_all('G d:d + K/2 tr^2', [n], lambda r, i: c.eq(r.new(o, i), G * (S(c, (d(i, k) * d(i, k) for k in NORMAL[D])) + 2 * S(c, (d(i, k) * d(i, k) for k in SHEAR[D]))) + K * trace(c, e, i, D) * trace(c, e, i, D) / 2))
    @contract(P, 'work of the deviatoric laws is never negative %dD' % D, T)
    def _(c, D=D):
        n = c.size('n', 1, (1, 2)); K = c.real('K', 0); G = c.real('G', 0); e = c.view('e', [n, NT[D]]); d = c.view('d', [n, NT[D]]); s = c.view('s', [n, NT[D]]); w = c.vec('w', n)
        c.call('h_ch%d' % D, n, K, G, e, d, s, w); c.modifies(d, s, w)
        c.ensure_all('work >= 0', [n], lambda r, i: c.ge(r.new(w, i), c.num(0)))
        c.ensure_all('normal stress is twice G times deviatoric strain', [n], lambda r, i: c.And(*[c.eq(r.new(s, i, k), 2 * G * r.new(d, i, k)) for k in NORMAL[D]]))
    @contract(P, 'stabilization %dD' % D, T)
    def _(c, D=D):
        n = c.size('n', 1, (1, 2)); s = c.real('s'); G = c.real('G', 0.125); v = c.view('v', [n], lo=0.0); p = c.view('p', [n, D]); q = c.view('q', [n, D]); o = c.view('o', [n, D])
        c.call('h_st%d' % D, n, s, G, v, p, q, o); c.modifies(o)
        c.ensure_all('scaled pressure-gradient misfit', [n, D], lambda r, i, k: c.eq(r.new(o, i, k), s * c.pow(v(i), c.num(2.0 / 3.0)) / (2 * G) * (s * p(i, k) - q(i, k))))
    @contract(P, 'double dot product %dD' % D, T)
    def _(c, D=D):
        n = c.size('n', 1, (1, 2)); a = c.view('a', [n, NT[D]]); b = c.view('b', [n, NT[D]]); o = c.vec('o', n)
        c.call('h_dd%d' % D, n, a, b, o); c.modifies(o)
        c.ensure_all('shear counted twice', [n], lambda r, i: c.eq(r.new(o, i), S(c, (a(i, k) * b(i, k) for k in NORMAL[D])) + 2 * S(c, (a(i, k) * b(i, k) for k in SHEAR[D]))))
    NV = {1: 1, 2: 3, 3: 6}
    @contract(P, 'von Mises stress %dD' % D, T)
    def _(c, D=D):
        n = c.size('n', 1, (1, 2)); s = c.view('s', [n, NV[D]]); o = c.vec('o', n)
        c.call('h_vm%d' % D, n, s, o); c.modifies(o)
        def want(r, i):
            x = [s(i, k) for k in range(NV[D])]
            if D == 1: return c.eq(r.new(o, i), x[0])
            if D == 2: q = x[0] * x[0] - x[0] * x[1] + x[1] * x[1] + 3 * x[2] * x[2]
            else: q = ((x[0] - x[1]) * (x[0] - x[1]) + (x[1] - x[2]) * (x[1] - x[2]) + (x[2] - x[0]) * (x[2] - x[0])) / 2 + 3 * (x[3] * x[3] + x[4] * x[4] + x[5] * x[5])
            return c.eq(r.new(o, i), c.sqrt(q))
        c.ensure_all('equivalent stress', [n], want)
for m in (1, 4, 6):
    @contract(P, 'dot product of %d terms' % m, T)
    def _(c, m=m):
        n = c.size('n', 1, (1, 2)); w = c.size('w', m, (m, m + 1)); a = c.view('a', [n, w]); b = c.view('b', [n, w]); o = c.vec('o', n)
        c.call('h_dot%d' % m, n, a, b, o); c.modifies(o)
        c.ensure_all('sum of products', [n], lambda r, i: c.eq(r.new(o, i), S(c, (a(i, k) * b(i, k) for k in range(m)))))
@contract(P, 'shear modulus', T)
def _(c):
    e = c.real('e'); v = c.real('v', -0.875, 0.4375)
    c.call('h_shear', e, v, ret='real'); c.ensure('E / 2(1+v)', lambda r: c.eq(r.value, e / (2 * (1 + v))))
@contract(P, 'bulk modulus', T)
def _(c):
    e = c.real('e'); v = c.real('v', -0.875, 0.4375)
    c.call('h_bulk', e, v, ret='real'); c.ensure('E / 3(1-2v)', lambda r: c.eq(r.value, e / (3 * (1 - 2 * v))))
