from contract import contract as contract_
P, T = 'P26', 'p26.cpp'
SLOW = ('elastostatic residual differentiated by the state, 3D', 'thermostatic residual, conductivity of the temperature, differentiated by the coordinates, 3D', 'internal elastic energy differentiated by the coordinates, 3D',
        'internal elastic energy differentiated by the state, 3D', 'homogenisation residual, 3D', 'heat equation residual, material of the temperature, differentiated by the control, 3D',
        'thermostatic residual differentiated by the coordinates, 3D', 'internal thermal energy, conductivity of the temperature, differentiated by the coordinates, 3D', 'effective energy differentiated by the state, 3D',
        'elastostatic residual differentiated by the control, 3D', 'thermostatic residual, conductivity of the temperature, differentiated by the control, 3D', 'elastostatic residual differentiated by the coordinates, 3D',
        'internal thermal energy, conductivity of the temperature, differentiated by the control, 3D', 'transient internal thermal energy, conductivity of the temperature, differentiated by the control, 3D',
        'transient internal thermal energy differentiated by the coordinates, 3D', 'transient internal thermal energy, conductivity of the temperature, differentiated by the coordinates, 3D', 'volume differentiated by the coordinates, 3D',
        'internal thermal energy differentiated by the coordinates, 3D', 'internal elastic energy differentiated by the control, 3D')
def contract(p, name, tu): return contract_(p, name.replace(',,', ','), tu, deep=name in SLOW)
PAIRS = {1: [(0, 0)], 2: [(0, 0), (1, 1), (0, 1)], 3: [(0, 0), (1, 1), (2, 2), (1, 2), (0, 2), (0, 1)]}
def S(c, it): return sum(it, c.num(0))
class Cell:
    """geometry of cell i: det = volume * D!, g[k][d] = det * derivative of shape function k along d; q: as if differentiated by coordinate q % D of node q // D
    v: the coordinates are those of a placed cell (last vertex at the origin, vertex k in the span of the first k + 1 axes)"""
    def __init__(s, c, x, i, D, v=False, q=None):
        s.D = D; s.w = {1: 1, 2: 2, 3: 6}[D]; o = c.num(0)
        J = [[(x(i, 0, k * (k + 1) // 2 + d) if d <= k else o) if v or D == 3 else x(i, k, d) - x(i, D, d) for d in range(D)] for k in range(D)]
        T = lambda k, d: 0 if q is None or d != q % D else (1 if k == q // D else -1 if q // D == D else 0)     # derivative of J[k][d]
        def minor(a, b):
            """cofactor, or its derivative"""
            if D == 1: return c.num(1 if q is None else 0)
            if D == 2:
                k, d = 1 - a, 1 - b; r = J[k][d] if q is None else c.num(T(k, d)); return r if a == b else -r
            P, Q, R, U = [((a + m) % 3, (b + n) % 3) for m, n in ((1, 1), (2, 2), (1, 2), (2, 1))]; j = lambda t: J[t[0]][t[1]]
            if q is None: return j(P) * j(Q) - j(R) * j(U)
            return j(P) * T(*Q) + j(Q) * T(*P) - j(R) * T(*U) - j(U) * T(*R)
        s.g = [[minor(a, b) for b in range(D)] for a in range(D)]; s.g.append([-S(c, (s.g[a][b] for a in range(D))) for b in range(D)])
        if q is None: s.det = S(c, (J[0][b] * s.g[0][b] for b in range(D))); s.moved = lambda c, q: Cell(c, x, i, D, v, q)
        else: e = Cell(c, x, i, D, v); s.det = e.g[q // D][q % D]
def gplaced(D):
    """well shaped placed cells for the replays"""
    return lambda g, d: [g.randint(8, 32) / 8 if any(q == k * (k + 3) // 2 for k in range(D)) else g.randint(-16, 16) / 8 for _ in range(d[0]) for q in range(d[2])]
def gcell(D):
    def f(g, d):
        out = []
        for _ in range(d[0]):
            o = [g.randint(-32, 32) / 8 for _ in range(D)]; t = [[g.randint(8, 32) / 8 if a == b else g.randint(-16, 16) / 8 if b < a else 0 for b in range(D)] for a in range(D)]
            h = g.randint(-8, 8) / 8
            for r in t:
                if D > 1: r[1] = r[1] + h * r[0]          # a shear: same volume
            for k in range(D + 1): out += [o[a] + (t[k][a] if k < D else 0) for a in range(D)]
        return out
    return f
def setup(c, D, nd, nm, ex=None, v=False):
    nc = c.size('nc', 0, (1, 2)); ne = c.size('ne', 1, (2,)); cells = c.iview('cells', [nc], 0, ne)
    m = c.vec('m', max(nm, 1)); p = c.view('p', [2], lo=0.125, hi=4.0); u = c.view('u', [nc, nd * (D + 1)]); z = c.view('z', [nc, D + 1], lo=0.125, hi=1.0)
    if v or D == 3: x = c.view('x', [nc, 1, D * (D + 1) // 2], gen=gplaced(D)); c.requires_all([nc], lambda i: c.And(*[c.gt(x(i, 0, k * (k + 3) // 2), c.num(0)) for k in range(D)]))
    else: x = c.view('x', [nc, D + 1, D], gen=gcell(D))
    c.requires_all([nc], lambda i: c.gt(Cell(c, x, i, D, v).det, c.num(0))); c.requires_all([nc], lambda i: c.gt(zbar(c, z, i, D), c.num(0)))
    if ex is not None: c.requires(c.And(c.ge(m(ex), c.num(1)), c.le(m(ex), c.num(8))))
    return nc, [ne, cells, m, p, u, z, x], m, p, u, z, x
def zbar(c, z, i, D): return S(c, (z(i, k) for k in range(D + 1))) / (D + 1)
def pen(c, p, z, i, D): return p(1) + (1 - p(1)) * c.pow(zbar(c, z, i, D), p(0))
def dpen(c, p, z, i, D): return (1 - p(1)) * c.If(c.eq(p(0), c.num(1)), zbar(c, z, i, D), p(0) * c.pow(zbar(c, z, i, D), p(0))) / (D + 1)     # mean density * derivative of the penalty by any one nodal density
def cubic(c, m, D):
    V = len(PAIRS[D]); return [[m(0) if i == j < D else m(1) if i < D and j < D else m(2) if i == j else c.num(0) for j in range(V)] for i in range(V)]
def strain(c, u, e, i, l, a=None):
    """det * Voigt strain l (the shear strains are the engineering ones); with a: its derivative by unknown a"""
    D = e.D; d, f = PAIRS[D][l]; at = lambda k, q: (u(i, k * D + q) if a is None else c.num(1 if a == k * D + q else 0))
    return S(c, (e.g[k][d] * at(k, f) + (e.g[k][f] * at(k, d) if d != f else c.num(0)) for k in range(D + 1)))
def sgrad(c, u, e, i, d, a=None): return S(c, (e.g[k][d] * (u(i, k) if a is None else c.num(1 if a == k else 0)) for k in range(e.D + 1)))
# the bilinear forms, times det^2: a, b an unknown or None for the state itself; geometry e of the first factor, f of the second
def elastic(c, m, u, e, f, i, a=None, b=None):
    C = cubic(c, m, e.D); V = len(PAIRS[e.D]); D = e.D
    return S(c, (strain(c, u, e, i, l, a) * C[l][k] * strain(c, u, f, i, k, b) for l in range(V) for k in range(V) if l < D and k < D or l == k))
def conduct(c, m, u, e, f, i, a=None, b=None): return m(0) * S(c, (sgrad(c, u, e, i, d, a) * sgrad(c, u, f, i, d, b) for d in range(e.D)))
def kof(c, m, u, i, D, o=0):
    t = S(c, (u(i, k) for k in range(D + 1))) / (D + 1); return m(o) + m(o + 1) * t + m(o + 2) * t * t
def dkof(c, m, u, i, D, o=0):
    t = S(c, (u(i, k) for k in range(D + 1))) / (D + 1); return (m(o + 1) + 2 * m(o + 2) * t) / (D + 1)
one = lambda *a: 1
def conductT(c, m, u, e, f, i, a=None, b=None): return kof(c, m, u, i, e.D) * conduct(c, one, u, e, f, i, a, b)
# (tag, name, unknowns per node, material constants, form, its derivative by an unknown beyond the bilinear part)
VEC = [('th', 'thermostatic residual', lambda D: 1, 1, conduct, None), ('el', 'elastostatic residual', lambda D: D, 3, elastic, None),
       ('tt', 'thermostatic residual, conductivity of the temperature,', lambda D: 1, 3, conductT, lambda c, m, u, e, i, k: dkof(c, m, u, i, e.D) * conduct(c, one, u, e, e, i, k))]
def vec(tag, name, nd, nm, f, extra, D):
    N = nd * (D + 1); E = lambda c, x, i: Cell(c, x, i, D); sc = lambda c, x, i: E(c, x, i).det * E(c, x, i).w
    @contract(P, '%s, %dD' % (name, D), T)
    def _(c):
        nc, a, m, p, u, z, x = setup(c, D, nd, nm); r0 = c.view('r', [nc, N]); c.call('h_%s%d' % (tag, D), *a, r0); c.modifies(r0)
        for k in range(N): c.ensure_all('entry %d' % k, [nc], lambda r, i, k=k: c.eq((r.new(r0, i, k) - r0(i, k)) * sc(c, x, i), pen(c, p, z, i, D) * f(c, m, u, E(c, x, i), E(c, x, i), i, k)))
    @contract(P, '%s differentiated by the state, %dD' % (name, D), T)
    def _(c):
        nc, a, m, p, u, z, x = setup(c, D, nd, nm); r0 = c.view('r', [nc, N]); d0 = c.view('d', [nc, N, N]); c.call('h_%s%dU' % (tag, D), *a, r0, d0); c.modifies(r0, d0)
        ex = lambda i, k: extra(c, m, u, E(c, x, i), i, k) if extra else 0
        for k in range(N):
            for j in range(N): c.ensure_all('entry %d by unknown %d' % (k, j), [nc], lambda r, i, k=k, j=j: c.eq(r.new(d0, i, k, j) * sc(c, x, i), pen(c, p, z, i, D) * (f(c, m, u, E(c, x, i), E(c, x, i), i, k, j) + ex(i, k))))
    @contract(P, '%s differentiated by the control, %dD' % (name, D), T)
    def _(c):
        nc, a, m, p, u, z, x = setup(c, D, nd, nm, v=True); r0 = c.view('r', [nc, N]); d0 = c.view('d', [nc, N, D + 1]); c.call('h_%s%dZ' % (tag, D), *a, r0, d0); c.modifies(r0, d0)
        for k in range(N):
            for j in range(D + 1): c.ensure_all('entry %d by density %d' % (k, j), [nc], lambda r, i, k=k, j=j: c.eq(r.new(d0, i, k, j) * zbar(c, z, i, D) * (Cell(c, x, i, D, True).det * Cell(c, x, i, D, True).w), dpen(c, p, z, i, D) * f(c, m, u, Cell(c, x, i, D, True), Cell(c, x, i, D, True), i, k)))
    if True:
      @contract(P, '%s differentiated by the coordinates, %dD' % (name, D), T)
      def _(c):
        nc, a, m, p, u, z, x = setup(c, D, nd, nm, v=True); r0 = c.view('r', [nc, N]); d0 = c.view('d', [nc, N, D * (D + 1)]); c.call('h_%s%dX' % (tag, D), *a, r0, d0); c.modifies(r0, d0)
        def want(i, k, j):
            e = Cell(c, x, i, D, True); q = e.moved(c, j); return pen(c, p, z, i, D) * ((f(c, m, u, q, e, i, k) + f(c, m, u, e, q, i, k)) * e.det - f(c, m, u, e, e, i, k) * q.det)
        for k in range(N):
            for j in range(D * (D + 1)): c.ensure_all('entry %d by coordinate %d' % (k, j), [nc], lambda r, i, k=k, j=j: c.eq(r.new(d0, i, k, j) * (Cell(c, x, i, D, True).det * Cell(c, x, i, D, True).w) * Cell(c, x, i, D, True).det, want(i, k, j)))
for v in VEC:
    for D in (1, 2, 3): vec(v[0], v[1], v[2](D), *v[3:], D)
# criteria that are the form of the state with itself, times a factor
SCA = [('ee', 'internal elastic energy', lambda D: D, 3, elastic, None, lambda c: c.q(1, 2), 0), ('te', 'internal thermal energy', lambda D: 1, 1, conduct, None, lambda c: c.num(1), 0),
       ('ts', 'internal thermal energy, conductivity of the temperature,', lambda D: 1, 3, conductT, lambda c, m, u, e, i, k: dkof(c, m, u, i, e.D) * conduct(c, one, u, e, e, i), lambda c: c.num(1), 0),
       ('pe', 'transient internal thermal energy', lambda D: 1, 1, conduct, None, lambda c: c.num(1), 1),
       ('ps', 'transient internal thermal energy, conductivity of the temperature,', lambda D: 1, 3, conductT, lambda c, m, u, e, i, k: dkof(c, m, u, i, e.D) * conduct(c, one, u, e, e, i), lambda c: c.num(1), 1)]
def sca(tag, name, nd, nm, f, extra, fac, par, D):
    N = nd * (D + 1); E = lambda c, x, i: Cell(c, x, i, D); sc = lambda c, x, i: E(c, x, i).det * E(c, x, i).w
    more = lambda c, nc: [c.view('v', [nc, N])] if par else []
    @contract(P, '%s, %dD' % (name, D), T)
    def _(c):
        nc, a, m, p, u, z, x = setup(c, D, nd, nm); r0 = c.view('r', [nc]); c.call('h_%s%d' % (tag, D), *a, *more(c, nc), r0); c.modifies(r0)
        c.ensure_all('value', [nc], lambda r, i: c.eq((r.new(r0, i) - r0(i)) * sc(c, x, i), fac(c) * pen(c, p, z, i, D) * f(c, m, u, E(c, x, i), E(c, x, i), i)))
    @contract(P, '%s differentiated by the state, %dD' % (name, D), T)
    def _(c):
        nc, a, m, p, u, z, x = setup(c, D, nd, nm); r0 = c.view('r', [nc]); d0 = c.view('d', [nc, N]); c.call('h_%s%dU' % (tag, D), *a, *more(c, nc), r0, d0); c.modifies(r0, d0)
        ex = lambda i, k: extra(c, m, u, E(c, x, i), i, k) if extra else 0
        for j in range(N): c.ensure_all('by unknown %d' % j, [nc], lambda r, i, j=j: c.eq(r.new(d0, i, j) * sc(c, x, i), fac(c) * pen(c, p, z, i, D) * (2 * f(c, m, u, E(c, x, i), E(c, x, i), i, j) + ex(i, j))))
    @contract(P, '%s differentiated by the control, %dD' % (name, D), T)
    def _(c):
        nc, a, m, p, u, z, x = setup(c, D, nd, nm, v=True); r0 = c.view('r', [nc]); d0 = c.view('d', [nc, D + 1]); c.call('h_%s%dZ' % (tag, D), *a, *more(c, nc), r0, d0); c.modifies(r0, d0)
        for j in range(D + 1): c.ensure_all('by density %d' % j, [nc], lambda r, i, j=j: c.eq(r.new(d0, i, j) * zbar(c, z, i, D) * (Cell(c, x, i, D, True).det * Cell(c, x, i, D, True).w), fac(c) * dpen(c, p, z, i, D) * f(c, m, u, Cell(c, x, i, D, True), Cell(c, x, i, D, True), i)))
    if not par:
      @contract(P, '%s differentiated by the coordinates, %dD' % (name, D), T)
      def _(c):
        nc, a, m, p, u, z, x = setup(c, D, nd, nm, v=True); r0 = c.view('r', [nc]); d0 = c.view('d', [nc, D * (D + 1)]); c.call('h_%s%dX' % (tag, D), *a, r0, d0); c.modifies(r0, d0)
        def want(i, j):
            e = Cell(c, x, i, D, True); q = e.moved(c, j); return fac(c) * pen(c, p, z, i, D) * ((f(c, m, u, q, e, i) + f(c, m, u, e, q, i)) * e.det - f(c, m, u, e, e, i) * q.det)
        for j in range(D * (D + 1)): c.ensure_all('by coordinate %d' % j, [nc], lambda r, i, j=j: c.eq(r.new(d0, i, j) * (Cell(c, x, i, D, True).det * Cell(c, x, i, D, True).w) * Cell(c, x, i, D, True).det, want(i, j)))
for v in SCA:
    for D in (1, 2, 3): sca(v[0], v[1], v[2](D), *v[3:], D)

# volume: that of the cell, penalised
def vol(tag, name, D):
    E = lambda c, x, i: Cell(c, x, i, D)
    @contract(P, '%s, %dD' % (name, D), T)
    def _(c):
        nc, a, m, p, u, z, x = setup(c, D, D, 1); r0 = c.view('r', [nc]); c.call('h_%s%d' % (tag, D), *a, r0); c.modifies(r0)
        c.ensure_all('value', [nc], lambda r, i: c.eq(r.new(r0, i) * E(c, x, i).w, pen(c, p, z, i, D) * E(c, x, i).det))
    @contract(P, '%s differentiated by the control, %dD' % (name, D), T)
    def _(c):
        nc, a, m, p, u, z, x = setup(c, D, D, 1, v=True); r0 = c.view('r', [nc]); d0 = c.view('d', [nc, D + 1]); c.call('h_%s%dZ' % (tag, D), *a, r0, d0); c.modifies(r0, d0); e = lambda i: Cell(c, x, i, D, True)
        for j in range(D + 1): c.ensure_all('by density %d' % j, [nc], lambda r, i, j=j: c.eq(r.new(d0, i, j) * zbar(c, z, i, D) * e(i).w, dpen(c, p, z, i, D) * e(i).det))
    @contract(P, '%s differentiated by the coordinates, %dD' % (name, D), T)
    def _(c):
        nc, a, m, p, u, z, x = setup(c, D, D, 1, v=True); r0 = c.view('r', [nc]); d0 = c.view('d', [nc, D * (D + 1)]); c.call('h_%s%dX' % (tag, D), *a, r0, d0); c.modifies(r0, d0); e = lambda i: Cell(c, x, i, D, True)
        for j in range(D * (D + 1)): c.ensure_all('by coordinate %d' % j, [nc], lambda r, i, j=j: c.eq(r.new(d0, i, j) * e(i).w, pen(c, p, z, i, D) * e(i).g[j // D][j % D]))
    if tag == 'vo':
        @contract(P, '%s differentiated by the state, %dD' % (name, D), T)
        def _(c):
            nc, a, m, p, u, z, x = setup(c, D, D, 1); r0 = c.view('r', [nc]); N = D * (D + 1); d0 = c.view('d', [nc, N]); c.call('h_%s%dU' % (tag, D), *a, r0, d0); c.modifies(r0, d0)
            c.ensure_all('does not depend on it', [nc, N], lambda r, i, j: c.eq(r.new(d0, i, j), c.num(0)))
for D in (1, 2, 3): vol('vo', 'volume', D); vol('gv', 'geometric volume', D)
# norms: volume * (sum of the squares of the penalised flux or stress)^(exponent / 2)
def norm(tag, name, nd, nm, sq, D):
    @contract(P, '%s, %dD' % (name, D), T)
    def _(c):
        nc, a, m, p, u, z, x = setup(c, D, nd, nm, ex=3, v=False); r0 = c.view('r', [nc]); c.call('h_%s%d' % (tag, D), *a, r0); c.modifies(r0)
        def want(i):
            e = Cell(c, x, i, D); return c.pow(S(c, (q * q for q in [pen(c, p, z, i, D) * t / e.det for t in sq(c, m, u, e, i)])), m(3) / 2) * e.det
        c.ensure_all('value', [nc], lambda r, i: c.eq(r.new(r0, i) * Cell(c, x, i, D).w, want(i)))
def stress(c, m, u, e, i):
    C = cubic(c, m, e.D); V = len(C); return [S(c, (C[l][k] * strain(c, u, e, i, k) for k in range(V) if l < e.D and k < e.D or l == k)) for l in range(V)]
for D in (1, 2, 3):
    norm('fp', 'heat flux p-norm', 1, 4, lambda c, m, u, e, i: [m(0) * sgrad(c, u, e, i, d) for d in range(e.D)], D)
    norm('fs', 'heat flux p-norm, conductivity of the temperature,', 1, 4, lambda c, m, u, e, i: [kof(c, m, u, i, e.D) * sgrad(c, u, e, i, d) for d in range(e.D)], D)
    norm('sp', 'stress p-norm', D, 4, stress, D)
# the heat equation: conduction plus storage
def heat(tag, name, dep, D):
    N = D + 1; nm = 9 if dep else 5; K = (lambda c, m, u, i: kof(c, m, u, i, D)) if dep else (lambda c, m, u, i: m(0)); dK = (lambda c, m, u, i: dkof(c, m, u, i, D)) if dep else (lambda c, m, u, i: c.num(0))
    R = (lambda c, m, u, i: kof(c, m, u, i, D, 3) * kof(c, m, u, i, D, 6)) if dep else (lambda c, m, u, i: m(3) * m(4))
    dR = (lambda c, m, u, i: dkof(c, m, u, i, D, 3) * kof(c, m, u, i, D, 6) + kof(c, m, u, i, D, 3) * dkof(c, m, u, i, D, 6)) if dep else (lambda c, m, u, i: c.num(0))
    mean = lambda c, v, i: S(c, (v(i, k) for k in range(N))) / N; cd = lambda c, u, e, i, *a: conduct(c, one, u, e, e, i, *a)
    def pre(c): nc, a, m, p, u, z, x = setup(c, D, 1, nm); v = c.view('v', [nc, N]); return nc, a + [v], m, p, u, z, x, v
    @contract(P, '%s, %dD' % (name, D), T)
    def _(c):
        nc, a, m, p, u, z, x, v = pre(c); r0 = c.view('r', [nc, N]); c.call('h_%s%dq' % (tag, D), *a, r0); c.modifies(r0); e = lambda i: Cell(c, x, i, D)
        for k in range(N): c.ensure_all('entry %d' % k, [nc], lambda r, i, k=k: c.eq((r.new(r0, i, k) - r0(i, k)) * e(i).det * e(i).w, pen(c, p, z, i, D) * (K(c, m, u, i) * cd(c, u, e(i), i, k) + R(c, m, u, i) * mean(c, v, i) * e(i).det * e(i).det / N)))
    @contract(P, '%s differentiated by the state, %dD' % (name, D), T)
    def _(c):
        nc, a, m, p, u, z, x, v = pre(c); r0 = c.view('r', [nc, N]); d0 = c.view('d', [nc, N, N]); c.call('h_%s%dqU' % (tag, D), *a, r0, d0); c.modifies(r0, d0); e = lambda i: Cell(c, x, i, D)
        for k in range(N):
            for j in range(N): c.ensure_all('entry %d by unknown %d' % (k, j), [nc], lambda r, i, k=k, j=j: c.eq(r.new(d0, i, k, j) * e(i).det * e(i).w, pen(c, p, z, i, D) * (K(c, m, u, i) * cd(c, u, e(i), i, k, j) + dK(c, m, u, i) * cd(c, u, e(i), i, k) + dR(c, m, u, i) * mean(c, v, i) * e(i).det * e(i).det / N)))
    @contract(P, '%s differentiated by the rate, %dD' % (name, D), T)
    def _(c):
        nc, a, m, p, u, z, x, v = pre(c); r0 = c.view('r', [nc, N]); d0 = c.view('d', [nc, N, N]); c.call('h_%s%dqV' % (tag, D), *a, r0, d0); c.modifies(r0, d0); e = lambda i: Cell(c, x, i, D)
        for k in range(N):
            for j in range(N): c.ensure_all('entry %d by rate %d' % (k, j), [nc], lambda r, i, k=k, j=j: c.eq(r.new(d0, i, k, j) * e(i).w * N * N, pen(c, p, z, i, D) * R(c, m, u, i) * e(i).det))
    @contract(P, '%s differentiated by the control, %dD' % (name, D), T)
    def _(c):
        nc, a, m, p, u, z, x = setup(c, D, 1, nm, v=True); v = c.view('v', [nc, N]); r0 = c.view('r', [nc, N]); d0 = c.view('d', [nc, N, N]); c.call('h_%s%dqZ' % (tag, D), *a, v, r0, d0); c.modifies(r0, d0); e = lambda i: Cell(c, x, i, D, True)
        for k in range(N):
            for j in range(N): c.ensure_all('entry %d by density %d' % (k, j), [nc], lambda r, i, k=k, j=j: c.eq(r.new(d0, i, k, j) * zbar(c, z, i, D) * e(i).det * e(i).w, dpen(c, p, z, i, D) * (K(c, m, u, i) * cd(c, u, e(i), i, k) + R(c, m, u, i) * mean(c, v, i) * e(i).det * e(i).det / N)))
for D in (1, 2, 3): heat('he', 'heat equation residual', 0, D); heat('ht', 'heat equation residual, material of the temperature,', 1, D)
# homogenisation: minus the stress of the unit strain is added; the energy of the assumed strain
for D in (1, 2, 3):
    V = len(PAIRS[D])
    @contract(P, 'homogenisation residual, %dD' % D, T)
    def _(c, D=D, V=V):
        nc, a, m, p, u, z, x = setup(c, D, D, 3); N = D * (D + 1); r0 = c.view('r', [nc, N]); col = c.int('col', 0, V - 1); c.call('h_hr%d' % D, *a, col, r0); c.modifies(r0); C = cubic(c, m, D)
        def want(i, k):
            e = Cell(c, x, i, D); return elastic(c, m, u, e, e, i, k) - e.det * S(c, (strain(c, u, e, i, l, k) * S(c, (c.If(c.eq(col, q), C[l][q], c.num(0)) for q in range(V))) for l in range(V)))
        for k in range(N): c.ensure_all('entry %d' % k, [nc], lambda r, i, k=k: c.eq((r.new(r0, i, k) - r0(i, k)) * Cell(c, x, i, D).det * Cell(c, x, i, D).w, pen(c, p, z, i, D) * want(i, k)))
    @contract(P, 'effective energy, %dD' % D, T)
    def _(c, D=D, V=V):
        nc, a, m, p, u, z, x = setup(c, D, D, 3 + V); r0 = c.view('r', [nc]); col = c.int('col', 0, V - 1); c.call('h_he%d' % D, *a, col, r0); c.modifies(r0); C = cubic(c, m, D)
        def want(i):
            e = Cell(c, x, i, D); s = stress(c, m, u, e, i); return S(c, (m(3 + l) * (e.det * S(c, (c.If(c.eq(col, q), C[l][q], c.num(0)) for q in range(V))) - s[l]) for l in range(V)))
        c.ensure_all('value', [nc], lambda r, i: c.eq((r.new(r0, i) - r0(i)) * Cell(c, x, i, D).w, pen(c, p, z, i, D) * want(i)))
    @contract(P, 'effective energy differentiated by the state, %dD' % D, T)
    def _(c, D=D, V=V):
        nc, a, m, p, u, z, x = setup(c, D, D, 3 + V); r0 = c.view('r', [nc]); N = D * (D + 1); d0 = c.view('d', [nc, N]); col = c.int('col', 0, V - 1); c.call('h_he%dU' % D, *a, col, r0, d0); c.modifies(r0, d0); C = cubic(c, m, D)
        def want(i, j): e = Cell(c, x, i, D); return -S(c, (m(3 + l) * C[l][q] * strain(c, u, e, i, q, j) for l in range(V) for q in range(V) if l < D and q < D or l == q))
        for j in range(N): c.ensure_all('by unknown %d' % j, [nc], lambda r, i, j=j: c.eq(r.new(d0, i, j) * Cell(c, x, i, D).w, pen(c, p, z, i, D) * want(i, j)))
# the temperature criterion: penalised mean temperature times the cell volume
for D in (1, 2, 3):
    @contract(P, 'temperature criterion, %dD' % D, T)
    def _(c, D=D):
        nc, a, m, p, u, z, x = setup(c, D, 1, 1); v = c.view('v', [nc, D + 1]); r0 = c.view('r', [nc]); c.call('h_ta%d' % D, *a, v, r0); c.modifies(r0)
        c.ensure_all('value', [nc], lambda r, i: c.eq(r.new(r0, i) * Cell(c, x, i, D).w * (D + 1), pen(c, p, z, i, D) * S(c, (u(i, k) for k in range(D + 1))) * Cell(c, x, i, D).det))
    @contract(P, 'temperature criterion differentiated by the state, %dD' % D, T)
    def _(c, D=D):
        nc, a, m, p, u, z, x = setup(c, D, 1, 1); v = c.view('v', [nc, D + 1]); r0 = c.view('r', [nc]); d0 = c.view('d', [nc, D + 1]); c.call('h_ta%dU' % D, *a, v, r0, d0); c.modifies(r0, d0)
        for j in range(D + 1): c.ensure_all('by unknown %d' % j, [nc], lambda r, i, j=j: c.eq(r.new(d0, i, j) * Cell(c, x, i, D).w * (D + 1), pen(c, p, z, i, D) * Cell(c, x, i, D).det))
# body loads: minus the load at every node (of the first unknown), on top of the rest
from p21 import mesh, dom
for tag, D, nd, nm, f, what in (('bt2', 2, 1, 1, conduct, 'thermostatic residual with a body load, 2D'), ('be1', 1, 1, 3, elastic, 'elastostatic residual with a body load, 1D'), ('be2', 2, 2, 3, elastic, 'elastostatic residual with a body load, 2D')):
    @contract(P, what, T)
    def _(c, tag=tag, D=D, nd=nd, nm=nm, f=f):
        ne, nv, conn, X = mesh(c, D, (1, 2)); nc, cells = dom(c, ne); N = D + 1
        m = c.vec('m', nm); p = c.view('p', [2], lo=0.125, hi=4.0); u = c.view('u', [nc, nd * N]); z = c.view('z', [nc, N], lo=0.125, hi=1.0); x = c.view('cx', [nc, N, D], gen=gcell(D)); k = c.vec('k', 4); r0 = c.view('r', [nc, nd * N])
        c.requires_all([nc], lambda i: c.gt(Cell(c, x, i, D).det, c.num(0))); c.call('h_' + tag, ne, nv, conn, X, cells, m, p, u, z, x, k, r0); c.modifies(r0)
        def load(i):
            e = cells(i); at = lambda n, a: X(conn(e * N + n) * D + a); J = at(0, 0) - at(1, 0) if D == 1 else (at(0, 0) - at(2, 0)) * (at(1, 1) - at(2, 1)) - (at(0, 1) - at(2, 1)) * (at(1, 0) - at(2, 0))
            return c.abs(J) * (k(0) + S(c, (k(1 + a) * S(c, (at(n, a) for n in range(N))) / N for a in range(D)))) * zbar(c, z, i, D) / N
        for q in range(nd * N): c.ensure_all('entry %d' % q, [nc], lambda r, i, q=q: c.eq((r.new(r0, i, q) - r0(i, q)) * Cell(c, x, i, D).det * Cell(c, x, i, D).w, pen(c, p, z, i, D) * f(c, m, u, Cell(c, x, i, D), Cell(c, x, i, D), i, q) - (load(i) * Cell(c, x, i, D).det if q % nd == 0 else c.num(0))))
